----------------------------- MODULE SetupTrace -----------------------------
(***************************************************************************)
(* Commitments and keys (C14; spec/Setup.tla is the abstract protocol):    *)
(* what recorded sessions of the real code sent is checked against it.     *)
(*                                                                         *)
(* A session has, for each party, its communication events e with e.t "s"  *)
(* (sent) or "r" (received), e.p the other party, e.x the bytes, e.o the   *)
(* operation.  A commitment is 64 bytes, the hash of an opening, which is  *)
(* 64 bytes too (32 of contribution, 32 of randomness); messages may hold  *)
(* several.  tag.kind says what is judged:                                 *)
(*   order  In every operation of tag.ops the parties commit and reveal:   *)
(*          each to each, and nothing that was not committed to; the n-th  *)
(*          reveal of a party comes after it received the n-th commitments *)
(*          of the others.  If tag.proof, two coins are drawn: the first   *)
(*          chooses the checks that are to be proved, so that it is        *)
(*          revealed before a party sends any proof, and the last one      *)
(*          challenges the proofs, so that they have all arrived before.   *)
(*   rush   (spec/Coin.tla is the abstract protocol.)  Nothing that gives  *)
(*          away a coin reaches a party before all that this party had to  *)
(*          send earlier has reached the others: in the causal past of     *)
(*          every share of a coin that a party receives they received it.  *)
(*          tag.coin is "share" (32 bytes from the previous party) or      *)
(*          "reveal" (the reveals of the operations tag.ops); the share of *)
(*          an operation of tag.single comes after something was sent.     *)
(*   caught Party tag.bad changed a commitment or a reveal on its way to   *)
(*          party tag.to, which must end the operation tag.op in an error. *)
(*   effect Sessions that differ from another one in one draw of           *)
(*          randomness: m[i].a and m[i].b are what a party revealed to     *)
(*          another one in the two, m[i].x and m[i].y the shares made      *)
(*          afterwards; another contribution makes other shares.           *)
(*   challenge  m[i].a and m[i].b are what a party sent in two sessions in  *)
(*          which one operand differs by one, so that one opened value      *)
(*          differs by the coin: the coins are as wide as the ring that     *)
(*          verifies, and no two sessions have the same.                    *)
(*   depend m[i].a and m[i].b are what a party sent in two verifications    *)
(*          that differ in another party's contribution to the coins: the   *)
(*          longest message, the proof, changes with some contribution.     *)
(*   keys   What the parties of several sessions revealed (e.x of m[i]):   *)
(*          no two parties or sessions have a contribution in common, and  *)
(*          no byte of them is constant.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, Hash, BigRing

VARIABLES s, verdict
vars == <<s, verdict>>
Scen == ndJsonDeserialize(IOEnv.TRACE)
Sc == Scen[s]
P == 1..3
Net(p) == Sc.net[p]
N(p) == 1..Len(Net(p))
Unit == 128 \* digits
Pieces(x) == [i \in 1..Len(x) \div Unit |-> SubSeq(x, Unit * (i - 1) + 1, Unit * i)]
Able(e) == e.l > 0 /\ e.l % 64 = 0 /\ e.l <= 256
Opens(x, c) == Len(x) = Len(c) /\ \A i \in 1..Len(Pieces(x)) : Sha(Pieces(x)[i]) = Pieces(c)[i]

\* the sends of p to q in operation o, in order, that can be commitments or reveals
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE i \in S : \A j \in S : i <= j IN <<m>> \o InOrder(S \ {m})
Out(p, q, o) == {i \in N(p) : Net(p)[i].t = "s" /\ Net(p)[i].p = q - 1 /\ Net(p)[i].o = o}
In(p, q, o) == {i \in N(p) : Net(p)[i].t = "r" /\ Net(p)[i].p = q - 1 /\ Net(p)[i].o = o}
\* pairs <<commitment, reveal>> of indices of p's sends to q, in the order of the commitments
Pairs(p, q, o) == LET C == {i \in Out(p, q, o) : Able(Net(p)[i])}
                      R == {c \in C \X C : c[1] < c[2] /\ Opens(Net(p)[c[2]].x, Net(p)[c[1]].x)}
                      cs == InOrder({c[1] : c \in R})
                  IN [n \in 1..Len(cs) |-> CHOOSE c \in R : c[1] = cs[n]]
\* the event by which p received the message that q sent as its event i
Arrival(q, i, p, o) == LET k == Cardinality({j \in Out(q, p, o) : j <= i})
                           r == InOrder(In(p, q, o))
                       IN IF k <= Len(r) THEN r[k] ELSE Len(Net(p)) + 1
Links == {c \in P \X P : c[1] # c[2]}
OrderIn(o) ==
    LET pairs == [c \in Links |-> Pairs(c[1], c[2], o)]
    IN IF \E c \in Links : pairs[c] = <<>> THEN "a contribution was not committed to"
       ELSE IF \E c, d \in Links : Len(pairs[c]) # Len(pairs[d]) THEN "contributions were not all committed to"
       \* in the setup nothing is sent but commitments and reveals
       ELSE IF o = 0 /\ \E c \in Links : Cardinality(Out(c[1], c[2], o)) # 2 * Len(pairs[c]) THEN "something was sent that was not committed to"
       ELSE IF \E c \in Links : \E n \in 1..Len(pairs[c]) : \E q \in P \ {c[1]} : Arrival(q, pairs[<<q, c[1]>>][n][1], c[1], o) > pairs[c][n][2]
            THEN "a contribution was revealed before the others' commitments had arrived"
       ELSE IF Sc.tag.proof /\ \E c \in Links : LET n == Len(pairs[c]) IN \E q \in P \ {c[1]} :
                 {i \in In(c[1], q, o) : i < pairs[c][n][2]} \ UNION {{Arrival(q, pairs[<<q, c[1]>>][m][1], c[1], o), Arrival(q, pairs[<<q, c[1]>>][m][2], c[1], o)} : m \in 1..n} = {}
            THEN "a coin was revealed before the proofs that it challenges had arrived"
       ELSE IF Sc.tag.proof /\ \E c \in Links : LET coin == UNION {{pairs[c][n][1], pairs[c][n][2]} : n \in 1..Len(pairs[c])}
                                                 first == InOrder(Out(c[1], c[2], o) \ coin)
                                             IN first # <<>> /\ \E q \in P \ {c[1]} : Arrival(q, pairs[<<q, c[1]>>][1][2], c[1], o) > first[1]
            THEN "a proof was sent before the coin that chooses what is to be proved"
       ELSE ""
RECURSIVE Orders(_)
Orders(os) == IF os = <<>> THEN "" ELSE LET w == OrderIn(os[1]) IN IF w # "" THEN w ELSE Orders(Tail(os))
Ordered == IF \E i \in P : Sc.out[i] # "done" THEN "a party did not finish" ELSE Orders(Sc.tag.ops)

Caught == IF Sc.ev[Sc.tag.op + 1].r[Sc.tag.to + 1].k = "err" THEN "" ELSE "a contribution that does not match its commitment was accepted"

Half(x) == [i \in 1..Len(x) \div 64 |-> SubSeq(x, 64 * (i - 1) + 1, 64 * i)] \* 32 bytes
Seeds(m) == {Half(m.x)[i] : i \in {j \in 1..Len(m.x) \div 64 : ~m.rand \/ j % 2 = 1}}
Keys == LET M == 1..Len(Sc.m)
        IN IF \E i, j \in M : <<Sc.m[i].s, Sc.m[i].p>> # <<Sc.m[j].s, Sc.m[j].p>> /\ Seeds(Sc.m[i]) \cap Seeds(Sc.m[j]) # {}
           THEN "two parties or sessions have the same key"
           ELSE IF Len(Sc.m) >= 16 /\ \E b \in 1..32 : Cardinality({SubSeq(x, 2 * b - 1, 2 * b) : x \in UNION {Seeds(Sc.m[i]) : i \in M}}) < 2
           THEN "a byte of the keys is constant" ELSE ""

Effect == IF \E i \in 1..Len(Sc.m) : LET e == Sc.m[i] IN Seeds([x |-> e.a, rand |-> e.rand]) # Seeds([x |-> e.b, rand |-> e.rand]) /\ e.x = e.y
          THEN "a contribution has no effect on the key" ELSE ""

---------------------------------------------------------------------------
\* rush
Pv(p) == IF p = 1 THEN 3 ELSE p - 1
Count(S) == Cardinality(S)
\* all links' receives and sends, in order, of the whole session
Rs == [c \in Links |-> InOrder({i \in N(c[2]) : Net(c[2])[i].t = "r" /\ Net(c[2])[i].p = c[1] - 1})]
Ss == [c \in Links |-> InOrder({i \in N(c[1]) : Net(c[1])[i].t = "s" /\ Net(c[1])[i].p = c[2] - 1})]
Sharing(e) == e.l \in {0, 32}
\* how many messages of the link were received among the receiver's events 1..i-1
Got(rs) == [c \in Links |-> [i \in 1..Len(Net(c[2])) + 1 |-> Count({n \in 1..Len(rs[c]) : rs[c][n] < i})]]
\* v[p]: how many events of p are known to lie in the past; one step further
Max(a, b) == IF a > b THEN a ELSE b
Sent(v, ss, got, c) == LET g == got[c][v[c[2]] + 1] IN IF g = 0 THEN 0 ELSE ss[c][g]
Older(v, ss, got) == [p \in P |-> Max(v[p], Max(Sent(v, ss, got, <<p, (p % 3) + 1>>), Sent(v, ss, got, <<p, Pv(p)>>)))]
RECURSIVE Past(_, _, _)
Past(v, ss, got) == LET w == TLCEval(Older(v, ss, got)) IN IF w = v THEN v ELSE Past(w, ss, got)
\* the receives of shares of a coin: <<party, event, from, the sender's event>>
Shares(ss, rs) ==
    IF Sc.tag.coin = "share"
    THEN UNION {{<<p, rs[<<Pv(p), p>>][n], Pv(p), ss[<<Pv(p), p>>][n]>> : n \in {m \in 1..Len(rs[<<Pv(p), p>>]) : LET e == Net(p)[rs[<<Pv(p), p>>][m]] IN e.l = 32 /\ e.o # 0}} : p \in P}
    ELSE UNION {LET o == Sc.tag.ops[k] IN UNION {{<<c[2], Arrival(c[1], Pairs(c[1], c[2], o)[n][2], c[2], o), c[1], Pairs(c[1], c[2], o)[n][2]>> : n \in 1..Len(Pairs(c[1], c[2], o))} : c \in Links} : k \in 1..Len(Sc.tag.ops)}
\* what p sent to q before its event r and is not part of the drawing of a coin: how many of its sends to q must have arrived
Must(p, q, r, ss) == LET sends == ss[<<p, q>>]
                         mine == {n \in 1..Len(sends) : sends[n] < r /\ (IF Sc.tag.coin = "share" THEN ~Sharing(Net(p)[sends[n]]) ELSE ~Able(Net(p)[sends[n]]))}
                     IN IF mine = {} THEN 0 ELSE CHOOSE n \in mine : \A m \in mine : m <= n
Rush == LET ss == TLCEval(Ss)  rs == TLCEval(Rs)  got == TLCEval(Got(rs))  sh == TLCEval(Shares(ss, rs))
        IN IF \E i \in P : Sc.out[i] # "done" THEN "a party did not finish"
           ELSE IF \E x \in sh : LET v == Past([p \in P |-> IF p = x[3] THEN x[4] ELSE 0], ss, got)
                                IN \E q \in P \ {x[1]} : got[<<x[1], q>>][v[q] + 1] < Must(x[1], q, x[2], ss)
           THEN "a party can learn a coin before it has to send what the coin is there to check"
           ELSE IF Sc.tag.coin = "share" /\ \E k \in 1..Len(Sc.tag.single) : \E x \in sh :
                     /\ Net(x[1])[x[2]].o = Sc.tag.single[k]
                     /\ {i \in N(x[1]) : i < x[2] /\ Net(x[1])[i].t = "s" /\ Net(x[1])[i].o = Sc.tag.single[k] /\ ~Sharing(Net(x[1])[i])} = {}
           THEN "a coin was drawn before what it is there to check"
           ELSE ""

---------------------------------------------------------------------------
\* challenge, depend
Same(i) == Len(Sc.m[i].a) = Len(Sc.m[i].b) /\ \A j \in 1..Len(Sc.m[i].a) : Len(Sc.m[i].a[j]) = Len(Sc.m[i].b[j])
\* the first message of eight bytes, an opened value, that differs in the two sessions: by how much (up to the sign)
Opened(i) == {j \in 1..Len(Sc.m[i].a) : Len(Sc.m[i].a[j]) = 16 /\ Sc.m[i].a[j] # Sc.m[i].b[j]}
Coins == [i \in {k \in 1..Len(Sc.m) : Same(k) /\ Opened(k) # {}} |->
             LET j == CHOOSE n \in Opened(i) : \A m \in Opened(i) : n <= m IN VSub(64, Sc.m[i].b[j], Sc.m[i].a[j])]
Challenge == LET c == TLCEval(Coins)  D == DOMAIN c
             IN IF \E i, j \in D : i # j /\ c[i] = c[j] THEN "two sessions have the same coin"
                ELSE IF Cardinality(D) >= 12 /\ \E b \in 1..8 : Cardinality({SubSeq(c[i], 2 * b - 1, 2 * b) : i \in D}) < 3
                THEN "a coin is not drawn from all of the ring that verifies" ELSE ""
Longest(x) == CHOOSE i \in 1..Len(x) : \A j \in 1..Len(x) : Len(x[j]) <= Len(x[i]) /\ (Len(x[j]) = Len(x[i]) => i <= j)
Depend == LET M == 1..Len(Sc.m)
          IN IF \E i \in M : ~Same(i) THEN "a contribution changes the lengths of messages"
             ELSE IF \E p, q \in {0, 1, 2} : /\ p # q /\ \E i \in M : Sc.m[i].p = p /\ Sc.m[i].q = q
                                           /\ \A i \in M : Sc.m[i].p = p /\ Sc.m[i].q = q => Sc.m[i].a[Longest(Sc.m[i].a)] = Sc.m[i].b[Longest(Sc.m[i].a)]
             THEN "what is proved does not depend on what another party contributes"
             ELSE ""

Complaint == CASE Sc.tag.kind = "rush" -> Rush [] Sc.tag.kind = "challenge" -> Challenge [] Sc.tag.kind = "depend" -> Depend [] Sc.tag.kind = "effect" -> Effect [] Sc.tag.kind = "order" -> Ordered [] Sc.tag.kind = "caught" -> Caught [] Sc.tag.kind = "keys" -> Keys
Judge == /\ verdict = "" /\ LET w == Complaint IN verdict' = IF w = "" THEN "ok" ELSE w
         /\ PrintT(<<"VERDICT", Sc.id, verdict'>>) /\ UNCHANGED s
Init == s \in 1..Len(Scen) /\ verdict = ""
Next == Judge \/ (verdict # "" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
