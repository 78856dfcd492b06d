------------------------------- MODULE Fresh -------------------------------
(***************************************************************************)
(* Masks (C16; spec/Mask.tla is the abstract statement): messages and      *)
(* shares recorded from the real code are judged.                          *)
(*                                                                         *)
(* A case is what party tag.from sent to party tag.to in operation tag.op: *)
(*   reps   a sequence of repetitions of the operation on the same         *)
(*          operands in one session, each a sequence of messages;          *)
(*   base   the messages of the operation in another session, in which the *)
(*          receiver was sent base.seen during the set-up;                 *)
(*   vars   the same for sessions that differ from it in one draw of       *)
(*          randomness of another party than the receiver.                 *)
(*   other  the messages of its first (only) repetition when the session   *)
(*          has other secrets and the same randomness: messages that are   *)
(*          the same do not depend on secrets and need no mask.            *)
(* Messages consist of elements of tag.e bytes; those of tag.full fill     *)
(* them entirely.  The operation consists of tag.n calls one after the     *)
(* other, whose messages are looked at together, position by position.     *)
(***************************************************************************)
EXTENDS BigRing, Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES s, verdict
vars == <<s, verdict>>
Scen == ndJsonDeserialize(IOEnv.TRACE)
Sc == Scen[s]
E(x) == IF Sc.tag.full THEN Sc.tag.e ELSE 1
N(x) == Len(x) \div (2 * E(x))

\* x and y have nothing to do with each other: if they are long enough, every bit differs somewhere
Unrelated(x, y) ==
    \/ Len(x) < 16 \/ Len(x) # Len(y)
    \/ /\ x # y
       /\ Sc.tag.full /\ N(x) >= 48 => LET c == Cols(E(x), BXor(x, y)) IN \A i \in 1..Len(c) : c[i] > 0
\* as many ones as zeros in every bit, but for seven standard deviations
Sq(n) == n * n
Balanced(x) == Sc.tag.full /\ N(x) >= 1024 =>
    LET c == Cols(E(x), x) IN \A i \in 1..Len(c) :
        LET d == IF 2 * c[i] > N(x) THEN 2 * c[i] - N(x) ELSE N(x) - 2 * c[i] IN d < 16 \/ Sq(d - 16) <= 49 * N(x)
RECURSIVE Join(_)
Join(m) == IF m = <<>> THEN "" ELSE Head(m) \o Join(Tail(m))

Streams(m) == LET n == Sc.tag.n
                  per == Len(m) \div n
              IN IF n = 1 \/ Len(m) % n # 0 THEN m ELSE [j \in 1..per |-> Join([i \in 1..n |-> m[(i - 1) * per + j]])]

Other == Streams(Sc.other)
\* the n-th message of m, a repetition, depends on secrets
Depends(m, n) == Len(m) # Len(Other) \/ m[n] # Other[n]
Matter(m, m1) == [n \in 1..Len(m) |-> IF Len(m) = Len(m1) /\ ~Depends(m1, n) THEN "" ELSE m[n]]
Fresh == LET R0 == [i \in 1..Len(Sc.reps) |-> Streams(Sc.reps[i])]
             R == [i \in 1..Len(R0) |-> Matter(R0[i], R0[1])]
         IN IF \E i \in 1..Len(R), j \in 1..Len(R) : i < j /\
                  (~Unrelated(Join(R[i]), Join(R[j])) \/ (Len(R[i]) = Len(R[j]) /\ \E n \in 1..Len(R[i]) : ~Unrelated(R[i][n], R[j][n])))
            THEN "repeated on the same operands it gave related messages or shares"
            ELSE IF \E i \in 1..Len(R) : \E n \in 1..Len(R[i]) : ~Balanced(R[i][n])
            THEN "its messages or shares are not uniformly distributed" ELSE ""
\* sessions that the receiver could not tell from the base session when the operation began
Same == {i \in 1..Len(Sc.vars) : Sc.vars[i].seen = Sc.base.seen}
Hidden == LET m == Streams(Sc.base.m)
              V == [i \in 1..Len(Sc.vars) |-> Streams(Sc.vars[i].m)]
          IN IF Same # {} /\ \E n \in 1..Len(m) : Len(m[n]) >= 16 /\ Depends(m, n) /\ \A i \in Same :
                   Len(V[i]) = Len(m) /\ ~Unrelated(V[i][n], m[n])
             THEN "a message does not depend on any randomness that its receiver does not have" ELSE ""
\* what another draw of randomness changes in the elements of what is sent: if it changes two in the same way, whatever it
\* is, they have the same mask (bit by bit, or as numbers)
Own == LET m == Streams(Sc.base.m)
           dep == SelectSeq([n \in 1..Len(m) |-> n], LAMBDA n : Depends(m, n) /\ Len(m[n]) % (2 * E(m[n])) = 0)
           All(x) == Join([i \in 1..Len(dep) |-> x[dep[i]]])
           Alike(v) == Len(v) = Len(m) /\ \A n \in 1..Len(m) : Len(v[n]) = Len(m[n])
           Effective(v) == \A j \in 1..Len(dep) : Len(m[dep[j]]) < 16 \/ Unrelated(v[dep[j]], m[dep[j]])
           V == {i \in Same : Alike(Streams(Sc.vars[i].m)) /\ Effective(Streams(Sc.vars[i].m))}
           b == All(m)
           \* narrow elements are taken sixteen bytes at a time: two that agree by chance have to be out of the question
           e == IF Cardinality(V) * 8 * E(b) >= 32 THEN E(b) ELSE 16
           l == Len(b) \div (2 * e)
           X == [i \in V |-> BXor(All(Streams(Sc.vars[i].m)), b)]
           D == [i \in V |-> VSub(8 * e, All(Streams(Sc.vars[i].m)), b)]
           Lanes(Z) == {[i \in V |-> SubSeq(Z[i], 2 * e * (j - 1) + 1, 2 * e * j)] : j \in 1..l}
       IN IF ~Sc.tag.full \/ V = {} \/ l < 2 \/ Len(b) % (2 * e) # 0 \/ (e < 4 /\ Cardinality(V) * e < 8 /\ l > 128) THEN ""
          ELSE IF Cardinality(Lanes(X)) < l \/ Cardinality(Lanes(D)) < l
          THEN "two elements are sent under the same mask" ELSE ""
Complaint == LET f == Fresh
                 h == IF f # "" THEN f ELSE Hidden
             IN IF h # "" THEN h ELSE Own
Judge == /\ verdict = "" /\ LET w == Complaint IN verdict' = IF w = "" THEN "ok" ELSE w
         /\ PrintT(<<"VERDICT", Sc.id, verdict'>>) /\ UNCHANGED s
Init == s \in 1..Len(Scen) /\ verdict = ""
Next == Judge \/ (verdict # "" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
