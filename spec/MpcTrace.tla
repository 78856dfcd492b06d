------------------------------ MODULE MpcTrace ------------------------------
(***************************************************************************)
(* Checks recorded sessions of the real code against MpcSpec.              *)
(*                                                                         *)
(* The trace file has one session per line: the operations called, and for *)
(* each what each of the three parties got.  Every operation is matched    *)
(* with the action of MpcSpec of the same name; what the parties got has   *)
(* to represent the registers the action yields:                           *)
(*   - their shares are consistent (what two parties both hold is equal),  *)
(*   - and reconstruct to the register (WF, Val),                          *)
(*   - MACs are consistent sharings of key times value (Mac),              *)
(*   - what was opened is the register, at every party.                    *)
(*                                                                         *)
(* A session is judged in one of these modes (tag.mode):                   *)
(*   honest  all of the above, all parties finish, no message is left over *)
(*   tamper  party tag.bad deviates: an honest party that opens something  *)
(*           opens the right thing (or got an error)                       *)
(*   robust  messages are damaged: no party crashes or waits for ever      *)
(*   refuse  the last operation is refused with an error by every party    *)
(* and for the aspects in tag.see only.                                    *)
(***************************************************************************)
EXTENDS MpcSpec, Json, IOUtils

VARIABLES s, l, verdict
vars == <<cfg, A, B, C, key, out, s, l, verdict>>

Scen == ndJsonDeserialize(IOEnv.TRACE)
Sc == Scen[s]
Ev == Sc.ev[l]
Mode == Sc.tag.mode
See(a) == \E i \in DOMAIN Sc.tag.see : Sc.tag.see[i] = a
Parties == 1..3
Honest == IF Mode = "tamper" THEN {i \in Parties : i # Sc.tag.bad + 1} ELSE Parties

\* "" if all is well, or the first complaint of a sequence of complaints
RECURSIVE First(_)
First(ws) == IF ws = <<>> THEN "" ELSE IF Head(ws) # "" THEN Head(ws) ELSE First(Tail(ws))
Unless(ok, w) == IF ok THEN "" ELSE w

-----------------------------------------------------------------------------
(* shares.  Each is the sequence r.s of its components, each component the *)
(* packed vector of what the party holds                                   *)
R(i) == Ev.r[i]
Got(i, kind) == R(i).k = kind
Lens(n, w, c) == \A i \in Parties : R(i).n = n /\ Len(R(i).s) = c
                                     /\ \A j \in 1..c : Len(R(i).s[j]) = n * w

Swift == Sc.proto = "swift3"
Spdz == Sc.proto = "spdzwise"
\* party 1 holds <<x1, x3>>, party 2 <<x2, x1>>, party 3 <<x3, x2>>, in components a and a+1
Repl(a) == /\ R(2).s[a + 1] = R(1).s[a]
           /\ R(3).s[a + 1] = R(2).s[a]
           /\ R(1).s[a + 1] = R(3).s[a]
Comp3 == R(1).s[3] = R(2).s[3] /\ R(2).s[3] = R(3).s[3]
WellFormed == IF Swift THEN Repl(1) /\ Comp3 ELSE Repl(1)
Sum3(w, a) == VAdd(w, VAdd(w, R(1).s[a], R(2).s[a]), R(3).s[a])
Xor3(a) == BXor(BXor(R(1).s[a], R(2).s[a]), R(3).s[a])
AValue(w) == IF Swift THEN VSub(w, R(1).s[3], Sum3(w, 1)) ELSE Sum3(w, 1)
BValue == IF Swift THEN BXor(R(1).s[3], Xor3(1)) ELSE Xor3(1)

\* arithmetic shares of the vector v
AShares(v) ==
    LET n == VLen(K, v)
        c == IF Swift THEN 3 ELSE IF Spdz THEN 4 ELSE 2
        shapes == Lens(n, W(Sc.sk), c)
    IN First(<<Unless(\A i \in Parties : Got(i, "s"), "no share"),
               IF ~\A i \in Parties : Got(i, "s") THEN "no share" ELSE Unless(shapes, "wrong number of shares"),
               IF ~(\A i \in Parties : Got(i, "s")) \/ ~shapes THEN "shape" ELSE
               First(<<IF See("wf") THEN Unless(WellFormed, "parties hold inconsistent shares") ELSE "",
                       IF See("val") THEN Unless(VTrunc(Sc.sk, K, AValue(Sc.sk)) = v, "shares of a wrong value") ELSE "",
                       IF See("mac") /\ Spdz /\ key # ""
                       THEN First(<<Unless(Repl(3), "parties hold inconsistent MAC shares"),
                                    Unless(Sum3(Sc.sk, 3) = VScale(Sc.sk, AValue(Sc.sk), key), "MAC is not key times value")>>)
                       ELSE "">>)>>)
BShares(v) ==
    LET c == IF Swift THEN 3 ELSE 2
        shapes == Lens(Len(v), 1, c)
    IN First(<<Unless(\A i \in Parties : Got(i, "s"), "no share"),
               IF ~(\A i \in Parties : Got(i, "s")) THEN "shape" ELSE
               First(<<Unless(shapes, "wrong number of shares"),
                       IF ~shapes THEN "shape" ELSE
                       First(<<IF See("wf") THEN Unless(WellFormed, "parties hold inconsistent shares") ELSE "",
                               IF See("val") THEN Unless(BValue = v, "shares of a wrong value") ELSE "">>)>>)>>)

-----------------------------------------------------------------------------
(* how operations may end *)
Ended(i) == "party " \o ToString(i - 1) \o " ended with " \o R(i).k
              \o (IF R(i).k \in {"err", "panic", "bad"} THEN " " \o R(i).e ELSE "")
RECURSIVE AllEnd(_, _)
AllEnd(kinds, i) == IF i > 3 THEN "" ELSE IF R(i).k \in kinds THEN AllEnd(kinds, i + 1) ELSE Ended(i)

\* an operation on registers, honest session; v' is the new value
OpenedRight(v) ==
    First(<<AllEnd({"o"}, 1),
            IF AllEnd({"o"}, 1) # "" THEN "" ELSE
            Unless(\A i \in Parties : R(i).v = v,
                   "opened " \o SubSeq(R(1).v, 1, IF Len(R(1).v) < 64 THEN Len(R(1).v) ELSE 64) \o " instead of "
                             \o SubSeq(v, 1, IF Len(v) < 64 THEN Len(v) ELSE 64))>>)
Judge(aOrB, v) ==
    CASE Mode = "honest" ->
            IF v = "refused" THEN AllEnd({"err"}, 1)
            ELSE IF aOrB = "open" THEN OpenedRight(v)
            ELSE IF aOrB = "none" THEN AllEnd({"ok"}, 1)
            ELSE IF aOrB = "key" THEN First(<<AllEnd({"s"}, 1), IF Spdz /\ See("mac") THEN Unless(Repl(1), "parties hold inconsistent key shares") ELSE "">>)
            ELSE First(<<AllEnd(IF Ev.q THEN {"ok"} ELSE {"s"}, 1),
                         IF Ev.q THEN "" ELSE IF AllEnd({"s"}, 1) # "" THEN "" ELSE IF aOrB = "a" THEN AShares(v) ELSE BShares(v)>>)
      [] Mode = "tamper" ->
            IF aOrB # "open" THEN ""
            ELSE LET os == {i \in Honest : Got(i, "o")}
                 IN IF os = {} THEN ""
                    ELSE First(<<Unless(v = "refused" => FALSE, "an honest party got an answer instead of a refusal"),
                                 IF v = Unknown THEN "" ELSE
                                 Unless(\A i \in os : R(i).v = v, "an honest party opened a wrong value"),
                                 Unless(\A i, j \in os : R(i).v = R(j).v, "honest parties opened different values")>>)
      [] Mode = "robust" -> AllEnd({"s", "o", "ok", "err", "none"}, 1)
      [] Mode = "refuse" ->
            IF l # Len(Sc.ev) THEN AllEnd({"s", "o", "ok"}, 1)
            \* a party that was to provide an input and has none; the others can only wait for it
            ELSE IF Sc.tag.bad > 0 THEN First(<<AllEnd({"s", "err", "none"}, 1),
                                              Unless(R(Sc.tag.bad).k = "err", "a party without an input did not refuse")>>)
            ELSE AllEnd({"err"}, 1)

EndJudge ==
    CASE Mode = "honest" ->
            LET refused == Len(Sc.ev) > 0 /\ Sc.ev[Len(Sc.ev)].op = "iris" /\ Sc.ev[Len(Sc.ev)].r[1].k = "err"
            IN First(<<Unless(refused \/ \A i \in Parties : Sc.out[i] = "done", "a party did not finish"),
                       Unless(~Sc.deadlock, "the parties wait for each other for ever"),
                       Unless(refused \/ Sc.left = <<>>, "a message was never read"),
                       \* every word of triples that a verification consumes was made (one message of
                       \* 16 bytes from each party) since the session began: none is used twice
                       IF See("stock") THEN Unless(\A i \in Parties : Sc.sent[i] >= 16 * Sc.tag.words,
                                                   "fewer triples were made than verifications consumed") ELSE "">>)
      [] Mode = "tamper" -> ""
      [] Mode \in {"robust", "refuse"} ->
            First(<<Unless(\A i \in Parties : Sc.out[i] \notin {"panic", "hang", "abort"}, "a party crashed or did not end"),
                    Unless(~Sc.deadlock, "the parties wait for each other for ever")>>)

-----------------------------------------------------------------------------
(* the session, event by event *)
Is(o) == Ev.op = o
\* what kind of result the event has, for Judge
Kind == CASE Ev.op \in {"open", "open_many", "open_bit", "open_bit_many", "iris", "plain"} -> "open"
          [] Ev.op \in {"msb", "msb_many", "or", "xor", "reduce_or", "bcat", "bslice", "bdeal"} -> "b"
          [] Ev.op \in {"preprocess", "precompute", "verify", "corrupt", "bcorrupt"} -> "none"
          [] Ev.op \in {"newkey", "dealkey"} -> "key"
          [] Ev.op = "dealbits" -> "none"
          [] OTHER -> "a"
\* an operation that did not happen anywhere, because every party had stopped before
Skipped == \A i \in Parties : Got(i, "none")
\* a cheating party's input is whatever it made it
InputValue == IF Mode = "tamper" /\ Ev.p = Sc.tag.bad THEN Unknown ELSE Ev.v
ObservedKey == IF Spdz /\ \A i \in Parties : Got(i, "s") THEN Sum3(Sc.sk, 1) ELSE ""

\* preparing an argument the specification has no meaning for
Opaque == Mode = "refuse" /\ Ev.q /\ Ev.op \in {"cat", "slice"}
Act ==
    \/ Is("preprocess") /\ Preprocess
    \/ Is("precompute") /\ Precompute
    \/ Is("newkey") /\ NewKey(ObservedKey)
    \/ Is("dealkey") /\ NewKey(IF Spdz THEN Ev.v ELSE "")
    \/ Is("input") /\ Input(Ev.d, InputValue)
    \/ Is("deal") /\ Input(Ev.d, Ev.v)
    \/ Is("bdeal") /\ SetB(Ev.d, Ev.v)
    \/ Is("dealbits") /\ DealBits(Ev.d, Ev.v)
    \/ Is("add") /\ Add(Ev.d, Ev.x, Ev.y)
    \/ Is("sub") /\ Sub(Ev.d, Ev.x, Ev.y)
    \/ Is("mul") /\ Mul(Ev.d, Ev.x, Ev.y)
    \/ Is("add_const") /\ AddConst(Ev.d, Ev.x, Ev.v)
    \/ Is("sub_const") /\ SubConst(Ev.d, Ev.x, Ev.v)
    \/ Is("mul_const") /\ MulConst(Ev.d, Ev.x, Ev.v)
    \/ Is("dot") /\ Dot(Ev.d, Ev.x, Ev.y)
    \/ Is("dot_many") /\ DotMany(Ev.d, Ev.xs, Ev.ys)
    \/ Is("mdot") /\ MaskedDot(Ev.d, Ev.x, Ev.ys, Ev.ms)
    \/ Opaque /\ Nop
    \/ Is("cat") /\ ~Opaque /\ Cat(Ev.d, Ev.xs)
    \/ Is("slice") /\ ~Opaque /\ Slice(Ev.d, Ev.x, Ev.c, Ev.n)
    \/ Is("bcat") /\ BCat(Ev.d, Ev.xs)
    \/ Is("bslice") /\ BSlice(Ev.d, Ev.x, Ev.c, Ev.n)
    \/ Is("msb") /\ Msb(Ev.d, Ev.x)
    \/ Is("msb_many") /\ Msb(Ev.d, Ev.x)
    \/ Is("or") /\ Or(Ev.d, Ev.x, Ev.y)
    \/ Is("xor") /\ Xor(Ev.d, Ev.x, Ev.y)
    \/ Is("reduce_or") /\ ReduceOr(Ev.d, Ev.x)
    \/ Is("open") /\ Open(Ev.x)
    \/ Is("open_many") /\ Open(Ev.x)
    \/ Is("open_bit") /\ OpenBit(Ev.x)
    \/ Is("open_bit_many") /\ OpenBit(Ev.x)
    \/ Is("iris") /\ Query(Ev.x, Ev.v, Ev.ys, Ev.ms)
    \/ Is("plain") /\ Query(Ev.x, Ev.v, Ev.ys, Ev.ms)
    \/ Is("verify") /\ Verify
    \/ (Is("corrupt") \/ Is("bcorrupt")) /\ Nop

NewValue == CASE Opaque -> "" [] Kind = "open" -> out' [] Kind = "a" -> A'[Ev.d] [] Kind = "b" -> B'[Ev.d] [] OTHER -> ""

Say(v) == PrintT(<<"VERDICT", Sc.id, v>>)
Where(w) == "event " \o ToString(l) \o " (" \o Ev.op \o "): " \o w

\* in a refusal the last operation has arguments the specification has no meaning for
Meaningless == Mode = "refuse" /\ l = Len(Sc.ev)
Step == /\ verdict = "" /\ l <= Len(Sc.ev)
        /\ IF Skipped \/ Meaningless THEN Nop ELSE Act
        /\ LET w == IF Meaningless THEN Judge("none", "")
                    ELSE IF Skipped THEN (IF Mode \in {"honest", "refuse"} THEN "did not happen" ELSE "")
                    ELSE Judge(Kind, NewValue)
           IN /\ verdict' = (IF w = "" THEN "" ELSE Where(w))
              /\ IF w = "" THEN TRUE ELSE Say(Where(w))
        /\ l' = l + 1
        /\ UNCHANGED s
End == /\ verdict = "" /\ l = Len(Sc.ev) + 1
       /\ verdict' = (IF EndJudge = "" THEN "ok" ELSE EndJudge)
       /\ Say(verdict')
       /\ l' = l + 1
       /\ UNCHANGED <<cfg, A, B, C, key, out, s>>
Over == verdict # "" /\ UNCHANGED vars

TInit == /\ s \in 1..Len(Scen) /\ l = 1 /\ verdict = ""
         /\ MInit([k |-> Scen[s].k, sk |-> Scen[s].sk])
TNext == Step \/ End \/ Over
TSpec == TInit /\ [][TNext]_vars
=============================================================================
