------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* What encodings and conversions of ring elements and typed messages have *)
(* to give (C20), and the check of recorded results against it.            *)
(*                                                                         *)
(* A session is a list of results: operation ev.op was applied by the real *)
(* code to ev.x, ev.y and ev.n and gave ev.r.  Elements are strings of     *)
(* hexadecimal digits as in BigRing; "err" is an error returned.           *)
(***************************************************************************)
EXTENDS BigRing, TLC, Json, IOUtils

VARIABLES s, l, verdict
vars == <<s, l, verdict>>
Scen == ndJsonDeserialize(IOEnv.TRACE)
Sc == Scen[s]
Ev == Sc.ev[l]

\* the bits of an element, most significant first
Nib == ("0" :> "0000") @@ ("1" :> "0001") @@ ("2" :> "0010") @@ ("3" :> "0011") @@ ("4" :> "0100") @@ ("5" :> "0101") @@ ("6" :> "0110")
       @@ ("7" :> "0111") @@ ("8" :> "1000") @@ ("9" :> "1001") @@ ("a" :> "1010") @@ ("b" :> "1011") @@ ("c" :> "1100") @@ ("d" :> "1101")
       @@ ("e" :> "1110") @@ ("f" :> "1111")
RECURSIVE Nibs(_)
Nibs(x) == IF x = "" THEN "" ELSE Nib[SubSeq(x, 1, 1)] \o Nibs(SubSeq(x, 2, Len(x)))
Bin(k, x) == LET b == Nibs(x) IN SubSeq(b, Len(b) - k + 1, Len(b))
RECURSIVE Rep(_, _)
Rep(c, n) == IF n = 0 THEN "" ELSE c \o Rep(c, n - 1)
RECURSIVE Rev(_)
Rev(b) == IF b = "" THEN "" ELSE Rev(SubSeq(b, 2, Len(b))) \o SubSeq(b, 1, 1)
BitAt(k, x, n) == SubSeq(Bin(k, x), k - n, k - n)
Zero(k) == Rep("0", W(k))
One(k) == Rep("0", W(k) - 1) \o "1"
AllOnes(k) == IF k = 1 THEN "1" ELSE Rep("f", W(k))
Less(k, a, b) == VMsb(4 * W(k) + 4, VSub(4 * W(k) + 4, "0" \o a, "0" \o b)) = "1"

IsElement(k, r) == r \notin {"err", "panic"} /\ Len(r) = W(k)
\* r is the integer quotient of x by y (y not zero): in a ring of twice the width
Quotient(k, x, y, r) == LET w == 8 * W(k)
                            wide(v) == Zero(4 * W(k)) \o v
                            rest == VSub(w, wide(x), VMul(w, wide(r), wide(y)))
                        IN SubSeq(rest, 1, W(k)) = Zero(4 * W(k)) /\ Less(k, SubSeq(rest, W(k) + 1, 2 * W(k)), y)

Right(k, e) ==
    CASE e.op \in {"share", "unshare", "bytes", "serde", "frombits", "same", "vec", "one"} -> e.r = e.x
      [] e.op = "bytes2" -> e.r = e.x \o e.y \o "err"
      [] e.op = "serde2" -> e.r = e.x \o e.y
      [] e.op \in {"badlen", "refuse"} -> e.r = "err"
      [] e.op = "tobits" -> e.r = Rev(Bin(k, e.x))
      [] e.op = "msb" -> e.r = VMsb(k, e.x)
      [] e.op = "bit" -> IsElement(k, e.r) /\ Bin(k, e.r) = Rep("0", k - 1) \o BitAt(k, e.x, e.n)
      [] e.op = "shl" -> IsElement(k, e.r) /\ Bin(k, e.r) = SubSeq(Bin(k, e.x), e.n + 1, k) \o Rep("0", e.n)
      [] e.op = "shr" -> IsElement(k, e.r) /\ Bin(k, e.r) = Rep("0", e.n) \o SubSeq(Bin(k, e.x), 1, k - e.n)
      [] e.op = "ashr" -> IsElement(k, e.r) /\ Bin(k, e.r) = Rep(VMsb(k, e.x), e.n) \o SubSeq(Bin(k, e.x), 1, k - e.n)
      [] e.op = "up" -> IsElement(128, e.r) /\ Bin(128, e.r) = Rep("0", 128 - k) \o Bin(k, e.x)
      [] e.op = "vup" -> IsElement(e.n, e.r) /\ Bin(e.n, e.r) = Rep("0", e.n - k) \o Bin(k, e.x)
      [] e.op = "inv" -> IF BitAt(k, e.x, 0) = "0" THEN e.r = "err" ELSE IsElement(k, e.r) /\ VMul(k, e.x, e.r) = One(k)
      [] e.op = "div" -> IsElement(k, e.r) /\ Quotient(k, e.x, e.y, e.r)
      [] e.op = "add" -> e.r = VAdd(k, e.x, e.y)
      [] e.op = "sub" -> e.r = VSub(k, e.x, e.y)
      [] e.op = "mul" -> e.r = VMul(k, e.x, e.y)
      [] e.op = "neg" -> e.r = VSub(k, Zero(k), e.x)
      [] e.op = "xor" -> e.r = BXor(e.x, e.y)
      [] e.op = "and" -> e.r = BAnd(e.x, e.y)
      [] e.op = "or" -> e.r = BXor(BXor(e.x, e.y), BAnd(e.x, e.y))
      [] e.op = "not" -> e.r = BXor(e.x, AllOnes(k))
      [] e.op = "stream" -> e.r = "same"

Short(x) == SubSeq(x, 1, IF Len(x) > 80 THEN 80 ELSE Len(x))
Say(v) == PrintT(<<"VERDICT", Sc.id, v>>)
Step == /\ verdict = "" /\ l <= Len(Sc.ev)
        /\ LET w == IF Right(Sc.k, Ev) THEN "" ELSE Ev.op \o " of " \o Short(Ev.x) \o " " \o Short(Ev.y) \o " gave " \o Short(Ev.r)
           IN verdict' = w /\ IF w = "" THEN TRUE ELSE Say(w)
        /\ l' = l + 1 /\ UNCHANGED s
End == /\ verdict = "" /\ l = Len(Sc.ev) + 1 /\ verdict' = "ok" /\ Say("ok") /\ l' = l + 1 /\ UNCHANGED s
Over == verdict # "" /\ UNCHANGED vars
Init == s \in 1..Len(Scen) /\ l = 1 /\ verdict = ""
Next == Step \/ End \/ Over
Spec == Init /\ [][Next]_vars
=============================================================================
