---------------------------- MODULE RingSelfTest ----------------------------
(* The Java override of BigRing agrees with the definitions of BigRingRef:  *)
(* on all pairs of the rings of 1, 2, 3, 4 and 5 bits, and on sampled pairs *)
(* of every width the system uses.                                          *)
EXTENDS BigRing, TLC, FiniteSets
VARIABLES k, x, y
vars == <<k, x, y>>
El(m, n) == RefOfNat(m, n)
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE s \o Rep(s, n - 1)
Wide == {8, 16, 32, 64, 128}
Edge(m) == {Rep("0", W(m)), Rep("f", W(m)), Rep("0", W(m) - 1) \o "1", "8" \o Rep("0", W(m) - 1),
            "7" \o Rep("f", W(m) - 1), Rep("5a", W(m) \div 2), Rep("c3", W(m) \div 2), "0" \o Rep("9", W(m) - 1),
            Rep("e", W(m) - 1) \o "d"}
Init == /\ y = "?"
        /\ \/ k \in {1, 2, 3, 4, 5} /\ \E a \in 0..(Pow2(k) - 1) : x = El(k, a)
           \/ k \in Wide /\ x \in Edge(k)
Next == /\ y = "?"
        /\ \/ k <= 5 /\ \E b \in 0..(Pow2(k) - 1) : y' = El(k, b)
           \/ k \in Wide /\ y' \in Edge(k)
        /\ UNCHANGED <<k, x>>
Spec == Init /\ [][Next]_vars
Vec(a, b) == a \o b \o a
Agree == y # "?" =>
    /\ VAdd(k, x, y) = RefAdd(k, x, y)
    /\ VSub(k, x, y) = RefSub(k, x, y)
    /\ VMul(k, x, y) = RefMul(k, x, y)
    /\ VMsb(k, x) = RefMsb(k, x)
    /\ VAdd(k, Vec(x, y), Vec(y, x)) = RefVAdd(k, Vec(x, y), Vec(y, x))
    /\ VSub(k, Vec(x, y), Vec(y, x)) = RefVSub(k, Vec(x, y), Vec(y, x))
    /\ VMul(k, Vec(x, y), Vec(y, x)) = RefVMul(k, Vec(x, y), Vec(y, x))
    /\ VScale(k, Vec(x, y), y) = RefVScale(k, Vec(x, y), y)
    /\ VDot(k, Vec(x, y), Vec(y, y)) = RefVDot(k, Vec(x, y), Vec(y, y))
    /\ VMsb(k, Vec(x, y)) = RefVMsb(k, Vec(x, y))
    /\ VLen(k, Vec(x, y)) = 3
    /\ VAt(k, Vec(x, y), 2) = RefAt(k, Vec(x, y), 2)
    /\ BXor(x, y) = RefXor(x, y)
    /\ BAnd(x, y) = RefAnd(x, y)
    /\ Ones(x) = RefOnes(x)
    /\ AnyOne(x) = RefAny(x)
    /\ k >= 8 => Cols(k \div 8, Vec(x, y)) = RefCols(k \div 8, Vec(x, y))
    /\ k = 128 => VTrunc(128, 64, Vec(x, y)) = RefVTrunc(128, 64, Vec(x, y))
    /\ k = 64 => VTrunc(64, 16, Vec(x, y)) = RefVTrunc(64, 16, Vec(x, y)) /\ VTrunc(64, 8, x) = RefVTrunc(64, 8, x)
    /\ k = 16 => Expand(16, x) = RefExpand(16, x)
    /\ k = 8 => OfNat(8, 77 + Ones(x)) = RefOfNat(8, 77 + Ones(x)) /\ OfNat(64, 3007) = RefOfNat(64, 3007)
    \* sanity of the definitions themselves
    /\ RefAdd(k, RefSub(k, x, y), y) = x
    /\ RefAdd(k, x, RefNeg(k, x)) = RefZero(k)
    /\ RefMul(k, x, y) = RefMul(k, y, x)
=============================================================================
