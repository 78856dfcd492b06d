------------------------------ MODULE BigRing ------------------------------
(***************************************************************************)
(* The ring operations the specification uses.  Each has its definition in *)
(* BigRingRef; TLC evaluates those listed in java/BigRing.java with        *)
(* java.math.BigInteger when that class is on its class path.              *)
(***************************************************************************)
EXTENDS BigRingRef

VLen(k, x) == RefLen(k, x)
VAt(k, x, i) == RefAt(k, x, i)
VAdd(k, x, y) == RefVAdd(k, x, y)
VSub(k, x, y) == RefVSub(k, x, y)
VMul(k, x, y) == RefVMul(k, x, y)
VScale(k, x, c) == RefVScale(k, x, c)
VDot(k, x, y) == RefVDot(k, x, y)
VMsb(k, x) == RefVMsb(k, x)
VTrunc(k, m, x) == RefVTrunc(k, m, x)
BXor(x, y) == RefXor(x, y)
BAnd(x, y) == RefAnd(x, y)
Ones(x) == RefOnes(x)
AnyOne(x) == RefAny(x)
OfNat(k, n) == RefOfNat(k, n)
Expand(k, x) == RefExpand(k, x)
Cols(e, x) == RefCols(e, x)
=============================================================================
