----------------------------- MODULE BigRingRef -----------------------------
(***************************************************************************)
(* Arithmetic in the ring of integers modulo 2^k, and on vectors of ring   *)
(* elements, defined from scratch.                                         *)
(*                                                                         *)
(* TLC's integers have 32 bits, the rings of this system have up to 128.   *)
(* A ring element is therefore a string of W(k) hexadecimal digits, most   *)
(* significant first; a vector is the concatenation of its elements.  An   *)
(* element of a ring with k < 4 is one digit below 2^k; a bit is "0" or    *)
(* "1".                                                                    *)
(*                                                                         *)
(* These definitions are the meaning.  Module BigRing gives them the names *)
(* that the specification uses, and a Java override (java/BigRing.java)    *)
(* makes TLC evaluate those names quickly; RingSelfTest checks that the    *)
(* override and the definitions here agree.                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

HexDigits == "0123456789abcdef"
Chr(d) == SubSeq(HexDigits, d + 1, d + 1)
Dig(c) == CHOOSE d \in 0..15 : Chr(d) = c

W(k) == (k + 3) \div 4
\* 2 to the power n, for small n
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
\* what the topmost digit of an element is reduced by
TopMod(k) == Pow2(k - 4 * (W(k) - 1))

\* a string as the sequence of its digits, least significant first, and back
Digits(x) == [i \in 1..Len(x) |-> Dig(SubSeq(x, Len(x) - i + 1, Len(x) - i + 1))]
RECURSIVE Str(_)
Str(ds) == IF ds = <<>> THEN "" ELSE Str(Tail(ds)) \o Chr(Head(ds))

\* reduces a digit sequence with carries (digits may be large) modulo 2^k
RECURSIVE Norm(_, _, _, _)
Norm(k, ds, i, carry) ==
    IF i > W(k) THEN <<>>
    ELSE LET t == (IF i <= Len(ds) THEN ds[i] ELSE 0) + carry
             m == IF i = W(k) THEN TopMod(k) ELSE 16
         IN <<t % m>> \o Norm(k, ds, i + 1, t \div 16)
Reduce(k, ds) == Norm(k, ds, 1, 0)

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)

RefAdd(k, x, y) == LET a == Digits(x) b == Digits(y)
                   IN Str(Reduce(k, [i \in 1..W(k) |-> a[i] + b[i]]))
\* two's complement: flip every digit and add one
RefNeg(k, x) == LET a == Digits(x)
                    f == [i \in 1..W(k) |->
                            (IF i = W(k) THEN TopMod(k) ELSE 16) - 1 - a[i] + (IF i = 1 THEN 1 ELSE 0)]
                IN Str(Reduce(k, f))
RefSub(k, x, y) == RefAdd(k, x, RefNeg(k, y))
RefMul(k, x, y) == LET a == Digits(x) b == Digits(y)
                       col(n) == SumTo([j \in 1..n |-> a[j] * b[n - j + 1]], n)
                   IN Str(Reduce(k, [n \in 1..W(k) |-> col(n)]))
RefMsb(k, x) == LET a == Digits(x) IN IF 2 * a[W(k)] >= TopMod(k) THEN "1" ELSE "0"
RefZero(k) == Str([i \in 1..W(k) |-> 0])

DigXor(a, b) == LET bit(z, n) == (z \div Pow2(n)) % 2
                IN SumTo([n \in 1..4 |-> IF bit(a, n - 1) # bit(b, n - 1) THEN Pow2(n - 1) ELSE 0], 4)
DigAnd(a, b) == LET bit(z, n) == (z \div Pow2(n)) % 2
                IN SumTo([n \in 1..4 |-> IF bit(a, n - 1) = 1 /\ bit(b, n - 1) = 1 THEN Pow2(n - 1) ELSE 0], 4)
DigOnes(a) == SumTo([n \in 1..4 |-> (a \div Pow2(n - 1)) % 2], 4)

-----------------------------------------------------------------------------
(* vectors *)
RefLen(k, v) == Len(v) \div W(k)
RefAt(k, v, i) == SubSeq(v, (i - 1) * W(k) + 1, i * W(k))

RECURSIVE JoinTo(_, _)
JoinTo(f, n) == IF n = 0 THEN "" ELSE JoinTo(f, n - 1) \o f[n]

RefVAdd(k, x, y) == LET n == RefLen(k, x) IN JoinTo([i \in 1..n |-> RefAdd(k, RefAt(k, x, i), RefAt(k, y, i))], n)
RefVSub(k, x, y) == LET n == RefLen(k, x) IN JoinTo([i \in 1..n |-> RefSub(k, RefAt(k, x, i), RefAt(k, y, i))], n)
RefVMul(k, x, y) == LET n == RefLen(k, x) IN JoinTo([i \in 1..n |-> RefMul(k, RefAt(k, x, i), RefAt(k, y, i))], n)
\* every element times the one element c
RefVScale(k, x, c) == LET n == RefLen(k, x) IN JoinTo([i \in 1..n |-> RefMul(k, RefAt(k, x, i), c)], n)
RECURSIVE DotTo(_, _, _, _)
DotTo(k, x, y, n) == IF n = 0 THEN RefZero(k)
                     ELSE RefAdd(k, DotTo(k, x, y, n - 1), RefMul(k, RefAt(k, x, n), RefAt(k, y, n)))
RefVDot(k, x, y) == DotTo(k, x, y, RefLen(k, x))
RefVMsb(k, x) == LET n == RefLen(k, x) IN JoinTo([i \in 1..n |-> RefMsb(k, RefAt(k, x, i))], n)
\* reduction of every element from 2^k to 2^m, m <= k
RefVTrunc(k, m, x) == LET n == RefLen(k, x)
                      IN JoinTo([i \in 1..n |-> Str(Reduce(m, Digits(RefAt(k, x, i))))], n)
\* digit-wise, for bit vectors and bit strings of any length
RefXor(x, y) == JoinTo([i \in 1..Len(x) |-> Chr(DigXor(Dig(SubSeq(x, i, i)), Dig(SubSeq(y, i, i))))], Len(x))
RefAnd(x, y) == JoinTo([i \in 1..Len(x) |-> Chr(DigAnd(Dig(SubSeq(x, i, i)), Dig(SubSeq(y, i, i))))], Len(x))
\* number of ones in a bit string given in hexadecimal
RefOnes(x) == SumTo([i \in 1..Len(x) |-> DigOnes(Dig(SubSeq(x, i, i)))], Len(x))
\* "1" iff some digit is not zero
RefAny(x) == IF \E i \in 1..Len(x) : SubSeq(x, i, i) # "0" THEN "1" ELSE "0"
\* a small natural number as an element
RECURSIVE NatDigits(_, _)
NatDigits(n, w) == IF w = 0 THEN <<>> ELSE <<n % 16>> \o NatDigits(n \div 16, w - 1)
RefOfNat(k, n) == Str(Reduce(k, NatDigits(n, W(k))))
\* the elements of a bit string in hexadecimal, as ring elements 0 and 1: bit i of the string is bit
\* i % 8 of byte i \div 8
RefBitAt(x, i) == LET c == 2 * (i \div 8) + (IF i % 8 < 4 THEN 2 ELSE 1)
                  IN (Dig(SubSeq(x, c, c)) \div Pow2(i % 4)) % 2
RefExpand(k, x) == LET n == 4 * Len(x) IN JoinTo([i \in 1..n |-> RefOfNat(k, RefBitAt(x, i - 1))], n)
\* how many of the elements (of e bytes, as they were sent) have a 1 in each of their 8e bit positions
RefCols(e, x) == LET n == Len(x) \div (2 * e)
                 IN [c \in 1..8 * e |-> Cardinality({i \in 0..n - 1 : LET p == 2 * e * i + 1 + (c - 1) \div 4
                                                                   IN (Dig(SubSeq(x, p, p)) \div Pow2((c - 1) % 4)) % 2 = 1})]
=============================================================================
