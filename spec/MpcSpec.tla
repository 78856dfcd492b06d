------------------------------ MODULE MpcSpec ------------------------------
(***************************************************************************)
(* What a session of the system does, seen from outside: three parties     *)
(* hold registers of secret-shared values and call operations on them.     *)
(* This is the ideal functionality: the registers are kept in the clear,   *)
(* one action per public operation.                                        *)
(*                                                                         *)
(* Registers hold vectors (a scalar is a vector of length one), see        *)
(* BigRing for their representation.  The value Unknown stands for the     *)
(* input of a cheating party, which nobody but that party knows.           *)
(***************************************************************************)
EXTENDS BigRing, Integers, Sequences, FiniteSets, TLC

VARIABLES
    cfg,    \* the session: cfg.k is the width of the plaintext ring
    A,      \* arithmetic registers (name -> vector)
    B,      \* bit registers (name -> string of "0" and "1")
    C,      \* registers holding iris codes (name -> bit string in hexadecimal)
    key,    \* the MAC key of an authenticated session, "" if unknown
    out     \* what the last operation made public, "" if nothing
mvars == <<cfg, A, B, C, key, out>>

Unknown == "?"
K == cfg.k
Empty == [r \in {} |-> ""]
MInit(c) == cfg = c /\ A = Empty /\ B = Empty /\ C = Empty /\ key = "" /\ out = ""

\* R with register d set to v
Put(R, d, v) == [r \in DOMAIN R \cup {d} |-> IF r = d THEN v ELSE R[r]]

SetA(d, v) == A' = Put(A, d, v) /\ out' = "" /\ UNCHANGED <<cfg, B, C, key>>
SetB(d, v) == B' = Put(B, d, v) /\ out' = "" /\ UNCHANGED <<cfg, A, C, key>>
Nop == out' = "" /\ UNCHANGED <<cfg, A, B, C, key>>
Publish(v) == out' = v /\ UNCHANGED <<cfg, A, B, C, key>>

\* f of the arguments, or Unknown when one of them is
Strict1(x, v) == IF x = Unknown THEN Unknown ELSE v
Strict2(x, y, v) == IF x = Unknown \/ y = Unknown THEN Unknown ELSE v

RECURSIVE Flat(_, _)
Flat(f, n) == IF n = 0 THEN "" ELSE Flat(f, n - 1) \o f[n]
Concat(f) == IF \E i \in DOMAIN f : f[i] = Unknown THEN Unknown ELSE Flat(f, Len(f))

BOr(x, y) == BXor(BXor(x, y), BAnd(x, y))

-----------------------------------------------------------------------------
(* session set-up *)
Preprocess == Nop
Precompute == Nop
NewKey(v) == key' = v /\ out' = "" /\ UNCHANGED <<cfg, A, B, C>>

(* getting values in *)
Input(d, v) == SetA(d, v)
DealBits(d, x) == C' = Put(C, d, x) /\ out' = "" /\ UNCHANGED <<cfg, A, B, key>>

(* arithmetic *)
Add(d, x, y) == SetA(d, Strict2(A[x], A[y], VAdd(K, A[x], A[y])))
Sub(d, x, y) == SetA(d, Strict2(A[x], A[y], VSub(K, A[x], A[y])))
Mul(d, x, y) == SetA(d, Strict2(A[x], A[y], VMul(K, A[x], A[y])))
AddConst(d, x, v) == SetA(d, Strict1(A[x], VAdd(K, A[x], v)))
SubConst(d, x, v) == SetA(d, Strict1(A[x], VSub(K, A[x], v)))
MulConst(d, x, v) == SetA(d, Strict1(A[x], VMul(K, A[x], v)))
Dot(d, x, y) == SetA(d, Strict2(A[x], A[y], VDot(K, A[x], A[y])))
DotMany(d, xs, ys) ==
    SetA(d, Concat([i \in 1..Len(xs) |-> Strict2(A[xs[i]], A[ys[i]], VDot(K, A[xs[i]], A[ys[i]]))]))
\* the ones that both codes have where the mask has one
MaskedDot(d, x, ys, ms) ==
    SetA(d, Concat([i \in 1..Len(ys) |-> OfNat(K, Ones(BAnd(BAnd(C[x], C[ys[i]]), ms[i])))]))

(* moving registers about: no operation of the system, a party does it by itself *)
Cat(d, xs) == SetA(d, Concat([i \in 1..Len(xs) |-> A[xs[i]]]))
Slice(d, x, from, n) ==
    SetA(d, Strict1(A[x], SubSeq(A[x], from * W(K) + 1, (from + n) * W(K))))
BCat(d, xs) == SetB(d, Concat([i \in 1..Len(xs) |-> B[xs[i]]]))
BSlice(d, x, from, n) == SetB(d, Strict1(B[x], SubSeq(B[x], from + 1, from + n)))

(* comparison and Boolean operations *)
Msb(d, x) == SetB(d, Strict1(A[x], VMsb(K, A[x])))
Or(d, x, y) == SetB(d, Strict2(B[x], B[y], BOr(B[x], B[y])))
Xor(d, x, y) == SetB(d, Strict2(B[x], B[y], BXor(B[x], B[y])))
ReduceOr(d, x) == SetB(d, Strict1(B[x], AnyOne(B[x])))

(* getting values out *)
Open(x) == Publish(A[x])
OpenBit(x) == Publish(B[x])
Verify == Nop

-----------------------------------------------------------------------------
(* iris matching: 12800-bit codes, two of them comparable if their masks   *)
(* have at least 70 % of the bits in common, equal if their distance is    *)
(* below 34 % of the common bits                                           *)
CodeBits == 12800
MaskMin == (CodeBits * 7) \div 10
Threshold(n) == (n * 34) \div 100
Common(m1, m2) == BAnd(m1, m2)
Usable(m1, m2) == Ones(Common(m1, m2)) >= MaskMin
Distance(c1, c2, m1, m2) == Ones(BAnd(BXor(c1, c2), Common(m1, m2)))
Matches(c1, c2, m1, m2) == Distance(c1, c2, m1, m2) < Threshold(Ones(Common(m1, m2)))
\* the answer to a query, or "refused"
Answer(x, m, ys, ms) ==
    IF \E i \in 1..Len(ys) : ~Usable(m, ms[i]) THEN "refused"
    ELSE IF \E i \in 1..Len(ys) : Matches(C[x], C[ys[i]], m, ms[i]) THEN "1" ELSE "0"
Query(x, m, ys, ms) == Publish(Answer(x, m, ys, ms))
=============================================================================
