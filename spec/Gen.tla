-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Generates programs of operations for the real code to run: behaviours   *)
(* of MpcSpec seen abstractly.  A register is known by its length only,    *)
(* values are known by the class they are taken from; every operation is   *)
(* enabled exactly when MpcSpec gives it a meaning (operands exist and     *)
(* their lengths fit).  A finished program is printed as JSON.             *)
(*                                                                         *)
(* Which operations, lengths and how many steps: from the environment.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Ops, Lens, Depth, Classes, MaxLen
ASSUME Ops \subseteq STRING /\ Depth \in Nat /\ MaxLen \in Nat

VARIABLES
    al,     \* lengths of the arithmetic registers
    bl,     \* lengths of the bit registers
    prog,   \* the operations so far
    over
gvars == <<al, bl, prog, over>>

On(o) == o \in Ops
NA == Len(al)
NB == Len(bl)
\* a vector of n values: all of one class, or mixed ("mix" stands for drawing each class anew)
Vals(n) == {[c |-> c, n |-> n] : c \in Classes}

Do(op) == prog' = Append(prog, op)
ToA(op, n) == al' = Append(al, n) /\ Do(op) /\ UNCHANGED bl
ToB(op, n) == bl' = Append(bl, n) /\ Do(op) /\ UNCHANGED al
Only(op) == Do(op) /\ UNCHANGED <<al, bl>>

\* getting values in
GInput == On("input") /\ \E n \in Lens, p \in 0..2 : \E v \in Vals(n) :
              ToA([op |-> "input", p |-> p, val |-> v], n)
GDeal == On("deal") /\ \E n \in Lens : \E v \in Vals(n) : ToA([op |-> "deal", val |-> v], n)
\* element by element
GBin == \E o \in {"add", "sub", "mul"} \cap Ops : \E x, y \in 1..NA :
              al[x] = al[y] /\ al[x] > 0 /\ ToA([op |-> o, x |-> x, y |-> y], al[x])
GConst == \E o \in {"add_const", "sub_const", "mul_const"} \cap Ops : \E x \in 1..NA : \E v \in Vals(al[x]) :
              al[x] > 0 /\ ToA([op |-> o, x |-> x, val |-> v], al[x])
\* vectors
GDot == On("dot") /\ \E x, y \in 1..NA : al[x] = al[y] /\ ToA([op |-> "dot", x |-> x, y |-> y], 1)
\* one batch for each size, drawn at random: there are too many to enumerate
Match(x) == {y \in 1..NA : al[y] = al[x]}
GDotMany == On("dot_many") /\ NA > 0 /\ \E m \in 1..4 :
              \E xs \in {[i \in 1..m |-> RandomElement(1..NA)]} :
              \E ys \in {[i \in 1..m |-> RandomElement(Match(xs[i]))]} :
              ToA([op |-> "dot_many", xs |-> xs, ys |-> ys], m)
GCat == On("cat") /\ \E x, y \in 1..NA : al[x] + al[y] <= MaxLen /\ ToA([op |-> "cat", xs |-> <<x, y>>], al[x] + al[y])
GSlice == On("slice") /\ \E x \in 1..NA : \E c \in 0..al[x] - 1 : \E n \in 1..al[x] - c :
              ToA([op |-> "slice", x |-> x, c |-> c, n |-> n], n)
\* bits
GMsb == \E o \in {"msb", "msb_many"} \cap Ops : \E x \in 1..NA :
              al[x] > 0 /\ ToB([op |-> o, x |-> x], al[x])
GOr == \E o \in {"or", "xor"} \cap Ops : \E x, y \in 1..NB : bl[x] = bl[y] /\ ToB([op |-> o, x |-> x, y |-> y], bl[x])
GReduce == On("reduce_or") /\ \E x \in 1..NB : \E c \in 1..(2 * bl[x] + 1) :
              bl[x] > 0 /\ ToB([op |-> "reduce_or", x |-> x, c |-> c], 1)
GBCat == On("bcat") /\ \E x, y \in 1..NB : bl[x] + bl[y] <= MaxLen /\ ToB([op |-> "bcat", xs |-> <<x, y>>], bl[x] + bl[y])
GBSlice == On("bslice") /\ \E x \in 1..NB : \E c \in 0..bl[x] - 1 : \E n \in 1..bl[x] - c :
              ToB([op |-> "bslice", x |-> x, c |-> c, n |-> n], n)
\* getting values out
GOpen == \E o \in {"open", "open_many"} \cap Ops : \E x \in 1..NA : al[x] > 0 /\ Only([op |-> o, x |-> x])
GOpenBit == \E o \in {"open_bit", "open_bit_many"} \cap Ops : \E x \in 1..NB : bl[x] > 0 /\ Only([op |-> o, x |-> x])
GVerify == On("verify") /\ Only([op |-> "verify"])
GNewKey == On("newkey") /\ al = <<>> /\ Only([op |-> "newkey"])
GPrecompute == On("precompute") /\ \E n \in {0, 1, 5, 64, 200, 1000, 2049} : Only([op |-> "precompute", n |-> n])

\* kinds of step first, so that the simulator draws each kind equally often
Kinds == <<"in", "deal", "bin", "const", "dot", "dotm", "cat", "msb", "or", "red", "bcat", "open", "openb", "ver", "key">>
Grow == \E kd \in 1..Len(Kinds) :
    CASE Kinds[kd] = "in" -> GInput
      [] Kinds[kd] = "deal" -> GDeal
      [] Kinds[kd] = "bin" -> GBin
      [] Kinds[kd] = "const" -> GConst
      [] Kinds[kd] = "dot" -> GDot
      [] Kinds[kd] = "dotm" -> GDotMany
      [] Kinds[kd] = "cat" -> GCat \/ GSlice
      [] Kinds[kd] = "msb" -> GMsb
      [] Kinds[kd] = "or" -> GOr
      [] Kinds[kd] = "red" -> GReduce
      [] Kinds[kd] = "bcat" -> GBCat \/ GBSlice
      [] Kinds[kd] = "open" -> GOpen
      [] Kinds[kd] = "openb" -> GOpenBit
      [] Kinds[kd] = "ver" -> GVerify
      [] Kinds[kd] = "key" -> GNewKey \/ GPrecompute

GInit == al = <<>> /\ bl = <<>> /\ prog = <<>> /\ over = FALSE
GNext == \/ Len(prog) < Depth /\ Grow /\ UNCHANGED over
         \/ Len(prog) = Depth /\ ~over /\ over' = TRUE /\ UNCHANGED <<al, bl, prog>>
            /\ PrintT(<<"PROGRAM", "p", ToJson(prog)>>)
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
