-------------------------------- MODULE Mask --------------------------------
(***************************************************************************)
(* What masks are for (C16).  Parties S and T hold parts of a secret that  *)
(* R does not; S sends R a message for each of two uses of it, Use(1) and  *)
(* Use(2) (two operations on the same operand, or an operation repeated).  *)
(* S shares randomness with R and with T: each pair draws a value of      *)
(* 0..M-1 for each use.           The message is the secret part plus      *)
(* a mask made of what S shares with T and with R.  What R sees, for any   *)
(* secret, must be the same distribution: for every possible view, the     *)
(* number of ways in which the randomness gives it does not depend on the  *)
(* secret.                                                                 *)
(*                                                                         *)
(* Variant: "good"; "known" masks with what R shares with S only; "twice"  *)
(* uses the first draw for both uses; "small" draws even numbers only;     *)
(* "none" has no mask.                                                     *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

CONSTANTS M, Variant
V == 0..M - 1
Uses == 1..2
VARIABLES secret, view, ways
vars == <<secret, view, ways>>

\* the secret is the other parties' part of a value for each use: any two values, equal ones included
Secrets == [Uses -> V]
MaskOf(d, u) == CASE Variant = "good" -> d.st[u] + M - d.sr[u]
                  [] Variant = "known" -> 2 * M - d.sr[u]
                  [] Variant = "twice" -> d.st[1] + M - d.sr[1]
                  [] Variant = "small" -> 2 * d.st[u] + M - d.sr[u]
                  [] Variant = "none" -> 0
Msg(x, d, u) == (x[u] + MaskOf(d, u)) % M
\* R knows what it shares with S, and gets the messages
View(x, d) == [sr |-> d.sr, m |-> [u \in Uses |-> Msg(x, d, u)]]
Ways(x, v) == Cardinality({st \in [Uses -> V] : View(x, [st |-> st, sr |-> v.sr]) = v})

Init == secret \in Secrets /\ view \in [sr : [Uses -> V], m : [Uses -> V]] /\ ways = Ways(secret, view)
\* the same view with another secret
Next == /\ secret' \in Secrets /\ view' = view /\ ways' = Ways(secret', view)
Spec == Init /\ [][Next]_vars
\* the number of ways does not depend on the secret
Private == [][ways' = ways]_vars
=============================================================================
