------------------------------- MODULE Batch -------------------------------
(***************************************************************************)
(* How a batch of N products made by parties of which one may cheat is     *)
(* checked.  The cheating party chooses the errors e of the products and   *)
(* the errors f of what they are checked against (sacrificed products,     *)
(* MACs) before the challenge is drawn.  Arithmetic is modulo 2^L, of      *)
(* which results keep the low K bits.  Check names the way the parties     *)
(* check:                                                                  *)
(*   each    r e[i] = f[i] for every i           (MalAby3, triples)        *)
(*   mac     sum of rho[i] (a e[i] - f[i]) = 0   (SPDZ-wise)               *)
(*   proof   sum of beta[c] theta[j] e[j,c] = 0  (Swift3, rows j columns c)*)
(* and broken ways of doing the same.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, L, K, Check, Num, Den, Errors, Emit
VARIABLES phase, e, f, ch, ok
vars == <<phase, e, f, ch, ok>>

M == 2^L
R == 0..(M - 1)
V == [1..N -> Errors]
Mod(x) == ((x % M) + M) % M
Zero == [i \in 1..N |-> 0]

RECURSIVE SumUp(_, _)
SumUp(g, n) == IF n = 0 THEN 0 ELSE g[n] + SumUp(g, n - 1)
Sum(g) == SumUp(g, N)

\* rows and columns of the proof: N gates in rows of two
Row(i) == (i + 1) \div 2
Col(i) == 1 + ((i + 1) % 2)

Challenges(c) ==
    CASE c \in {"each", "sum", "first", "last", "fixed"} -> R
      [] c \in {"mac", "macpart"} -> [a : R, rho : [1..N -> R]]
      [] c = "macsame" -> {[a |-> a, rho |-> [i \in 1..N |-> x]] : a \in R, x \in R}
      [] c = "proof" -> [theta : [1..2 -> R], beta : [1..2 -> R]]
      [] c = "thetasame" -> {[theta |-> <<x, x>>, beta |-> b] : x \in R, b \in [1..2 -> R]}
      [] c = "betasame" -> {[theta |-> t, beta |-> <<x, x>>] : x \in R, t \in [1..2 -> R]}

Accept(c, ee, ff, x) ==
    CASE c = "each"  -> \A i \in 1..N : Mod(x * ee[i] - ff[i]) = 0
      [] c = "sum"   -> Mod(Sum([i \in 1..N |-> x * ee[i] - ff[i]])) = 0
      [] c = "first" -> \A i \in 1..(N - 1) : Mod(x * ee[i] - ff[i]) = 0
      [] c = "last"  -> Mod(x * ee[N] - ff[N]) = 0
      [] c = "fixed" -> \A i \in 1..N : Mod(ee[i] - ff[i]) = 0
      [] c \in {"mac", "macsame"} -> Mod(Sum([i \in 1..N |-> x.rho[i] * (x.a * ee[i] - ff[i])])) = 0
      [] c = "macpart" -> Mod(SumUp([i \in 1..N |-> x.rho[i] * (x.a * ee[i] - ff[i])], N - 1)) = 0
      [] c \in {"proof", "thetasame", "betasame"} ->
            Mod(Sum([i \in 1..N |-> x.theta[Row(i)] * x.beta[Col(i)] * ee[i]])) = 0

Wrong(ee) == \E i \in 1..N : ee[i] % (2^K) # 0
Accepted(c, ee, ff) == {x \in Challenges(c) : Accept(c, ee, ff, x)}

Init == phase = "choose" /\ e = Zero /\ f = Zero /\ ch = 0 /\ ok = FALSE
\* the cheating party has to choose first
Choose == /\ phase = "choose"
          /\ e' \in V /\ f' \in V
          /\ phase' = "draw" /\ UNCHANGED <<ch, ok>>
Draw == /\ phase = "draw"
        /\ \E x \in Challenges(Check) : ch' = x /\ ok' = Accept(Check, e, f, x)
        /\ phase' = "done" /\ UNCHANGED <<e, f>>
Next == Choose \/ Draw
Spec == Init /\ [][Next]_vars

\* whoever does not cheat is not accused
Complete == (phase = "done" /\ e = Zero /\ f = Zero) => ok
\* whatever the cheating party chooses, few challenges let it through
Sound == (phase = "draw" /\ Wrong(e)) =>
            Cardinality(Accepted(Check, e, f)) * Den <= Num * Cardinality(Challenges(Check))

(***************************************************************************)
(* Errors that a broken check lets through for every challenge: what a     *)
(* cheating party of the real code tries.                                  *)
(***************************************************************************)
Bad == {"sum", "first", "last", "fixed", "macsame", "macpart", "thetasame", "betasame"}
Small == [1..N -> {-1, 0, 1}]
Passes(c, ee, ff) == \A x \in Challenges(c) : Accept(c, ee, ff, x)
Attacks == {p \in Small \X {0, 1} :
              /\ Wrong(p[1])
              /\ \E c \in Bad : (p[2] = 1 => c = "fixed") /\ Passes(c, p[1], [i \in 1..N |-> p[2] * p[1][i]])}
ASSUME Emit => \A p \in Attacks : PrintT(<<"ATTACK", "e", ToJson([e |-> p[1], f |-> p[2]])>>)
=============================================================================
