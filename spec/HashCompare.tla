---------------------------- MODULE HashCompare ----------------------------
(***************************************************************************)
(* Three parties check that a replicated value w = w[0] + w[1] + w[2] is   *)
(* zero: party i has w[i] and w[i-1], takes minus their sum for the third  *)
(* component and broadcasts a hash of the three; hashes are compared.      *)
(* Party Bad may send to each of the others what it likes, also what it    *)
(* has received before.  Its own component is what it told the next party. *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS M, Bad, Rule
VARIABLES phase, w, said, out
vars == <<phase, w, said, out>>
P == 0..2
Honest == P \ {Bad}
Mod(x) == ((x % M) + M) % M
Prev(i) == (i + 2) % 3
\* what party i believes the three components to be; the hash of that
View(i) == [j \in P |-> IF j \in {i, Prev(i)} THEN w[j] ELSE Mod(-(w[i] + w[Prev(i)]))]
Views == [P -> 0..(M - 1)]
Init == phase = "hash" /\ w \in Views /\ said = [i \in P |-> <<>>] /\ out = [i \in P |-> "open"]
\* the cheater's hash for each party: honest parties' or its own are as good as any other
Say == /\ phase = "hash" /\ phase' = "compare"
       /\ \E f \in [P -> {View(j) : j \in P}] : said' = [i \in P |-> [j \in P |-> IF j = Bad THEN f[i] ELSE View(j)]]
       /\ UNCHANGED <<w, out>>
Equal(i) ==
    LET h == said[i] IN
    CASE Rule = "all"   -> h[0] = h[1] /\ h[0] = h[2]
      [] Rule = "first" -> h[0] = h[1]
      [] Rule = "own"   -> h[i] = h[Prev(i)]
      [] Rule = "two"   -> h[0] = h[1] \/ h[0] = h[2] \/ h[1] = h[2]
Compare == /\ phase = "compare" /\ phase' = "done" /\ UNCHANGED <<w, said>>
           /\ out' = [i \in P |-> IF Equal(i) THEN "accepts" ELSE "refuses"]
Next == Say \/ Compare
Spec == Init /\ [][Next]_vars
Sum == Mod(w[0] + w[1] + w[2])
\* a value that is not zero is refused by all honest parties; without a cheater's lies zero is accepted
Sound == (phase = "done" /\ Sum # 0) => \A i \in Honest : out[i] = "refuses"
Complete == (phase = "done" /\ Sum = 0 /\ \A i \in P : said[i][Bad] = View(Bad)) => \A i \in P : out[i] = "accepts"
=============================================================================
