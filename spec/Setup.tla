------------------------------- MODULE Setup -------------------------------
(***************************************************************************)
(* Commit and reveal among three parties, one of which cheats (C14): the   *)
(* setup of malicious-secure ABY3 and Swift3, and Swift3's coin.           *)
(*                                                                         *)
(* Every party has a contribution for every other one (the coin is the     *)
(* case in which they are equal), commits to it, waits for the commitments *)
(* of both others, reveals, and accepts a key with each other party if     *)
(* what that one revealed matches its commitment.  Party Bad sends any     *)
(* commitments and reveals at any time, knowing everything it was sent,    *)
(* but cannot see into a commitment.                                       *)
(*                                                                         *)
(* Wait = FALSE reveals at once, Check = FALSE accepts whatever is         *)
(* revealed; both are broken variants.                                     *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

CONSTANTS Wait, Check, Vals \* values of contributions, strings

P == 0..2
Bad == 2
Honest == P \ {Bad}
None == "none"
Refused == "refused"
L == {c \in P \X P : c[1] # c[2]}

VARIABLES contrib,  \* <<from, to>> |-> contribution of an honest party
          comm,     \* <<from, to>> |-> the committed value (sealed: only its owner and, after the reveal, the receiver know it)
          got,      \* links on which the commitment has arrived
          open,     \* <<from, to>> |-> revealed value
          key,      \* <<party, other>> |-> the other's contribution that was accepted, or Refused
          seen      \* what Bad knew when it committed: link |-> set of links revealed to it by then
vars == <<contrib, comm, got, open, key, seen>>

Init == /\ contrib \in [{c \in L : c[1] \in Honest} -> Vals]
        /\ comm = [c \in L |-> None] /\ got = {} /\ open = [c \in L |-> None] /\ key = [c \in L |-> None] /\ seen = [c \in L |-> {}]
Commit(i) == /\ i \in Honest /\ \A c \in L : c[1] = i => comm[c] = None
             /\ comm' = [c \in L |-> IF c[1] = i THEN contrib[c] ELSE comm[c]] /\ UNCHANGED <<contrib, got, open, key, seen>>
BadCommit(j) == /\ comm[<<Bad, j>>] = None /\ \E v \in Vals : comm' = [comm EXCEPT ![<<Bad, j>>] = v]
                /\ seen' = [seen EXCEPT ![<<Bad, j>>] = {c \in L : c[2] = Bad /\ open[c] # None}] /\ UNCHANGED <<contrib, got, open, key>>
Arrive(c) == /\ comm[c] # None /\ c \notin got /\ got' = got \cup {c} /\ UNCHANGED <<contrib, comm, open, key, seen>>
Reveal(i) == /\ i \in Honest /\ \A c \in L : c[1] = i => comm[c] # None /\ open[c] = None
             /\ Wait => \A c \in L : c[2] = i => c \in got
             /\ open' = [c \in L |-> IF c[1] = i THEN contrib[c] ELSE open[c]] /\ UNCHANGED <<contrib, comm, got, key, seen>>
BadReveal(j) == /\ open[<<Bad, j>>] = None /\ \E v \in Vals : open' = [open EXCEPT ![<<Bad, j>>] = v] /\ UNCHANGED <<contrib, comm, got, key, seen>>
Accept(i, j) == /\ i \in Honest /\ open[<<i, j>>] # None /\ open[<<j, i>>] # None /\ <<j, i>> \in got /\ key[<<i, j>>] = None
                /\ key' = [key EXCEPT ![<<i, j>>] = IF Check /\ open[<<j, i>>] # comm[<<j, i>>] THEN Refused
                                                     ELSE open[<<j, i>>]]
                /\ UNCHANGED <<contrib, comm, got, open, seen>>
Next == (\E i \in Honest : Commit(i) \/ Reveal(i) \/ BadCommit(i) \/ BadReveal(i)) \/ (\E c \in L : Arrive(c))
        \/ (\E c \in L : Accept(c[1], c[2])) \/ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Accepted(i, j) == key[<<i, j>>] # None /\ key[<<i, j>>] # Refused
\* when the cheater commits towards a party, that party has revealed nothing to it
Fixed == \A i \in Honest : <<i, Bad>> \notin seen[<<Bad, i>>]
\* what was accepted is what was committed to
Bound == \A c \in L : c[1] \in Honest /\ Accepted(c[1], c[2]) => key[c] = comm[<<c[2], c[1]>>]
\* honest parties agree on their key
Agree == \A i, j \in Honest : i # j /\ Accepted(i, j) /\ Accepted(j, i) => <<contrib[<<i, j>>], key[<<i, j>>]>> = <<key[<<j, i>>], contrib[<<j, i>>]>>
\* between honest parties nothing is refused
Live == \A i, j \in Honest : i # j => key[<<i, j>>] # Refused
=============================================================================
