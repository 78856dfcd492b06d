-------------------------------- MODULE Coin --------------------------------
(***************************************************************************)
(* Products, then a coin that challenges them (C07, C08, C09), with one    *)
(* party that cheats and is in no hurry.                                   *)
(*                                                                         *)
(* The parties send their products (to the next party), and then draw a    *)
(* coin with which the products are checked.  A cheater who knows the coin *)
(* before it has to send its product can choose an error that passes.  So  *)
(* nothing that reveals the coin to the cheater may be sent before its     *)
(* product was.  The cheater sends its messages whenever and in whichever  *)
(* order it likes; the honest parties run Prog.                            *)
(*                                                                         *)
(* Kind  "sync"    malicious-secure ABY3 and SPDZ-wise: each party tells   *)
(*                 the next one that it has finished the products, and     *)
(*                 then sends it the share of the coin that it lacks       *)
(*       "commit"  Swift3: the parties commit to shares and reveal them    *)
(*  broken variants:                                                       *)
(*       "bare"    as "sync", but without telling                          *)
(*       "prev"    tells the previous party                                *)
(*       "before"  the coin is drawn before the products are made          *)
(*       "common"  the coin comes from randomness that all have in common  *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Kind, Cheater
P == 0..2
Nx(p) == (p + 1) % 3
Pv(p) == (p + 2) % 3
S(to, m) == [t |-> "s", p |-> to, m |-> m]
R(from, m) == [t |-> "r", p |-> from, m |-> m]
Product(p) == <<S(Nx(p), "product"), R(Pv(p), "product")>>
Share(p) == <<S(Nx(p), "coin"), R(Pv(p), "coin")>>
Prog(p) == CASE Kind = "sync" -> Product(p) \o <<S(Nx(p), "sync"), R(Pv(p), "sync")>> \o Share(p)
             [] Kind = "prev" -> Product(p) \o <<S(Pv(p), "sync"), R(Nx(p), "sync")>> \o Share(p)
             [] Kind = "bare" -> Product(p) \o Share(p)
             [] Kind = "before" -> Share(p) \o Product(p)
             [] Kind = "common" -> Product(p)
             [] Kind = "commit" -> Product(p) \o <<S(Nx(p), "commit"), S(Pv(p), "commit"), R(Nx(p), "commit"), R(Pv(p), "commit"),
                                                   S(Nx(p), "reveal"), S(Pv(p), "reveal"), R(Nx(p), "reveal"), R(Pv(p), "reveal")>>

VARIABLES pc,   \* next step of each honest party
          sent  \* messages that were sent: <<from, to, what>>
vars == <<pc, sent>>
Honest == P \ {Cheater}
Init == pc = [p \in P |-> 1] /\ sent = {}
Do(p) == /\ p \in Honest /\ pc[p] <= Len(Prog(p))
         /\ LET e == Prog(p)[pc[p]]
            IN IF e.t = "s" THEN sent' = sent \cup {<<p, e.p, e.m>>} ELSE <<e.p, p, e.m>> \in sent /\ UNCHANGED sent
         /\ pc' = [pc EXCEPT ![p] = @ + 1]
Mine == {<<Cheater, e.p, e.m>> : e \in {Prog(Cheater)[i] : i \in {j \in 1..Len(Prog(Cheater)) : Prog(Cheater)[j].t = "s"}}}
Cheat == \E m \in Mine \ sent : sent' = sent \cup {m} /\ UNCHANGED pc
Over == \A p \in Honest : pc[p] > Len(Prog(p))
Next == Cheat \/ (\E p \in Honest : Do(p)) \/ (Over /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

\* the cheater can compute the coin
Known == CASE Kind = "common" -> TRUE
           [] Kind = "commit" -> \A p \in Honest : <<p, Cheater, "reveal">> \in sent
           [] OTHER -> <<Pv(Cheater), Cheater, "coin">> \in sent
Late == Known => <<Cheater, Nx(Cheater), "product">> \in sent
=============================================================================
