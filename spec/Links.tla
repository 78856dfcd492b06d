------------------------------- MODULE Links -------------------------------
(***************************************************************************)
(* Timing (C15): the sequences of sends and receives that the three        *)
(* parties of a recorded session performed, put on links that deliver in   *)
(* order and buffer at most Cap messages.                                  *)
(*                                                                         *)
(* A party is the sequence of its communication events.  It is blocked by  *)
(* a receive from an empty link and by a send to a full one, and by        *)
(* nothing else, so what one party does never disables another: with All = *)
(* FALSE one order of steps is followed, which decides whether all orders  *)
(* reach the end; with All = TRUE every order is explored, and the claim   *)
(* just made is checked too (Persistent).                                  *)
(*                                                                         *)
(* Every message has to be consumed by the operation in which it was sent, *)
(* and none may be left.                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Cap, All

VARIABLES s, at, link, verdict
vars == <<s, at, link, verdict>>
Scen == ndJsonDeserialize(IOEnv.TRACE)
Sc == Scen[s]
P == 1..3
E(p) == Sc.net[p][at[p] + 1]
Able(p) == /\ at[p] < Len(Sc.net[p])
           /\ IF E(p).t = "s" THEN Len(link[<<p, E(p).p + 1>>]) < Cap ELSE link[<<E(p).p + 1, p>>] # <<>>
Complaint(p) == IF E(p).t = "s" THEN (IF E(p).p + 1 \in P \ {p} THEN "" ELSE "sent to a party that does not exist")
                ELSE LET m == Head(link[<<E(p).p + 1, p>>])
                     IN IF m.l # E(p).l THEN "a message arrived altered"
                        ELSE IF m.o # E(p).o THEN "a message of operation " \o ToString(m.o) \o " was consumed by operation " \o ToString(E(p).o) ELSE ""
Say(v) == PrintT(<<"VERDICT", Sc.id, v>>)
Move(p) == /\ Able(p) /\ verdict = ""
           /\ verdict' = Complaint(p) /\ (IF verdict' = "" THEN TRUE ELSE Say(verdict'))
           /\ at' = [at EXCEPT ![p] = @ + 1]
           /\ link' = IF E(p).t = "s" THEN [link EXCEPT ![<<p, E(p).p + 1>>] = Append(@, [l |-> E(p).l, o |-> E(p).o])]
                      ELSE [link EXCEPT ![<<E(p).p + 1, p>>] = Tail(@)]
           /\ UNCHANGED s
End == /\ verdict = "" /\ \A p \in P : ~Able(p)
       /\ verdict' = IF \E p \in P : at[p] < Len(Sc.net[p]) THEN "the parties block each other for ever"
                     ELSE IF \E c \in DOMAIN link : link[c] # <<>> THEN "a message is never consumed" ELSE "ok"
       /\ Say(verdict') /\ UNCHANGED <<s, at, link>>
Over == verdict # "" /\ UNCHANGED vars
Init == s \in 1..Len(Scen) /\ at = [p \in P |-> 0] /\ link = [c \in P \X P |-> <<>>] /\ verdict = ""
Next == (\E p \in P : Move(p) /\ (All \/ \A q \in 1..p - 1 : ~Able(q))) \/ End \/ Over
Spec == Init /\ [][Next]_vars

\* a step of one party never takes the possibility to move from another
Persistent == [][\A p \in P : Able(p) /\ at'[p] = at[p] /\ verdict' = "" => Able(p)']_vars
=============================================================================
