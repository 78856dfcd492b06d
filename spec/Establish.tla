----------------------------- MODULE Establish -----------------------------
(***************************************************************************)
(* How N parties connect (C18): mpc-net/src/lib.rs, establish and          *)
(* get_custom_channels.                                                    *)
(*                                                                         *)
(* Every party opens its listening socket and then goes through its list   *)
(* of parties in the order in which its configuration gives them.  Towards *)
(* a party of smaller id it is the client: it connects, which needs that   *)
(* the other one listens, and then says who it is.  For every party of     *)
(* larger id it accepts one connection, whichever comes first, and labels  *)
(* it with the id that the connection brings.  Then, Sets times, it makes  *)
(* one channel on every connection in ascending order of the ids: as the   *)
(* client it opens, says its id and waits for the other's; as the server   *)
(* it accepts, reads and answers.                                          *)
(*                                                                         *)
(* Label = "list" is the broken variant in which the server labels a       *)
(* connection with the list entry at hand; Order = "any" is the one in     *)
(* which channels are made in any order.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS N, Sets, Label, Order, Lists

Ids == 0..N - 1
Perms == {q \in [1..N -> Ids] : \A i, j \in 1..N : q[i] = q[j] => i = j}
Orders == {q \in [1..N - 1 -> Ids] : \A i, j \in 1..N - 1 : q[i] = q[j] => i = j}

VARIABLES list,    \* id |-> its configuration's order
          order,   \* id |-> the order in which it makes channels
          up,      \* those that listen
          pos,     \* id |-> entry of the list it is at
          backlog, \* id |-> connections that wait to be accepted (clients' ids), in order of arrival
          asked,   \* id |-> has it connected and still to be told (unused for servers)
          peer,    \* id |-> label |-> who is really at the other end
          set, cpos, \* id |-> set of channels being made, channel within it
          opened,  \* <<client, server>> |-> channels opened and not yet accepted
          replied  \* <<server, client>> |-> answers not yet read
vars == <<list, order, up, pos, backlog, asked, peer, set, cpos, opened, replied>>

Asc(i) == CHOOSE q \in Orders : (\A j \in 1..N - 1 : q[j] # i) /\ \A j \in 1..N - 2 : q[j] < q[j + 1]
Init == /\ list \in IF Lists = "all" THEN [Ids -> Perms] ELSE [Ids -> {CHOOSE q \in Perms : \A j \in 1..N - 1 : q[j] < q[j + 1], CHOOSE q \in Perms : \A j \in 1..N - 1 : q[j] > q[j + 1]}]
        /\ order \in IF Order = "asc" THEN {[i \in Ids |-> Asc(i)]} ELSE {f \in [Ids -> Orders] : \A i \in Ids : \A j \in 1..N - 1 : f[i][j] # i}
        /\ up = {} /\ pos = [i \in Ids |-> 1] /\ backlog = [i \in Ids |-> <<>>] /\ asked = [i \in Ids |-> FALSE]
        /\ peer = [i \in Ids |-> [j \in {} |-> 0]]
        /\ set = [i \in Ids |-> 1] /\ cpos = [i \in Ids |-> 0]
        /\ opened = [c \in Ids \X Ids |-> 0] /\ replied = [c \in Ids \X Ids |-> 0]

Start(i) == i \notin up /\ up' = up \cup {i} /\ UNCHANGED <<list, order, pos, backlog, asked, peer, set, cpos, opened, replied>>
Busy(i) == i \in up /\ pos[i] <= N
Entry(i) == list[i][pos[i]]
Skip(i) == /\ Busy(i) /\ Entry(i) = i /\ pos' = [pos EXCEPT ![i] = @ + 1]
           /\ UNCHANGED <<list, order, up, backlog, asked, peer, set, cpos, opened, replied>>
\* the transport completes the handshake as soon as the other one listens
Connect(i) == /\ Busy(i) /\ Entry(i) < i /\ Entry(i) \in up
              /\ backlog' = [backlog EXCEPT ![Entry(i)] = Append(@, i)]
              /\ peer' = [peer EXCEPT ![i] = [j \in DOMAIN @ \cup {Entry(i)} |-> IF j = Entry(i) THEN j ELSE @[j]]]
              /\ pos' = [pos EXCEPT ![i] = @ + 1]
              /\ UNCHANGED <<list, order, up, asked, set, cpos, opened, replied>>
Accept(i) == /\ Busy(i) /\ Entry(i) > i /\ backlog[i] # <<>>
             /\ LET c == Head(backlog[i])
                    l == IF Label = "received" THEN c ELSE Entry(i)
                IN peer' = [peer EXCEPT ![i] = [j \in DOMAIN @ \cup {l} |-> IF j = l THEN c ELSE @[j]]]
             /\ backlog' = [backlog EXCEPT ![i] = Tail(@)]
             /\ pos' = [pos EXCEPT ![i] = @ + 1]
             /\ UNCHANGED <<list, order, up, asked, set, cpos, opened, replied>>

Making(i) == i \in up /\ pos[i] > N /\ set[i] <= Sets
Chan(i) == order[i][IF cpos[i] = 0 THEN 1 ELSE cpos[i]]
Advance(i) == IF cpos[i] + 1 > N - 1 THEN cpos' = [cpos EXCEPT ![i] = 1] /\ set' = [set EXCEPT ![i] = @ + 1]
              ELSE cpos' = [cpos EXCEPT ![i] = @ + 1] /\ UNCHANGED set
Begin(i) == Making(i) /\ cpos[i] = 0 /\ cpos' = [cpos EXCEPT ![i] = 1] /\ UNCHANGED <<list, order, up, pos, backlog, asked, peer, set, opened, replied>>
Open(i) == /\ Making(i) /\ cpos[i] > 0 /\ Chan(i) < i /\ ~asked[i]
           /\ opened' = [opened EXCEPT ![<<i, peer[i][Chan(i)]>>] = @ + 1] /\ asked' = [asked EXCEPT ![i] = TRUE]
           /\ UNCHANGED <<list, order, up, pos, backlog, peer, set, cpos, replied>>
Told(i) == /\ Making(i) /\ cpos[i] > 0 /\ Chan(i) < i /\ asked[i] /\ replied[<<peer[i][Chan(i)], i>>] > 0
           /\ replied' = [replied EXCEPT ![<<peer[i][Chan(i)], i>>] = @ - 1] /\ asked' = [asked EXCEPT ![i] = FALSE] /\ Advance(i)
           /\ UNCHANGED <<list, order, up, pos, backlog, peer, opened>>
Answer(i) == /\ Making(i) /\ cpos[i] > 0 /\ Chan(i) > i /\ opened[<<peer[i][Chan(i)], i>>] > 0
             /\ opened' = [opened EXCEPT ![<<peer[i][Chan(i)], i>>] = @ - 1]
             /\ replied' = [replied EXCEPT ![<<i, peer[i][Chan(i)]>>] = @ + 1] /\ Advance(i)
             /\ UNCHANGED <<list, order, up, pos, backlog, asked, peer>>

Done == up = Ids /\ \A i \in Ids : pos[i] > N /\ set[i] > Sets
Next == (\E i \in Ids : Start(i) \/ Skip(i) \/ Connect(i) \/ Accept(i) \/ Begin(i) \/ Open(i) \/ Told(i) \/ Answer(i)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

\* every link leads to the party whose label it bears
Right == \A i \in Ids : \A j \in DOMAIN peer[i] : peer[i][j] = j
Complete == Done => \A i \in Ids : DOMAIN peer[i] = Ids \ {i}
Clean == Done => \A c \in Ids \X Ids : opened[c] = 0 /\ replied[c] = 0
\* (that all of them get there is TLC's deadlock check: the only state without a step other than stuttering is Done)
=============================================================================
