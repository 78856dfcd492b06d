------------------------------ MODULE NetTrace ------------------------------
(***************************************************************************)
(* The network as its users see it (C17, C18), and the check of recorded   *)
(* sessions of the real network layer against it.                          *)
(*                                                                         *)
(* A link is a FIFO queue of messages: one for every set of channels and   *)
(* every ordered pair of parties.  A party is a sequence of events.  It is *)
(* replayed against the queues: a send appends to the link, a receive      *)
(* takes the head of the link, and has to have given exactly that message. *)
(* Since every party is sequential and links are only read by their        *)
(* receiver, the order in which the parties are replayed does not matter   *)
(* (a Kahn network), so one order decides.                                 *)
(*                                                                         *)
(* Sessions with tag "refuse" have a configuration that must be refused by *)
(* every party; in all others every party must come to its end.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES s,      \* the session
          at,     \* party |-> events replayed
          link,   \* <<set, sender, receiver>> |-> messages on the way
          verdict
vars == <<s, at, link, verdict>>
Scen == ndJsonDeserialize(IOEnv.TRACE)
Sc == Scen[s]
P == 1..Sc.n
Ids == {Sc.ids[p] : p \in P}
Log(p) == Sc.log[p]
Get(k) == IF k \in DOMAIN link THEN link[k] ELSE <<>>
Sorted(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i < j => q[i] < q[j]

\* party p's next event can be replayed
Able(p) == /\ at[p] < Len(Log(p))
           /\ LET e == Log(p)[at[p] + 1]
              IN CASE e.a = "recv" -> Get(<<e.s, e.p, Sc.ids[p]>>) # <<>>
                   [] e.a = "bgot" -> \A q \in Ids \ {Sc.ids[p]} : Get(<<0, q, Sc.ids[p]>>) # <<>>
                   [] OTHER -> TRUE
Add(f, k, m) == (k :> Append(IF k \in DOMAIN f THEN f[k] ELSE <<>>, m)) @@ f

\* <<complaint, the links afterwards>>
Effect(p, e) ==
    LET me == Sc.ids[p]
        others == Ids \ {me}
    IN CASE e.a = "send" -> <<IF e.p \in others THEN "" ELSE "sent to a party that does not exist", Add(link, <<e.s, me, e.p>>, e.m)>>
         [] e.a = "recv" -> LET k == <<e.s, e.p, me>>
                            IN <<IF link[k][1] = e.m THEN "" ELSE "a received message is not the one sent: " \o e.m \o " for " \o link[k][1],
                                 [link EXCEPT ![k] = Tail(@)]>>
         [] e.a = "bcast" -> LET o == Sorted(others)
                             IN <<"", Add(Add(link, <<0, me, o[1]>>, e.m), <<0, me, o[2]>>, e.m)>>
         [] e.a = "bgot" -> LET ks == {<<0, q, me>> : q \in others}
                                own == CHOOSE m \in {Log(p)[i].m : i \in {j \in 1..at[p] : Log(p)[j].a = "bcast" /\ \A h \in j + 1..at[p] : Log(p)[h].a # "bcast"}} : TRUE
                                want == [i \in 1..3 |-> IF i - 1 = me THEN own ELSE link[<<0, i - 1, me>>][1]]
                            IN <<IF e.ms = want THEN "" ELSE "a broadcast did not return the three messages in order",
                                 [k \in DOMAIN link |-> IF k \in ks THEN Tail(link[k]) ELSE link[k]]>>
         [] e.a = "peers" -> <<IF e.me = me /\ e.ids = Sorted(others) THEN "" ELSE "wrong peers", link>>
         [] e.a = "bad" -> <<IF e.ok THEN "" ELSE "a party that does not exist was not refused", link>>

Say(v) == PrintT(<<"VERDICT", Sc.id, v>>)
Running == verdict = "" /\ Sc.tag # "refuse"
Step == /\ Running
        /\ \E p \in P : /\ Able(p) /\ \A q \in 1..p - 1 : ~Able(q)
                        /\ at' = [at EXCEPT ![p] = @ + 1]
                        /\ LET x == Effect(p, Log(p)[at[p] + 1])
                           IN verdict' = x[1] /\ link' = x[2] /\ IF x[1] = "" THEN TRUE ELSE Say(x[1])
        /\ UNCHANGED s
Final == IF \E p \in P : Sc.out[p] # "done" THEN LET p == CHOOSE q \in P : Sc.out[q] # "done" IN "party " \o ToString(Sc.ids[p]) \o " ended with " \o Sc.why[p]
         ELSE IF \E p \in P : at[p] < Len(Log(p)) THEN "a message was received that nobody sent"
         ELSE IF \E k \in DOMAIN link : link[k] # <<>> THEN "a message was never received"
         ELSE IF \E p \in P : Cardinality({i \in 1..Len(Log(p)) : Log(p)[i].a = "peers"}) # Sc.sets THEN "channels are missing"
         ELSE "ok"
End == /\ Running /\ \A p \in P : ~Able(p)
       /\ verdict' = Final /\ Say(verdict') /\ UNCHANGED <<s, at, link>>
Refuse == /\ verdict = "" /\ Sc.tag = "refuse"
          /\ verdict' = IF \A p \in P : Sc.out[p] = "err" THEN "ok"
                        ELSE LET p == CHOOSE q \in P : Sc.out[q] # "err" IN "a configuration was not refused: party " \o ToString(Sc.ids[p]) \o " ended with " \o Sc.why[p]
          /\ Say(verdict') /\ UNCHANGED <<s, at, link>>
Over == verdict # "" /\ UNCHANGED vars
Init == s \in 1..Len(Scen) /\ at = [p \in 1..Scen[s].n |-> 0] /\ link = [k \in {} |-> <<>>] /\ verdict = ""
Next == Step \/ End \/ Refuse \/ Over
Spec == Init /\ [][Next]_vars
=============================================================================
