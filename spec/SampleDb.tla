------------------------------ MODULE SampleDb ------------------------------
(***************************************************************************)
(* The command-line tools (C21): a database file, the generators that add  *)
(* entries to it, and the match programs that answer by it; and the check  *)
(* of recorded runs of the real programs against this.                     *)
(*                                                                         *)
(* The state is what the file holds: a sequence of entries (code, mask,    *)
(* columns of shares) and a sequence of MAC keys.  An entry's columns are  *)
(* vectors over the ring of its protocol.  Every run of a generator is     *)
(* remembered, because the seed has to determine what it adds.             *)
(***************************************************************************)
EXTENDS BigRing, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES s, i,   \* the session, the runs of programs replayed
          db,     \* entries in the file
          keys,   \* MAC keys in the file
          made,   \* runs of generators with a seed: [proto, n, seed, rows, keys]
          codes,  \* codes of every generated entry with the run they come from
          verdict
vars == <<s, i, db, keys, made, codes, verdict>>
Scen == ndJsonDeserialize(IOEnv.TRACE)
Sc == Scen[s]
Ev == Sc.ev[i + 1]

CodeBits == 12800
MaskMin == (CodeBits * 7) \div 10
Threshold(n) == (n * 34) \div 100
Common(x, y) == BAnd(x.mask, y.mask)
Usable(x, y) == Ones(Common(x, y)) >= MaskMin
Matches(x, y) == Ones(BAnd(BXor(x.code, y.code), Common(x, y))) < Threshold(Ones(Common(x, y)))
Answer(q, rows) == IF \E r \in 1..Len(rows) : ~Usable(q, rows[r]) THEN "refused"
                   ELSE IF \E r \in 1..Len(rows) : Matches(q, rows[r]) THEN "1" ELSE "0"

-----------------------------------------------------------------------------
(* generators *)
Ring(proto) == IF proto = "spdzwise" THEN 64 ELSE 16
Sum3(k, a, b, c) == VAdd(k, VAdd(k, a, b), c)
\* what the columns of an entry are shares of; Swift3 stores masks and the masked value
Shared(proto, r) ==
    IF proto = "swift3" THEN VSub(16, r.sh[4], Sum3(16, r.sh[1], r.sh[2], r.sh[3]))
    ELSE Sum3(Ring(proto), r.sh[1], r.sh[2], r.sh[3])
Columns(proto) == CASE proto = "plain" -> 0 [] proto = "swift3" -> 4 [] OTHER -> 3
Full(proto, r) == /\ Len(r.code) = CodeBits \div 4 /\ Len(r.mask) = CodeBits \div 4
                  /\ Len(r.sh) = Columns(proto) /\ Len(r.mac) = (IF proto = "spdzwise" THEN 3 ELSE 0)
                  /\ \A c \in DOMAIN r.sh : VLen(Ring(proto), r.sh[c]) = CodeBits
                  /\ \A c \in DOMAIN r.mac : VLen(64, r.mac[c]) = CodeBits
\* a fair coin's share of n throws, with so much tolerance that chance never exceeds it
Fair(n, of) == 8 * n > 3 * of /\ 8 * n < 5 * of
\* all columns of an entry
Cells(r) == {r.sh[c] : c \in DOMAIN r.sh} \cup {r.mac[c] : c \in DOMAIN r.mac}
Looks(proto, r) == LET k == Ring(proto) IN \A v \in Cells(r) : \A n \in {Cols(k \div 8, v)[b] : b \in 1..k} : Fair(n, CodeBits)

\* complaint about the entries that a run of a generator added
Added(e, new, nk) ==
    LET q == e.proto
        old == [j \in 1..Len(e.rows) - Len(new) |-> e.rows[j]]
        wanted == IF q = "spdzwise" THEN 1 ELSE 0
    IN IF \E j \in DOMAIN new : ~Full(q, new[j]) THEN "an entry is not complete"
       ELSE IF Len(nk) # wanted THEN "wrong number of MAC keys"
       ELSE IF wanted = 1 /\ Sum3(64, nk[1].sh[1], nk[1].sh[2], nk[1].sh[3]) # nk[1].key THEN "the shares of the MAC key are not shares of it"
       ELSE IF q # "plain" /\ \E j \in DOMAIN new : Shared(q, new[j]) # Expand(Ring(q), new[j].code) THEN "the shares of an entry are not shares of its code"
       ELSE IF q = "spdzwise" /\ \E j \in DOMAIN new : Sum3(64, new[j].mac[1], new[j].mac[2], new[j].mac[3]) # VScale(64, Expand(64, new[j].code), nk[1].key)
            THEN "the MACs of an entry are not those of its code under the stored key"
       ELSE IF q # "plain" /\ \E j \in DOMAIN new : ~Looks(q, new[j]) THEN "shares are not random"
       ELSE IF \E j \in DOMAIN new : Cardinality(Cells(new[j])) # Len(new[j].sh) + Len(new[j].mac) THEN "two columns of an entry are the same"
       ELSE IF \E j \in DOMAIN new, h \in 1..Len(old) + Len(new) : h # Len(old) + j /\ Cells(new[j]) \cap Cells(e.rows[h]) # {}
            THEN "two entries have the same shares"
       ELSE IF wanted = 1 /\ Cardinality({nk[1].sh[1], nk[1].sh[2], nk[1].sh[3], nk[1].key}) # 4 THEN "shares are not random"
       ELSE IF \E j \in DOMAIN new : ~Fair(Ones(new[j].code), CodeBits) \/ Ones(new[j].mask) < (CodeBits * 17) \div 20 \/ Ones(new[j].mask) = CodeBits
            THEN "a code or mask is not random"
       ELSE IF \E j, h \in DOMAIN new : j # h /\ (~Usable(new[j], new[h]) \/ Matches(new[j], new[h])) THEN "two generated codes are not comparable or match"
       ELSE ""
\* complaint about a run with regard to the runs before it
Reproduced(e, new, nk) ==
    IF e.seed # "" /\ \E m \in made : m.proto = e.proto /\ m.n = e.n /\ m.seed = e.seed /\ (m.rows # new \/ m.keys # nk)
    THEN "the same seed gave another database"
    ELSE IF \E j \in DOMAIN new : \E c \in codes : c.code = new[j].code /\ (e.seed = "" \/ c.seed # e.seed) THEN "different seeds gave the same code"
    ELSE ""
Create ==
    LET e == Ev
        kept == Len(db) <= Len(e.rows) /\ SubSeq(e.rows, 1, Len(db)) = db /\ Len(keys) <= Len(e.keys) /\ SubSeq(e.keys, 1, Len(keys)) = keys
        new == SubSeq(e.rows, Len(db) + 1, Len(e.rows))
        nk == SubSeq(e.keys, Len(keys) + 1, Len(e.keys))
        say == IF ~e.ok THEN "the generator failed"
               ELSE IF ~kept THEN "what the database held before was changed"
               ELSE IF Len(new) # e.n THEN "the generator did not add as many entries as it was told"
               ELSE LET a == Added(e, new, nk) IN IF a # "" THEN a ELSE Reproduced(e, new, nk)
    IN /\ verdict' = say /\ db' = e.rows /\ keys' = e.keys
       /\ made' = IF e.seed = "" THEN made ELSE made \cup {[proto |-> e.proto, n |-> e.n, seed |-> e.seed, rows |-> new, keys |-> nk]}
       /\ codes' = codes \cup {[code |-> r.code, seed |-> e.seed] : r \in {new[j] : j \in DOMAIN new}}
\* an unknown protocol is refused and nothing is added
Refuse ==
    /\ verdict' = IF Ev.ok THEN "an unknown protocol was not refused"
                  ELSE IF Ev.rows # db \/ Ev.keys # keys THEN "a refused run changed the database" ELSE ""
    /\ UNCHANGED <<db, keys, made, codes>>
\* the file is replaced by another one
Put == verdict' = "" /\ db' = Ev.rows /\ keys' = Ev.keys /\ UNCHANGED <<made, codes>>

-----------------------------------------------------------------------------
(* match programs: e.q is the query that the seed determines; with e.m the *)
(* query is entry 1 with some 5 % of the bits of code and mask flipped     *)
Mac(e) == e.proto = "spdzwise"
Right(e) ==
    IF Len(db) = 0 \/ (Mac(e) /\ Len(keys) # 1) THEN "refused"
    ELSE IF ~e.m THEN Answer(e.q, db)
    ELSE IF \E r \in DOMAIN db : 100 * Ones(Common(db[1], db[r])) < 60 * CodeBits THEN "refused" ELSE "1"
Query ==
    LET e == Ev
    IN /\ verdict' = IF e.out = [j \in 1..e.runs |-> Right(e)] \/ (Right(e) = "refused" /\ e.out = <<"refused">>) THEN ""
                     ELSE "the answer of " \o e.prog \o " is " \o ToString(e.out) \o " for " \o Right(e)
       /\ UNCHANGED <<db, keys, made, codes>>
\* the plain program: its other query is random and matches nothing
Find ==
    LET e == Ev
        want == IF e.m /\ Len(db) = 0 THEN "refused"
                ELSE IF \E r \in DOMAIN db : 100 * Ones(IF e.m THEN Common(db[1], db[r]) ELSE db[r].mask) < 60 * CodeBits THEN "refused"
                ELSE IF e.m THEN "1" ELSE "0"
    IN /\ verdict' = IF e.out = <<want>> THEN "" ELSE "the answer of find_match is " \o ToString(e.out) \o " for " \o want
       /\ UNCHANGED <<db, keys, made, codes>>

-----------------------------------------------------------------------------
Say(v) == PrintT(<<"VERDICT", Sc.id, v>>)
Step == /\ verdict = "" /\ i < Len(Sc.ev)
        /\ CASE Ev.a = "create" -> Create [] Ev.a = "refuse" -> Refuse [] Ev.a = "put" -> Put
             [] Ev.a = "query" -> Query [] Ev.a = "find" -> Find
        /\ i' = i + 1 /\ UNCHANGED s
        /\ IF verdict' = "" THEN TRUE ELSE Say("run " \o ToString(i + 1) \o " (" \o Ev.a \o "): " \o verdict')
End == verdict = "" /\ i = Len(Sc.ev) /\ verdict' = "ok" /\ Say("ok") /\ UNCHANGED <<s, i, db, keys, made, codes>>
Over == verdict # "" /\ UNCHANGED vars
Init == s \in 1..Len(Scen) /\ i = 0 /\ db = <<>> /\ keys = <<>> /\ made = {} /\ codes = {} /\ verdict = ""
Next == Step \/ End \/ Over
Spec == Init /\ [][Next]_vars
=============================================================================
