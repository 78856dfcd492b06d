------------------------------ MODULE IrisPlan ------------------------------
(***************************************************************************)
(* A membership query, step by step as the system computes it: the         *)
(* database is worked off in chunks, every chunk yields one bit per entry, *)
(* the bits are packed into words, the words are ORed in a tree, chunk by  *)
(* chunk, and the last word is folded to one bit.  Entries are known by    *)
(* their kind only: near (within the threshold), far, or short (too little *)
(* usable mask).                                                           *)
(*                                                                         *)
(* All databases, chunk sizes and sequences of queries within the bounds   *)
(* are explored; every query is printed for the real code to answer.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxDb, MaxChunk, Word, Emit
Kinds == {"near", "far", "short"}

VARIABLES db, chunk, pc, at, bits, words, res
vars == <<db, chunk, pc, at, bits, words, res>>

Dbs == UNION {[1..n -> Kinds] : n \in 1..MaxDb}
Init == /\ db \in Dbs /\ chunk \in 1..MaxChunk
        /\ pc = "compare" /\ at = 0 /\ bits = <<>> /\ words = <<>> /\ res = "none"

Min(a, b) == IF a < b THEN a ELSE b
\* one chunk: masks first, before anything is computed
Compare ==
    /\ pc = "compare" /\ at < Len(db)
    /\ LET n == Min(chunk, Len(db) - at)
           ch == SubSeq(db, at + 1, at + n)
       IN IF \E i \in 1..n : ch[i] = "short"
          THEN pc' = "done" /\ res' = "refused" /\ UNCHANGED <<at, bits>>
          ELSE /\ bits' = bits \o [i \in 1..n |-> ch[i] = "near"]
               /\ at' = at + n /\ UNCHANGED <<pc, res>>
    /\ UNCHANGED <<db, chunk, words>>
\* words of Word bits, the last one filled up with FALSE
Pack ==
    /\ pc = "compare" /\ at = Len(db)
    /\ words' = [w \in 1..((Len(bits) + Word - 1) \div Word) |->
                    [i \in 1..Word |-> LET k == (w - 1) * Word + i IN IF k <= Len(bits) THEN bits[k] ELSE FALSE]]
    /\ pc' = "tree" /\ UNCHANGED <<db, chunk, at, bits, res>>
\* one layer: first half with second half, in chunks, an odd one is carried over
OrW(a, b) == [i \in 1..Word |-> a[i] \/ b[i]]
Layer ==
    /\ pc = "tree" /\ Len(words) > 1
    /\ LET h == Len(words) \div 2
           pairs == [i \in 1..h |-> OrW(words[i], words[h + i])]
           rest == SubSeq(words, 2 * h + 1, Len(words))
       IN words' = pairs \o rest
    /\ UNCHANGED <<db, chunk, pc, at, bits, res>>
Fold ==
    /\ pc = "tree" /\ Len(words) = 1
    /\ res' = (IF \E i \in 1..Word : words[1][i] THEN "1" ELSE "0")
    /\ pc' = "done" /\ UNCHANGED <<db, chunk, at, bits, words>>
Report == /\ pc = "done"
          /\ IF Emit THEN PrintT(<<"PLAN", "p", ToJson([db |-> db, chunk |-> chunk, res |-> res])>>) ELSE TRUE
          /\ pc' = "over" /\ UNCHANGED <<db, chunk, at, bits, words, res>>
Next == Compare \/ Pack \/ Layer \/ Fold \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* C05, C06: what the query has to answer
Answer == IF \E i \in DOMAIN db : db[i] = "short" THEN "refused"
          ELSE IF \E i \in DOMAIN db : db[i] = "near" THEN "1" ELSE "0"
Right == pc \in {"done", "over"} => res = Answer
\* no bit is computed from a short entry
NoShortBit == \A i \in 1..Len(bits) : db[i] # "short"
\* every entry contributes, in place
InPlace == \A i \in 1..Len(bits) : bits[i] = (db[i] = "near")
Ends == <>(pc = "over")
=============================================================================
