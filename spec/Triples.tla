------------------------------ MODULE Triples ------------------------------
(***************************************************************************)
(* SPDZ-wise checks AND gates against multiplication triples prepared      *)
(* beforehand.  A caller announces how many gates it is going to use; the  *)
(* gates used are collected, in words, until a verification consumes one   *)
(* prepared word for each of them, and at least Min words.                 *)
(*                                                                         *)
(* Triples are counted in words of Word gates.  Prepared words are numbered*)
(* in the order they are made, so that one that is used twice shows.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
    Word,       \* gates in a word
    Min,        \* least number of words a verification consumes and a generation makes
    Sizes,      \* numbers of gates that an operation may use
    MaxStock,   \* bound on the number of words prepared, for exhaustive checking
    MaxOps,     \* bound on the number of operations in an announced batch
    Depth,      \* length of the histories that are emitted, 0 for none
    CountPending, \* the announcement takes gates that wait for verification into account
    Drain         \* what a verification uses is removed from the stock

VARIABLES
    made,       \* words prepared so far
    stock,      \* sequence of prepared words not used yet
    pend,       \* gates that wait for verification
    budget,     \* gates that were announced and not used yet
    plan,       \* operations (numbers of gates) that the announcement was for
    used,       \* words consumed, with the number of times
    short,      \* a verification lacked words
    hist
vars == <<made, stock, pend, budget, plan, used, short, hist>>

Words(g) == (g + Word - 1) \div Word
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN {<<>>} ELSE LET r == Seqs(n - 1) IN r \cup {Append(q, x) : q \in {p \in r : Len(p) = n - 1}, x \in Sizes}

Init == /\ made = 0 /\ stock = <<>> /\ pend = 0 /\ budget = 0 /\ plan = <<>>
        /\ used = [w \in {} |-> 0] /\ short = FALSE /\ hist = <<>>

\* in emitted histories words are only counted, not listed
Exact == Depth = 0
More(n) == IF Exact THEN stock \o [i \in 1..n |-> made + i] ELSE <<IF stock = <<>> THEN n ELSE stock[1] + n>>
Have == IF Exact THEN Len(stock) ELSE IF stock = <<>> THEN 0 ELSE stock[1]
Record(o) == hist' = (IF Depth > 0 THEN Append(hist, o) ELSE hist)

Announce(q, extra) ==
    LET g == Sum(q) + extra
        want == Max(Words(g) + (IF CountPending THEN Words(pend) ELSE 0), Min)
        n == IF Have < want THEN Max(want - Have, Min) ELSE 0
    IN /\ made' = made + n /\ stock' = (IF n = 0 THEN stock ELSE More(n))
       /\ budget' = g /\ plan' = q
       /\ Record([op |-> "announce", n |-> g, made |-> n])
       /\ UNCHANGED <<pend, used, short>>

Use == /\ plan # <<>> /\ Head(plan) <= budget
       /\ pend' = pend + Head(plan) /\ budget' = budget - Head(plan) /\ plan' = Tail(plan)
       /\ Record([op |-> "use", n |-> Head(plan), made |-> 0])
       /\ UNCHANGED <<made, stock, used, short>>

Bump(ws) == [w \in DOMAIN used \cup ws |-> (IF w \in DOMAIN used THEN used[w] ELSE 0) + (IF w \in ws THEN 1 ELSE 0)]
Verify ==
    LET n == IF pend = 0 THEN 0 ELSE Max(Words(pend), Min)
    IN /\ short' = (short \/ n > Have)
       /\ IF n > Have THEN UNCHANGED <<stock, used>>
          ELSE /\ used' = IF Exact THEN Bump({stock[i] : i \in 1..n}) ELSE used
               /\ stock' = IF ~Drain THEN stock ELSE IF Exact THEN SubSeq(stock, n + 1, Len(stock)) ELSE <<Have - n>>
       /\ pend' = 0 /\ budget' = 0 /\ plan' = <<>>
       /\ Record([op |-> "verify", n |-> Words(pend), made |-> 0])
       /\ UNCHANGED made

Step == \/ \E q \in Seqs(MaxOps) : \E e \in {0} \cup (IF Exact THEN Sizes ELSE {}) : made < MaxStock /\ Announce(q, e)
        \/ Use \/ Verify
\* one history: batches of several sizes, verified now and then
Walk == \/ /\ plan = <<>>
           /\ \E m \in {RandomElement(1..MaxOps)} : \E q \in {[i \in 1..m |-> RandomElement(Sizes)]} :
              \E e \in {RandomElement({0, 0, 1, 100})} : Announce(q, e)
        \/ /\ plan # <<>> /\ \E c \in {RandomElement(1..8)} : IF c = 1 THEN Verify ELSE Use
        \/ /\ plan = <<>> /\ pend > 0 /\ \E c \in {RandomElement(1..2)} : c = 1 /\ Verify
Finish == /\ Depth > 0 /\ Len(hist) = Depth
          /\ PrintT(<<"HISTORY", "h", ToJson(hist)>>)
          /\ hist' = Append(hist, [op |-> "end", n |-> 0, made |-> made])
          /\ UNCHANGED <<made, stock, pend, budget, plan, used, short>>
Next == IF Depth = 0 THEN Step ELSE (Len(hist) < Depth /\ Walk) \/ Finish
Spec == Init /\ [][Next]_vars

\* the guarantee: a caller that keeps to what it announced is never let down
NeverShort == ~short
\* and every triple is used for one gate only
UsedOnce == \A w \in DOMAIN used : used[w] <= 1
Enough == budget > 0 \/ pend > 0 => Have >= Words(pend)
=============================================================================
