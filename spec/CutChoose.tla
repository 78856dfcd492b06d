----------------------------- MODULE CutChoose -----------------------------
(***************************************************************************)
(* Cut and choose of the AND triples of SPDZ-wise.  A party that cheats    *)
(* chooses which bits of the triples are wrong: x in the Words words that  *)
(* are to be used, y in the Words + 1 words that they are checked with.    *)
(* The second bucket is permuted; its last word is opened and has to be    *)
(* right; the others have to agree with the first bucket.  Later the       *)
(* cheater gets gates wrong (g, one word), the triples are permuted again  *)
(* and the first word is compared with the gates.                          *)
(*                                                                         *)
(* Whatever is wrong with the gates has to be found with good probability. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Words, W, Perm1, Perm2, Open, Num, Den, Emit
VARIABLES phase, x, y, g, n1
vars == <<phase, x, y, g, n1>>

Bits(n) == 0..(n * W - 1)
Word(b) == b \div W
Lane(b) == b % W
X == Bits(Words)
Y == Bits(Words + 1)
G == Bits(1)

Allowed(how, f) ==
    CASE how = "all"    -> TRUE
      [] how = "none"   -> \A b \in DOMAIN f : f[b] = b
      [] how = "within" -> \A b \in DOMAIN f : Word(f[b]) = Word(b)
      [] how = "words"  -> \A b, c \in DOMAIN f : Lane(f[b]) = Lane(b) /\ (Word(b) = Word(c) => Word(f[b]) = Word(f[c]))
      [] how = "front"  -> \A b \in DOMAIN f : Word(b) > 0 => f[b] = b
Perms(how, S) == {f \in Permutations(S) : Allowed(how, f)}
P1 == [h \in {"all", "none", "within", "words", "front"} |-> Perms(h, Y)]
P2 == [h \in {"all", "none", "within", "words", "front"} |-> Perms(h, X)]

\* f[b] is where what is at b goes
First(open, xx, yy, f) ==
    LET z == {f[b] : b \in yy}
        last == {b \in (CASE open = "after" -> z [] open = "before" -> yy [] open = "never" -> {}) : Word(b) = Words}
    IN last = {} /\ {b \in z : Word(b) < Words} = xx
Second(xx, gg, f) == {f[b] : b \in xx} \cap G = gg
Accepted1(h, o, xx, yy) == {f \in P1[h] : First(o, xx, yy, f)}
Accepted2(h, xx, gg) == {f \in P2[h] : Second(xx, gg, f)}

Init == phase = "choose" /\ x = {} /\ y = {} /\ g = {} /\ n1 = 0
Choose == /\ phase = "choose" /\ x' \in SUBSET X /\ y' \in SUBSET Y
          /\ n1' = Cardinality(Accepted1(Perm1, Open, x', y')) /\ n1' > 0
          /\ phase' = "made" /\ UNCHANGED g
Use == phase = "made" /\ g' \in SUBSET G /\ phase' = "used" /\ UNCHANGED <<x, y, n1>>
Next == Choose \/ Use
Spec == Init /\ [][Next]_vars

Complete == (phase = "used" /\ x = {} /\ y = {} /\ g = {}) => n1 = Cardinality(P1[Perm1]) /\ Accepted2(Perm2, x, g) = P2[Perm2]
Sound == (phase = "used" /\ g # {}) =>
           n1 * Cardinality(Accepted2(Perm2, x, g)) * Den <= Num * Cardinality(P1[Perm1]) * Cardinality(P2[Perm2])

(***************************************************************************)
(* Errors that some broken way of checking never finds: what a cheating    *)
(* party of the real code tries.                                           *)
(***************************************************************************)
Broken == {<<"none", "none", "after">>, <<"within", "within", "after">>, <<"words", "words", "after">>, <<"front", "front", "after">>, <<"front", "all", "after">>,
           <<"all", "all", "before">>, <<"all", "all", "never">>, <<"none", "all", "after">>, <<"within", "all", "after">>}
Certain(b, xx, yy, gg) == Accepted1(b[1], b[3], xx, yy) = P1[b[1]] /\ Accepted2(b[2], xx, gg) = P2[b[2]]
Attacks(dummy) == UNION {LET ok1 == {p \in (SUBSET X) \X (SUBSET Y) : p[1] # {} /\ Accepted1(b[1], b[3], p[1], p[2]) = P1[b[1]]}
                  IN {<<p[1], p[2], gg>> : p \in ok1, gg \in (SUBSET G) \ {{}}} \cap {a \in (SUBSET X) \X (SUBSET Y) \X ((SUBSET G) \ {{}}) : Accepted2(b[2], a[1], a[3]) = P2[b[2]]} : b \in Broken}
ASSUME Emit => \A a \in Attacks(0) : PrintT(<<"ATTACK", "e", ToJson([x |-> a[1], y |-> a[2], g |-> a[3]])>>)
=============================================================================
