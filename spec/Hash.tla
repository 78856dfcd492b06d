-------------------------------- MODULE Hash --------------------------------
(***************************************************************************)
(* The hash that commitments are made with: some injective function as far *)
(* as the specification is concerned.  TLC computes SHA-512 (Hash.java).   *)
(***************************************************************************)
Sha(x) == CHOOSE h \in STRING : TRUE
=============================================================================
