------------------------------- MODULE Masking -------------------------------
(***************************************************************************)
(* The inner random stream of a KDBX document.  The state of a writer or   *)
(* reader is its position in one continuous key stream; it visits the      *)
(* values of the document in document order and moves only for protected   *)
(* ones, by their length.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, TLC

(* One value <<protected, bytes>>: <<what is stored, new position>>.        *)
MaskAt(key(_), pos, prot, b) == IF prot THEN <<TLCEval([i \in 1..Len(b) |-> b[i] ^^ key(pos + i)]), pos + Len(b)>> ELSE <<b, pos>>

RECURSIVE Positions(_, _)
(* Position before each of the values.                                      *)
Positions(vs, pos) == IF vs = <<>> THEN <<>>
                      ELSE <<pos>> \o Positions(Tail(vs), IF vs[1][1] THEN pos + Len(vs[1][2]) ELSE pos)
=============================================================================
