------------------------------- MODULE MaskGen -------------------------------
(***************************************************************************)
(* Documents with values at seven kinds of place; each of the chosen       *)
(* places gets a kind of value: unprotected, or protected of a size around *)
(* the block of the key stream.  A writer with a small key stream and a    *)
(* reader walk the document; the reader must recover every value, and no   *)
(* two protected values may use the same part of the key stream.  The      *)
(* arrangements are printed and replayed against the library.              *)
(***************************************************************************)
EXTENDS Masking, FiniteSets, SequencesExt, Json, IOUtils
CONSTANTS Chosen, Sizes, SmallBlock
VARIABLES arr, at, wpos, rpos, doc, back
Places == <<"bin", "title", "pass", "field", "own", "hist", "sub">>       \* in document order
Default == [p \in 1..Len(Places) |-> "absent"]
Kinds == {"U"} \cup {"P" \o ToString(n) : n \in Sizes}
LenOf(k) == IF k = "U" THEN 3 ELSE CHOOSE n \in Sizes : k = "P" \o ToString(n)
Scaled(n) == (n \div SmallBlock) + (n % SmallBlock)          \* keeps 0, 1 and "around a block" apart
Val(p) == <<arr[p] # "U", [i \in 1..Scaled(LenOf(arr[p])) |-> (p * 3 + i) % 8]>>
Doc == LET ps == SelectSeq([p \in 1..Len(Places) |-> p], LAMBDA p : arr[p] # "absent") IN [i \in 1..Len(ps) |-> Val(ps[i])]
Key(i) == (i * i + i * 3) % 8
vars == <<arr, at, wpos, rpos, doc, back>>

Init == /\ \E S \in SUBSET (1..Len(Places)) : Cardinality(S) <= Chosen /\ S # {} /\
              \E f \in [S -> Kinds] : arr = [p \in 1..Len(Places) |-> IF p \in S THEN f[p] ELSE "absent"]
        /\ at = 1 /\ wpos = 0 /\ rpos = 0 /\ doc = <<>> /\ back = <<>>
Write == /\ Len(doc) < Len(Doc)
         /\ LET v == Doc[Len(doc) + 1]
                m == MaskAt(Key, wpos, v[1], v[2])
            IN doc' = Append(doc, <<v[1], m[1], wpos>>) /\ wpos' = m[2]
         /\ UNCHANGED <<arr, at, rpos, back>>
Read == /\ at <= Len(doc)
        /\ LET m == MaskAt(Key, rpos, doc[at][1], doc[at][2]) IN back' = Append(back, <<doc[at][1], m[1]>>) /\ rpos' = m[2]
        /\ at' = at + 1 /\ UNCHANGED <<arr, wpos, doc>>
Next == Write \/ Read
Recovered == \A i \in 1..Len(back) : back[i] = Doc[i]
Disjoint == \A i, j \in 1..Len(doc) : i < j /\ doc[i][1] => doc[i][3] + Len(doc[i][2]) <= doc[j][3]
Agree == Len(doc) = Len(Doc) => [i \in 1..Len(doc) |-> doc[i][3]] = Positions(Doc, 0)
Emit == (at = 1 /\ doc = <<>> /\ "EMIT" \in DOMAIN IOEnv) => PrintT("@ARR " \o ToJson(arr))
=============================================================================
