----------------------------- MODULE ValueEqGen -----------------------------
(***************************************************************************)
(* Comparing lists of objects element by element, the way a program does:  *)
(* two cursors that move while the elements agree.  Objects are a number   *)
(* and a list of numbers.  The comparison must end, must never look past   *)
(* the end of either list and must say what equality of the values says.   *)
(* Checked for all pairs of small lists; the pairs are printed and built   *)
(* as lists of entries with history, of groups with entries, of fields...  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Len1, Len2, Nums
VARIABLES a, b, i, j, said
vars == <<a, b, i, j, said>>
Inner == UNION {[1..n -> Nums] : n \in 0..Len2}
Objs == Nums \X Inner
Lists == UNION {[1..n -> Objs] : n \in 0..Len1}
Init == a \in Lists /\ b \in Lists /\ i = 1 /\ j = 0 /\ said = "no"
(* j = 0: the numbers and lengths of object i; j > 0: number j of its list. *)
Sizes == said = "no" /\ i = 1 /\ j = 0 /\ Len(a) # Len(b) /\ said' = "false" /\ UNCHANGED <<a, b, i, j>>
Object == /\ said = "no" /\ Len(a) = Len(b) /\ i <= Len(a) /\ j = 0
          /\ IF a[i][1] # b[i][1] \/ Len(a[i][2]) # Len(b[i][2]) THEN said' = "false" /\ UNCHANGED <<i, j>>
             ELSE IF a[i][2] = <<>> THEN i' = i + 1 /\ UNCHANGED <<j, said>> ELSE j' = 1 /\ UNCHANGED <<i, said>>
          /\ UNCHANGED <<a, b>>
Number == /\ said = "no" /\ j > 0
          /\ IF a[i][2][j] # b[i][2][j] THEN said' = "false" /\ UNCHANGED <<i, j>>
             ELSE IF j = Len(a[i][2]) THEN i' = i + 1 /\ j' = 0 /\ UNCHANGED said ELSE j' = j + 1 /\ UNCHANGED <<i, said>>
          /\ UNCHANGED <<a, b>>
Same == said = "no" /\ Len(a) = Len(b) /\ i > Len(a) /\ said' = "true" /\ UNCHANGED <<a, b, i, j>>
Next == Sizes \/ Object \/ Number \/ Same
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == said # "no" => (said = "true") = (a = b)
Inside == j > 0 => i <= Len(a) /\ i <= Len(b) /\ j <= Len(a[i][2]) /\ j <= Len(b[i][2])
Ends == <>(said # "no")
Emit == (i = 1 /\ j = 0 /\ said = "no" /\ "EMIT" \in DOMAIN IOEnv) => PrintT("@PAIR " \o ToJson(<<a, b>>))
=============================================================================
