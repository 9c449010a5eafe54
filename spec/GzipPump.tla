------------------------------- MODULE GzipPump -------------------------------
(***************************************************************************)
(* A stream that decompresses on demand: a decompressor between an input   *)
(* buffer of in bytes and an output buffer of out bytes.  The compressed   *)
(* stream is a sequence of tokens <<bytes consumed, bytes produced>>, some *)
(* of which produce nothing; it may be cut after any byte.  Whatever the   *)
(* sizes: the reader gets the data in order and then the end - or, if the  *)
(* stream is cut, an error - after finitely many steps.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS MaxIn, MaxOut, Tokens
VARIABLES in, out, stream, cut, fed, ate, made, taken, state

(* Token k eats stream[k][1] bytes and makes stream[k][2].                  *)
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
Eats == Sum([k \in 1..Len(stream) |-> stream[k][1]], Len(stream))
Makes == Sum([k \in 1..Len(stream) |-> stream[k][2]], Len(stream))
(* What can have been produced when n bytes have been consumed.             *)
Upto(n) == LET ks == {k \in 0..Len(stream) : Sum([j \in 1..Len(stream) |-> stream[j][1]], k) <= n}
               k == CHOOSE k \in ks : \A j \in ks : j <= k
           IN Sum([j \in 1..Len(stream) |-> stream[j][2]], k)

vars == <<in, out, stream, cut, fed, ate, made, taken, state>>
Init == /\ in \in 1..MaxIn /\ out \in 1..MaxOut
        /\ stream \in UNION {[1..n -> {<<1, 0>>, <<1, 1>>, <<1, 3>>, <<2, 1>>}] : n \in 1..Tokens}
        /\ cut \in 0..Eats
        /\ fed = 0 /\ ate = 0 /\ made = 0 /\ taken = 0 /\ state = "read"
(* The reader wants a byte and the output buffer has been handed out.       *)
Whole == ate = Eats /\ made = Makes
Min(a, b) == IF a < b THEN a ELSE b
Inflate == /\ state = "read" /\ made = taken /\ ~Whole
           /\ IF fed = ate /\ Upto(ate) = made
              THEN \* needs input
                   IF fed = cut THEN state' = "error" /\ UNCHANGED <<fed, ate, made, taken>>
                   ELSE fed' = Min(cut, fed + in) /\ UNCHANGED <<ate, made, taken, state>>
              ELSE \* one call of the decompressor: eats what there is, makes what there is room for
                   /\ ate' = IF Upto(fed) - made <= out THEN fed ELSE ate
                   /\ made' = made + Min(out, Upto(fed) - made)
                   /\ UNCHANGED <<fed, taken, state>>
           /\ UNCHANGED <<in, out, stream, cut>>
Take == state = "read" /\ taken < made /\ taken' = taken + 1 /\ UNCHANGED <<in, out, stream, cut, fed, ate, made, state>>
Finish == state = "read" /\ made = taken /\ Whole /\ state' = "end" /\ UNCHANGED <<in, out, stream, cut, fed, ate, made, taken>>
Next == Inflate \/ Take \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Faithful == /\ taken <= made /\ made <= Makes
            /\ state = "end" => cut = Eats /\ taken = Makes
            /\ state = "error" => cut < Eats /\ taken <= Upto(cut)
Ends == <>(state # "read")
=============================================================================
