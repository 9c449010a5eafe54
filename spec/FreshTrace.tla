------------------------------ MODULE FreshTrace -----------------------------
(***************************************************************************)
(* Recorded identifiers, as hexadecimal texts.  drawn: every identifier    *)
(* and start sequence met so far, from all processes of the run.  objs:    *)
(* what each process holds.                                                *)
(***************************************************************************)
EXTENDS TraceBase
VARIABLES drawn, objs, file
Range(s) == {s[i] : i \in DOMAIN s}
ByteAt(x, k) == SubSeq(x, 2 * k - 1, 2 * k)
New(what, xs) == Chk("fresh", Cardinality(Range(xs)) = Len(xs) /\ Range(xs) \cap drawn = {}, [what |-> what, count |-> Len(xs), again |-> Range(xs) \cap drawn])
(* Every byte takes (nearly) all values and no byte follows from another    *)
(* one; six bits of an identifier may be fixed (version, variant).          *)
Varied(xs, bytes, each, pair) ==
    /\ \A k \in 1..bytes : LET v == Cardinality({ByteAt(xs[i], k) : i \in DOMAIN xs}) IN
          Chk("every byte is random", v >= (IF bytes = 16 /\ k = 7 THEN 12 ELSE IF bytes = 16 /\ k = 9 THEN 48 ELSE each), [byte |-> k, values |-> v, of |-> Len(xs)])
    /\ \A k \in 2..bytes : \A j \in 1..(k - 1) : LET v == Cardinality({ByteAt(xs[i], j) \o ByteAt(xs[i], k) : i \in DOMAIN xs}) IN
          Chk("bytes are independent", v >= pair, [bytes |-> <<j, k>>, values |-> v, of |-> Len(xs)])
Init == Start /\ drawn = {} /\ objs = <<>> /\ file = [bad |-> FALSE, ids |-> <<>>]
At(p) == IF p \in DOMAIN objs THEN objs[p] ELSE <<>>
Put(p, v) == [x \in DOMAIN objs \cup {p} |-> IF x = p THEN v ELSE objs[x]]
Step(e) ==
    CASE e.e = "drawn" -> /\ New(e.what, e.ids) /\ drawn' = drawn \cup Range(e.ids) /\ UNCHANGED <<objs, file>>
      [] e.e = "varied" -> /\ Varied(e.ids, e.bytes, e.each, e.pair) /\ New("start sequences and identifiers", e.ids) /\ drawn' = drawn \cup Range(e.ids) /\ UNCHANGED <<objs, file>>
      [] e.e = "make" -> /\ New("new object", <<e.id>>) /\ drawn' = drawn \cup {e.id} /\ objs' = Put(e.p, Append(At(e.p), e.id)) /\ UNCHANGED file
      [] e.e = "set" -> /\ Eq("identifier set", e.got, e.id) /\ objs' = Put(e.p, [At(e.p) EXCEPT ![e.i] = e.id]) /\ UNCHANGED <<drawn, file>>
      [] e.e = "save" -> /\ Eq("outcome", e.out, "ok") /\ (e.fmt = "kdbx" => New("start sequence", <<e.start>>) /\ Chk("length", Len(e.start) = 64, [start |-> e.start]))
                         /\ Eq("identifiers in the file", e.ids, At(e.p))
                         /\ drawn' = drawn \cup {e.start} /\ file' = [bad |-> FALSE, ids |-> At(e.p)] /\ UNCHANGED objs
      [] e.e = "tamper" -> /\ file' = [file EXCEPT !.bad = TRUE] /\ UNCHANGED <<drawn, objs>>
      [] e.e = "load" -> /\ IF file.bad THEN Chk("wrong start sequence refused", e.out \notin {"ok", "crash", "hang", "null", "other"}, [out |-> e.out]) /\ UNCHANGED objs
                            ELSE Eq("outcome", e.out, "ok") /\ Eq("identifiers read", e.ids, file.ids) /\ objs' = Put(e.p, file.ids)
                         /\ UNCHANGED <<drawn, file>>
      [] e.e = "restart" -> objs' = Put(e.p, <<>>) /\ UNCHANGED <<drawn, file>>
      [] OTHER -> /\ Chk("wrong start sequence refused", \A i \in DOMAIN e.outs : e.outs[i] \notin {"ok", "crash", "hang", "null", "other"}, [outs |-> e.outs])
                  /\ UNCHANGED <<drawn, objs, file>>
Next == More /\ Advance /\ Step(Ev[l])
=============================================================================
