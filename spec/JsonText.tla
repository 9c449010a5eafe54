-------------------------------- MODULE JsonText ------------------------------
(***************************************************************************)
(* JSON texts (as bytes) and what they say: a scanner that yields tokens,  *)
(* and values built from them.  An object is the sequence of its members.  *)
(* A text that breaks the grammar has the value Bad.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC
Bad == [k |-> "bad"]
Digits == 48..57
Hexs == Digits \cup (65..70) \cup (97..102)
Nibble(b) == IF b \in Digits THEN b - 48 ELSE IF b >= 97 THEN b - 87 ELSE b - 55
Utf8(u) == IF u < 128 THEN <<u>> ELSE IF u < 2048 THEN <<192 + u \div 64, 128 + (u % 64)>>
           ELSE IF u < 65536 THEN <<224 + u \div 4096, 128 + ((u \div 64) % 64), 128 + (u % 64)>>
           ELSE <<240 + u \div 262144, 128 + ((u \div 4096) % 64), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
Esc == 34 :> 34 @@ 92 :> 92 @@ 47 :> 47 @@ 98 :> 8 @@ 102 :> 12 @@ 110 :> 10 @@ 114 :> 13 @@ 116 :> 9
-----------------------------------------------------------------------------
(* The scanner.  m: between tokens, in a string, after a backslash, in the  *)
(* four digits of a code, between the halves of a pair, in a number, dead.  *)
Idle == [m |-> "out", ts |-> <<>>, s |-> <<>>, u |-> 0, n |-> 0, hi |-> 0]
Punct == 123 :> "{" @@ 125 :> "}" @@ 91 :> "[" @@ 93 :> "]" @@ 58 :> ":" @@ 44 :> ","
Dead(a) == [a EXCEPT !.m = "dead"]
Out(a, b) ==
    IF b \in DOMAIN Punct THEN [a EXCEPT !.ts = Append(@, [k |-> "p", v |-> Punct[b]]), !.m = "out"]
    ELSE IF b \in {32, 9, 10, 13} THEN [a EXCEPT !.m = "out"]
    ELSE IF b = 34 THEN [a EXCEPT !.m = "str", !.s = <<>>]
    ELSE IF b \in Digits \cup {45} THEN [a EXCEPT !.m = "num", !.s = <<b>>]
    ELSE Dead(a)
(* Whole numbers only: nothing else is ever dumped.                         *)
IsNum(s) == LET d == IF s[1] = 45 THEN Tail(s) ELSE s IN Len(d) > 0 /\ (\A i \in 1..Len(d) : d[i] \in Digits) /\ (d[1] = 48 => Len(d) = 1)
EndNum(a) == IF IsNum(a.s) THEN [a EXCEPT !.m = "out", !.ts = Append(@, [k |-> "n", v |-> a.s])] ELSE Dead(a)
Code(a) ==
    IF a.hi # 0 THEN IF a.u \in 56320..57343 THEN [a EXCEPT !.m = "str", !.s = @ \o Utf8(65536 + (a.hi - 55296) * 1024 + (a.u - 56320)), !.hi = 0] ELSE Dead(a)
    ELSE IF a.u \in 55296..56319 THEN [a EXCEPT !.m = "low", !.hi = a.u]
    ELSE IF a.u \in 56320..57343 THEN Dead(a)
    ELSE [a EXCEPT !.m = "str", !.s = @ \o Utf8(a.u)]
Scan1(a, b) ==
    CASE a.m = "out" -> Out(a, b)
      [] a.m = "num" -> IF b \in Digits \cup {43, 45, 46, 69, 101} THEN [a EXCEPT !.s = Append(@, b)]
                        ELSE LET e == EndNum(a) IN IF e.m = "dead" THEN e ELSE Out(e, b)
      [] a.m = "str" -> IF b = 34 THEN [a EXCEPT !.m = "out", !.ts = Append(@, [k |-> "s", v |-> a.s])]
                        ELSE IF b = 92 THEN [a EXCEPT !.m = "esc"] ELSE IF b < 32 THEN Dead(a) ELSE [a EXCEPT !.s = Append(@, b)]
      [] a.m = "esc" -> IF b = 117 THEN [a EXCEPT !.m = "u", !.u = 0, !.n = 0]
                        ELSE IF b \in DOMAIN Esc THEN [a EXCEPT !.m = "str", !.s = Append(@, Esc[b])] ELSE Dead(a)
      [] a.m = "u" -> IF b \notin Hexs THEN Dead(a)
                      ELSE LET c == [a EXCEPT !.u = @ * 16 + Nibble(b), !.n = @ + 1] IN IF c.n = 4 THEN Code(c) ELSE c
      [] a.m = "low" -> IF b = 92 THEN [a EXCEPT !.m = "low2"] ELSE Dead(a)
      [] a.m = "low2" -> IF b = 117 THEN [a EXCEPT !.m = "u", !.u = 0, !.n = 0] ELSE Dead(a)
      [] OTHER -> a
Scan(text) == LET a == FoldLeft(Scan1, Idle, text) IN LET e == IF a.m = "num" THEN EndNum(a) ELSE a IN
              [ok |-> e.m = "out", ts |-> e.ts]
-----------------------------------------------------------------------------
(* Values: a stack of the objects and lists that are open.  x: what may     *)
(* come next.                                                               *)
P(t, v) == t.k = "p" /\ t.v = v
Top(st) == st[Len(st)]
Put(a, v) ==                              \* a value is complete
    IF a.st = <<>> THEN [a EXCEPT !.v = v, !.x = "end"]
    ELSE LET n == Len(a.st) IN
         IF a.st[n].k = "o" THEN [a EXCEPT !.st[n].m = Append(@, <<a.st[n].name, v>>), !.x = "more"]
         ELSE [a EXCEPT !.st[n].m = Append(@, v), !.x = "more"]
Close(a) == LET t == Top(a.st) b == [a EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)] IN Put(b, [k |-> t.k, m |-> t.m])
Open(a, k) == [a EXCEPT !.st = Append(@, [k |-> k, m |-> <<>>, name |-> <<>>]), !.x = IF k = "o" THEN "name1" ELSE "value1"]
Parse1(a, t) ==
    CASE a.x = "dead" -> a
      [] a.x \in {"value", "value1"} /\ t.k \in {"s", "n"} -> Put(a, t)
      [] a.x \in {"value", "value1"} /\ P(t, "{") -> Open(a, "o")
      [] a.x \in {"value", "value1"} /\ P(t, "[") -> Open(a, "a")
      [] a.x = "value1" /\ P(t, "]") -> Close(a)
      [] a.x = "name1" /\ P(t, "}") -> Close(a)
      [] a.x \in {"name1", "name"} /\ t.k = "s" -> [a EXCEPT !.st[Len(a.st)].name = t.v, !.x = "colon"]
      [] a.x = "colon" /\ P(t, ":") -> [a EXCEPT !.x = "value"]
      [] a.x = "more" /\ P(t, ",") -> [a EXCEPT !.x = IF Top(a.st).k = "o" THEN "name" ELSE "value"]
      [] a.x = "more" /\ P(t, "}") /\ Top(a.st).k = "o" -> Close(a)
      [] a.x = "more" /\ P(t, "]") /\ Top(a.st).k = "a" -> Close(a)
      [] OTHER -> [a EXCEPT !.x = "dead"]
Value(text) ==
    LET s == Scan(text) IN
    IF ~s.ok THEN Bad
    ELSE LET a == FoldLeft(Parse1, [st |-> <<>>, x |-> "value", v |-> Bad], s.ts) IN IF a.x = "end" THEN a.v ELSE Bad
=============================================================================
