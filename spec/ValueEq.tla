------------------------------ MODULE ValueEq -------------------------------
(***************************************************************************)
(* When two objects of a tree are equal.  An object is its record; parts   *)
(* shared with others (custom icon, last visible entry) are references:    *)
(* to the same object they are equal, none and some are not, and to two    *)
(* objects of different content they are not.  What remains - two objects  *)
(* of the same content - is left open.  How a binary is to be stored       *)
(* (compressed, shared) is no part of it.                                  *)
(* by = "same" names references by their object, by = "deep" by their      *)
(* content; h is the database, icons its icons.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

IconNo(r) == CHOOSE k \in 1..100 : r = "i:" \o ToString(k - 1)
Icon(r, h, icons, by) == IF r = "none" THEN "none" ELSE IF by = "same" \/ SubSeq(r, 1, 2) # "i:" THEN "at " \o h \o r ELSE icons[IconNo(r)].data
Last(r, h, by) == IF r = "none" THEN "none" ELSE IF by = "same" THEN "at " \o h \o r ELSE "some"
Bin(a) == [name |-> a.name, bin |-> IF a.bin = "null" THEN "none" ELSE "some", data |-> a.data]
RECURSIVE Entry(_, _, _, _)
Entry(e, h, icons, by) ==
    [e EXCEPT !.cicon = Icon(@, h, icons, by), !.att = [i \in 1..Len(@) |-> Bin(@[i])], !.hist = [i \in 1..Len(@) |-> Entry(@[i], h, icons, by)]]
RECURSIVE Group(_, _, _, _)
Group(g, h, icons, by) ==
    [g EXCEPT !.cicon = Icon(@, h, icons, by), !.last = Last(@, h, by), !.groups = [i \in 1..Len(@) |-> Group(@[i], h, icons, by)],
              !.entries = [i \in 1..Len(@) |-> Entry(@[i], h, icons, by)]]
Of(t, x, by) ==
    CASE t = "group" -> Group(x.v, x.h, x.icons, by)
      [] t = "entry" -> Entry(x.v, x.h, x.icons, by)
      [] t = "att" -> Bin(x.v)
      [] t \in {"bin", "icon"} -> x.v.data
      [] OTHER -> x.v
(* "true", "false" or "open".                                               *)
Equal(t, x, y) == IF Of(t, x, "deep") # Of(t, y, "deep") THEN "false" ELSE IF Of(t, x, "same") = Of(t, y, "same") THEN "true" ELSE "open"
=============================================================================
