----------------------------- MODULE SplayPanics ----------------------------
(* The tree of SplayTree when the user's comparison may panic at any of the    *)
(* places where it is asked: whatever had been taken apart by then is put      *)
(* together again, and nothing is lost.  Every transition is printed so that   *)
(* it can be replayed into the real collection.                                *)
EXTENDS SplayTree

CONSTANT Flaw    \* "" or a way not to put things together

(* The tree left behind when the comparison panics instead of answering for    *)
(* the (j+1)-st time while t is searched for k; Whole if it is not asked that  *)
(* often.  `t' is the sub-tree being looked at, `ls' and `rs' what was taken   *)
(* off on the way down; a child is only detached after it has been compared.   *)
Whole == <<"whole">>
Rest(t, ls, rs) ==
    CASE Flaw = "detached" -> t                            \* what was taken off is dropped
      [] Flaw = "one-side" -> Done(t, ls, <<>>)
      [] OTHER -> Done(t, ls, rs)
RECURSIVE Cut(_, _, _, _, _)
Cut(j, k, t, ls, rs) ==
    IF j = 0 THEN Rest(t, ls, rs)
    ELSE LET found == Done(t, ls, rs)
             last(x, i) == IF i = 0 THEN x ELSE Whole      \* compared with the root once more
         IN
    IF k = K(t) THEN last(found, j - 1)
    ELSE IF k < K(t) THEN
        IF L(t) = Nil THEN last(found, j - 1)
        ELSE IF j = 1 THEN (IF Flaw = "child" THEN Rest(<<Nil, K(t), R(t)>>, ls, rs) ELSE Rest(t, ls, rs))
        ELSE LET y == L(t) IN
             IF k < K(y) THEN
                 LET u == <<L(y), K(y), <<R(y), K(t), R(t)>>>> IN
                 IF L(u) = Nil THEN last(Done(u, ls, rs), j - 2)
                 ELSE Cut(j - 2, k, L(u), ls, Append(rs, <<K(u), R(u)>>))
             ELSE Cut(j - 2, k, y, ls, Append(rs, <<K(t), R(t)>>))
    ELSE
        IF R(t) = Nil THEN last(found, j - 1)
        ELSE IF j = 1 THEN Rest(t, ls, rs)
        ELSE LET y == R(t) IN
             IF k > K(y) THEN
                 LET u == <<<<L(t), K(t), L(y)>>, K(y), R(y)>> IN
                 IF R(u) = Nil THEN last(Done(u, ls, rs), j - 2)
                 ELSE Cut(j - 2, k, R(u), Append(ls, <<L(u), K(u)>>), rs)
             ELSE Cut(j - 2, k, y, Append(ls, <<L(t), K(t)>>), rs)

Asked == 0 .. 2 * N + 1
(* insertion, removal, lookup and neighbour queries ask the same questions:    *)
(* what follows the search is done without asking                              *)
Refused(op, k, j) ==
    /\ tree # Nil
    /\ LET t == Cut(j, k, tree, <<>>, <<>>) IN t # Whole /\ tree' = t
    /\ UNCHANGED keys
    /\ Emit(op \o "@" \o ToString(j), k)

NextP == \/ Next
         \/ \E k \in 1 .. N, op \in {"ins", "rem"}, j \in Asked : Refused(op, k, j)
         \/ \E k \in 0 .. N + 1, op \in {"get", "next", "prev"}, j \in Asked : Refused(op, k, j)
SpecP == Init /\ [][NextP]_vars
=============================================================================
