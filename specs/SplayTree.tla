------------------------------ MODULE SplayTree -----------------------------
(* The self-adjusting tree behind the ordered map: top-down splaying, checked  *)
(* to refine the set of keys it stores.  Every transition is printed so that   *)
(* it can be replayed into the real map.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT N               \* keys 1 .. N may be stored, 0 .. N + 1 looked up

VARIABLES tree,          \* <<>> or <<left, key, right>>
          keys           \* the abstract contents
vars == <<tree, keys>>

Nil == <<>>
L(t) == t[1]
K(t) == t[2]
R(t) == t[3]

RECURSIVE HangL(_, _), HangR(_, _), Splay(_, _, _, _)
(* re-assemble the trees of smaller / larger nodes met on the way down         *)
HangL(ls, t) == IF ls = <<>> THEN t ELSE LET n == Head(ls) IN <<n[1], n[2], HangL(Tail(ls), t)>>
HangR(rs, t) == IF rs = <<>> THEN t ELSE LET n == Head(rs) IN <<HangR(Tail(rs), t), n[1], n[2]>>
Done(t, ls, rs) == <<HangL(ls, L(t)), K(t), HangR(rs, R(t))>>

Splay(k, t, ls, rs) ==
    IF k = K(t) THEN Done(t, ls, rs)
    ELSE IF k < K(t) THEN
        IF L(t) = Nil THEN Done(t, ls, rs)
        ELSE LET y == L(t) IN
             IF k < K(y) THEN
                 LET u == <<L(y), K(y), <<R(y), K(t), R(t)>>>> IN
                 IF L(u) = Nil THEN Done(u, ls, rs)
                 ELSE Splay(k, L(u), ls, Append(rs, <<K(u), R(u)>>))
             ELSE Splay(k, y, ls, Append(rs, <<K(t), R(t)>>))
    ELSE
        IF R(t) = Nil THEN Done(t, ls, rs)
        ELSE LET y == R(t) IN
             IF k > K(y) THEN
                 LET u == <<<<L(t), K(t), L(y)>>, K(y), R(y)>> IN
                 IF R(u) = Nil THEN Done(u, ls, rs)
                 ELSE Splay(k, R(u), Append(ls, <<L(u), K(u)>>), rs)
             ELSE Splay(k, y, Append(ls, <<L(t), K(t)>>), rs)

At(k, t) == IF t = Nil THEN Nil ELSE Splay(k, t, <<>>, <<>>)

InsertIn(k, t) ==
    IF t = Nil THEN <<Nil, k, Nil>>
    ELSE LET s == At(k, t) IN
         IF k = K(s) THEN s
         ELSE IF k < K(s) THEN <<L(s), k, <<Nil, K(s), R(s)>>>>
         ELSE <<<<L(s), K(s), Nil>>, k, R(s)>>
RemoveFrom(k, t) ==
    IF t = Nil THEN Nil
    ELSE LET s == At(k, t) IN
         IF k # K(s) THEN s
         ELSE IF L(s) = Nil THEN R(s)
         ELSE LET u == At(k, L(s)) IN <<L(u), K(u), R(s)>>

(* A neighbour query brings the key or a neighbour of it to the root; when that *)
(* is on the wrong side, the nearest key on the right side is brought to the   *)
(* top of that side, so that asking again is cheap.                            *)
NextIn(k, t) ==
    IF t = Nil THEN Nil
    ELSE LET s == At(k, t) IN
         IF k < K(s) \/ R(s) = Nil THEN s ELSE <<L(s), K(s), At(k, R(s))>>
PrevIn(k, t) ==
    IF t = Nil THEN Nil
    ELSE LET s == At(k, t) IN
         IF k > K(s) \/ L(s) = Nil THEN s ELSE <<At(k, L(s)), K(s), R(s)>>
(* what they answer: -1 if there is no such key                                *)
NextOf(k, s) ==
    IF s = Nil THEN -1 ELSE IF k < K(s) THEN K(s) ELSE IF R(s) = Nil THEN -1 ELSE K(R(s))
PrevOf(k, s) ==
    IF s = Nil THEN -1 ELSE IF k > K(s) THEN K(s) ELSE IF L(s) = Nil THEN -1 ELSE K(L(s))

RECURSIVE InOrder(_)
InOrder(t) == IF t = Nil THEN <<>> ELSE InOrder(L(t)) \o <<K(t)>> \o InOrder(R(t))

Emit(op, k) == PrintT("T|" \o ToString(tree) \o "|" \o op \o "|" \o ToString(k) \o "|" \o ToString(tree'))

Init == tree = Nil /\ keys = {}
Ins(k) == /\ tree' = InsertIn(k, tree) /\ keys' = keys \cup {k} /\ Emit("ins", k)
Rem(k) == /\ tree' = RemoveFrom(k, tree) /\ keys' = keys \ {k} /\ Emit("rem", k)
Get(k) == /\ tree' = At(k, tree) /\ UNCHANGED keys /\ Emit("get", k)
Nxt(k) == /\ tree' = NextIn(k, tree) /\ UNCHANGED keys /\ Emit("next", k)
Prv(k) == /\ tree' = PrevIn(k, tree) /\ UNCHANGED keys /\ Emit("prev", k)
Next == \/ \E k \in 1 .. N : Ins(k) \/ Rem(k)
        \/ \E k \in 0 .. N + 1 : Get(k) \/ Nxt(k) \/ Prv(k)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------------- *)
Sorted == \A i, j \in DOMAIN InOrder(tree) : i < j => InOrder(tree)[i] < InOrder(tree)[j]
Contents == LET q == InOrder(tree) IN keys = {q[i] : i \in DOMAIN q}
(* a lookup brings the key, or a neighbour of it, to the root                  *)
RootIsClosest ==
    tree # Nil => \A k \in 0 .. N + 1 :
        LET r == K(At(k, tree)) IN
        IF k \in keys THEN r = k ELSE \A j \in keys : ~((k < j /\ j < r) \/ (r < j /\ j < k))
Neighbours ==
    \A k \in 0 .. N + 1 :
        LET up == {j \in keys : j > k}   dn == {j \in keys : j < k}
        IN  /\ NextOf(k, NextIn(k, tree)) = IF up = {} THEN -1 ELSE CHOOSE j \in up : \A i \in up : j <= i
            /\ PrevOf(k, PrevIn(k, tree)) = IF dn = {} THEN -1 ELSE CHOOSE j \in dn : \A i \in dn : i <= j
=============================================================================
