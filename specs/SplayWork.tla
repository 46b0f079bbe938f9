------------------------------ MODULE SplayWork -----------------------------
(* What the calls on the tree of SplayTree cost: how often the user's          *)
(* comparison is asked.  Two readings of "amortised logarithmic" are checked:  *)
(* - over all trees of few keys, no call costs more than its share once the    *)
(*   change of a potential is added to it (so that no history of any length    *)
(*   does);                                                                    *)
(* - over long histories on many keys, made to keep paths deep, what was asked *)
(*   stays below what is due.                                                  *)
EXTENDS SplayTree

CONSTANTS Flaw,     \* "" or a slower tree
          Long      \* the long histories, or all trees

VARIABLES asked, due,     \* comparisons asked so far, and allowed so far
          hist, i         \* the history being run, and the position in it
wvars == <<tree, keys, asked, due, hist, i>>

RECURSIVE Lg(_), Slow(_, _, _, _), Depth(_, _), Down(_, _)
Lg(n) == IF n <= 0 THEN 0 ELSE 1 + Lg(n \div 2)       \* number of binary digits

(* comparisons asked by a search for k                                         *)
Depth(k, t) ==
    IF k = K(t) THEN 1
    ELSE LET a == IF k < K(t) THEN L(t) ELSE R(t) IN
         IF a = Nil THEN 1
         ELSE LET b == IF k < K(t) THEN L(a) ELSE R(a) IN
              IF Flaw # "no-rotate" /\ (k < K(t)) = (k < K(a)) /\ k # K(a)
              THEN (IF b = Nil THEN 2 ELSE 2 + Depth(k, b))
              ELSE (IF Flaw = "no-rotate" THEN 1 ELSE 2) + Depth(k, a)
(* splaying without rotations                                                  *)
Slow(k, t, ls, rs) ==
    IF k = K(t) THEN Done(t, ls, rs)
    ELSE IF k < K(t) THEN
        IF L(t) = Nil THEN Done(t, ls, rs) ELSE Slow(k, L(t), ls, Append(rs, <<K(t), R(t)>>))
    ELSE IF R(t) = Nil THEN Done(t, ls, rs) ELSE Slow(k, R(t), Append(ls, <<L(t), K(t)>>), rs)
SplayW(k, t) == IF Flaw = "no-rotate" THEN Slow(k, t, <<>>, <<>>) ELSE At(k, t)

(* comparisons asked when the neighbour is found by walking down a side        *)
Down(k, t) == IF t = Nil THEN 0 ELSE 1 + Down(k, IF k < K(t) THEN L(t) ELSE R(t))

(* the tree after a call on t, which splaying has made s; and what it asks     *)
(* (values used more than once are bound: TLC works them out once that way)    *)
Only(S) == CHOOSE x \in S : TRUE
After(op, k, t, s) ==
    IF t = Nil THEN (IF op = "ins" THEN <<Nil, k, Nil>> ELSE Nil) ELSE
    CASE op = "ins" -> (IF k = K(s) THEN s
                        ELSE IF k < K(s) THEN <<L(s), k, <<Nil, K(s), R(s)>>>>
                        ELSE <<<<L(s), K(s), Nil>>, k, R(s)>>)
      [] op = "rem" -> (IF k # K(s) THEN s
                        ELSE IF L(s) = Nil THEN R(s)
                        ELSE Only({<<L(u), K(u), R(s)>> : u \in {SplayW(k, L(s))}}))
      [] op = "next" -> (IF k < K(s) \/ R(s) = Nil \/ Flaw = "walk" THEN s
                         ELSE <<L(s), K(s), SplayW(k, R(s))>>)
      [] op = "prev" -> (IF k > K(s) \/ L(s) = Nil \/ Flaw = "walk" THEN s
                         ELSE <<SplayW(k, L(s)), K(s), R(s)>>)
      [] OTHER -> IF Flaw = "at-rest" THEN t ELSE s          \* lookups that do not rearrange
Asks(op, k, t, s) ==
    IF t = Nil THEN 0
    ELSE Depth(k, t) + (IF op = "next" /\ Flaw = "walk" THEN Down(k, s) ELSE 1)
Searched(k, t) == IF t = Nil THEN Nil ELSE SplayW(k, t)

Share(n) == 4 * (Lg(n) + 1)
Amply(n) == 6 * (Lg(n) + 1)    \* (few keys leave a constant more)

(* ------------------------------------------------- all trees of few keys --- *)
(* a thousand times the logarithm to the base two, rounded                     *)
Log == <<0, 1000, 1585, 2000, 2322, 2585, 2807, 3000, 3170, 3322>>
RECURSIVE Size(_), Potential(_)
Size(t) == IF t = Nil THEN 0 ELSE Size(L(t)) + 1 + Size(R(t))
Potential(t) == IF t = Nil THEN 0 ELSE 2 * Log[Size(t)] + Potential(L(t)) + Potential(R(t))
Amortised ==
    ~Long => \A op \in {"ins", "rem", "get", "next", "prev"}, k \in 0 .. N + 1 :
        \A s \in {Searched(k, tree)} : \A u \in {After(op, k, tree, s)} :
            1000 * Asks(op, k, tree, s) + Potential(u) - Potential(tree)
                <= 1000 * Amply(IF Size(u) > Size(tree) THEN Size(u) ELSE Size(tree))

(* --------------------------------------------------------- long histories --- *)
Order(o) == CASE o = "up" -> [j \in 1 .. N |-> j]
              [] o = "down" -> [j \in 1 .. N |-> N + 1 - j]
              [] o = "inward" -> [j \in 1 .. N |-> IF j % 2 = 1 THEN (j + 1) \div 2 ELSE N + 1 - j \div 2]
              [] o = "strided" -> [j \in 1 .. N |-> ((j * 7) % (N + 1))]      \* N + 1 is no multiple of 7
              [] o = "first" -> [j \in 1 .. N |-> 1]
              [] o = "last" -> [j \in 1 .. N |-> N]
              [] o = "ends" -> [j \in 1 .. N |-> IF j % 2 = 1 THEN 1 ELSE N]
(* the keys are put in in one of the orders, then something is asked twice     *)
Builds == {"up", "down", "inward", "strided"}
Walks == {"get", "next", "prev", "rem"} \X {"up", "down", "strided", "first", "last", "ends"}
(* the j-th call of a history <<build, <<op, walk>>>>                          *)
CallAt(h, j) ==
    IF j <= N THEN <<"ins", Order(h[1])[j]>>
    ELSE <<h[2][1], Order(h[2][2])[((j - 1) % N) + 1]>>

InitW == /\ Init /\ asked = 0 /\ due = 0 /\ i = 0
         /\ hist \in IF Long THEN Builds \X Walks ELSE {<<>>}
Effect(op, k, s) ==
    /\ tree' = After(op, k, tree, s)
    /\ keys' = (CASE op = "ins" -> keys \cup {k} [] op = "rem" -> keys \ {k} [] OTHER -> keys)
Call == /\ Long /\ i < 3 * N /\ i' = i + 1
        /\ \E q \in {CallAt(hist, i + 1)} : \E s \in {Searched(q[2], tree)} :
            /\ Effect(q[1], q[2], s)
            /\ asked' = asked + Asks(q[1], q[2], tree, s)
        /\ due' = due + Share(Cardinality(keys \cup keys'))
        /\ UNCHANGED hist
AnyCall == /\ ~Long /\ UNCHANGED <<asked, due, hist, i>>
           /\ \E op \in {"ins", "rem", "get", "next", "prev"}, k \in 0 .. N + 1 :
                /\ op = "ins" => k \in 1 .. N
                /\ \E s \in {Searched(k, tree)} : Effect(op, k, s)
NextW == Call \/ AnyCall
SpecW == InitW /\ [][NextW]_wvars

Affordable == asked <= due
=============================================================================
