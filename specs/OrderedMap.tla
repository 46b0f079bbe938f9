----------------------------- MODULE OrderedMap -----------------------------
(* The ordered map (and, with the value ignored, the ordered set).  Keys are   *)
(* compared by their number only; every stored key also carries a tag that     *)
(* tells which of several equal keys is the one being stored.                  *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES m,    \* function from the present keys to [tag, val]
          rev   \* the user's comparison is the reverse of the numeric one

mvars == <<m, rev>>

Dom == DOMAIN m
Before(a, b) == IF rev THEN a > b ELSE a < b
First(S) == CHOOSE k \in S : \A j \in S : j = k \/ Before(k, j)
Last(S) == CHOOSE k \in S : \A j \in S : j = k \/ Before(j, k)

Put(f, k, t, v) ==
    IF k \in DOMAIN f THEN [f EXCEPT ![k].val = v]      \* the key already stored stays
    ELSE [j \in DOMAIN f \cup {k} |-> IF j = k THEN [tag |-> t, val |-> v] ELSE f[j]]
Del(f, k) == [j \in DOMAIN f \ {k} |-> f[j]]
RECURSIVE PutAll(_, _)
PutAll(f, a) == IF a = <<>> THEN f ELSE PutAll(Put(f, a[1], a[2], a[3]), SubSeq(a, 4, Len(a)))

Val(k) == IF k \in Dom THEN <<m[k].val>> ELSE <<>>
Key(k) == <<k, m[k].tag>>
Pair(k) == <<k, m[k].tag, m[k].val>>
Bool(x) == <<IF x THEN 1 ELSE 0>>
After(k) == {j \in Dom : Before(k, j)}
Prior(k) == {j \in Dom : Before(j, k)}

(* The effect and the answer of every operation.                               *)
Effect(op, a) ==
    CASE op = "ins" -> Put(m, a[1], a[2], a[3])
      [] op = "extend" -> PutAll(m, a)
      [] op = "rem" -> Del(m, a[1])
      [] op \in {"clear", "drop", "iter"} -> [j \in {} |-> 0]
      [] op \in {"getmut", "indexmut"} -> IF a[1] \in Dom THEN [m EXCEPT ![a[1]].val = a[2]] ELSE m
      [] OTHER -> m

RECURSIVE Draw(_, _)
(* what a partly consumed, double ended iterator over the keys S hands out     *)
Draw(S, a) ==
    IF a = <<>> THEN <<>>
    ELSE LET n == Cardinality(S) IN
         IF S = {} THEN <<<<n, n, n>>>> \o Draw(S, Tail(a))
         ELSE LET k == IF a[1] = 0 THEN First(S) ELSE Last(S)
              IN  <<<<n, n, n>> \o Pair(k)>> \o Draw(S \ {k}, Tail(a))

RECURSIVE Looks(_)
Look(w, k) ==
    CASE w = 0 -> Val(k)
      [] w = 1 -> IF k \in Dom THEN Key(k) ELSE <<>>
      [] w = 2 -> IF After(k) = {} THEN <<>> ELSE Pair(First(After(k)))
      [] w = 3 -> IF Prior(k) = {} THEN <<>> ELSE Pair(Last(Prior(k)))
Looks(a) == IF a = <<>> THEN <<>> ELSE <<Look(a[1], a[2])>> \o Looks(SubSeq(a, 3, Len(a)))

Answer(op, a) ==
    CASE op \in {"ins", "rem", "get", "getmut", "index", "indexmut"} -> Val(a[1])
      [] op = "find" -> Look(1, a[1])
      [] op = "contains" -> Bool(a[1] \in Dom)
      [] op = "next" -> Look(2, a[1])
      [] op = "prev" -> Look(3, a[1])
      [] op = "min" -> IF Dom = {} THEN <<>> ELSE Key(First(Dom))
      [] op = "max" -> IF Dom = {} THEN <<>> ELSE Key(Last(Dom))
      [] op = "len" -> <<Cardinality(Dom)>>
      [] op = "empty" -> Bool(Dom = {})
      [] op = "refs" -> Looks(a)
      [] op = "iter" -> Draw(Dom, a)
      [] OTHER -> <<>>

(* the same answer as the set gives it: no values, insertion and removal say   *)
(* whether they changed anything                                               *)
Strip(q) == IF Len(q) = 3 THEN SubSeq(q, 1, 2) ELSE q
SetLook(w, k) == IF w < 2 THEN Look(1, k) ELSE Strip(Look(w, k))
RECURSIVE SetLooks(_)
SetLooks(a) == IF a = <<>> THEN <<>> ELSE <<SetLook(a[1], a[2])>> \o SetLooks(SubSeq(a, 3, Len(a)))
SetAnswer(op, a) ==
    CASE op = "ins" -> Bool(a[1] \notin Dom)
      [] op = "rem" -> Bool(a[1] \in Dom)
      [] op \in {"next", "prev"} -> Strip(Answer(op, a))
      [] op = "refs" -> SetLooks(a)
      [] op = "iter" -> LET D == Draw(Dom, a) IN [i \in DOMAIN D |-> SubSeq(D[i], 1, IF Len(D[i]) = 6 THEN 5 ELSE 3)]
      [] OTHER -> Answer(op, a)

Operate(op, a) == m' = Effect(op, a) /\ UNCHANGED rev
(* An operation in which the user's comparison panicked has had no effect.     *)
Refuse == UNCHANGED mvars
=============================================================================
