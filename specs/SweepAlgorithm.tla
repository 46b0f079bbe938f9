--------------------------- MODULE SweepAlgorithm ---------------------------
(* The plane sweep as it is designed: a heap of end point events, a sequence   *)
(* of active pieces ordered by height, pieces that are cut where neighbours    *)
(* meet, and chains of coincident pieces led by the one that is active.        *)
(* Checked to refine Crossings and Intersections for every input of a scope    *)
(* and for every order in which the heap may hand out equal events, an order   *)
(* that depends on the history of the heap and that no caller controls.        *)
EXTENDS Crossings, SegmentOrder, TLC

CONSTANTS W, H,    \* inputs are drawn from a W x H grid
          K,       \* number of inputs
          Scale,   \* distance of neighbouring grid points (makes every crossing a lattice point)
          Flaw     \* "" or a step of the design left out, to see that it is needed

VARIABLES st,      \* the state of the algorithm
          seen     \* pairs of inputs reported so far
avars == <<inp, verts, on, open, st, seen>>

Pairs == INSTANCE Intersections WITH verts <- UNION {on[i] : i \in DOMAIN on}

(* ---- state -----------------------------------------------------------------*)
(* segs: key -> piece (None where the key is free); free: recycled keys, last   *)
(* freed first; ev: bag of pending events; act: active keys from low to high;   *)
(* at, out: current point and the reports there; err: "" or the assertion that failed      *)
None == 0
Piece(i, g, first) == [g |-> g, id |-> i, first |-> first, ovl |-> None, child |-> FALSE, done |-> FALSE]
Gone == [id |-> 0]
Live(S, k) == k \in DOMAIN S.segs /\ S.segs[k].id # 0

Push(ev, e) == IF e \in DOMAIN ev THEN [ev EXCEPT ![e] = @ + 1] ELSE ev @@ (e :> 1)
Drop(ev, e) == IF ev[e] > 1 THEN [ev EXCEPT ![e] = @ - 1] ELSE [f \in DOMAIN ev \ {e} |-> ev[f]]

(* kinds of events in the order they are handled at a point                    *)
PL == 1  LR == 2  LL == 3  PR == 4
EvLt(e, f) == Lt(e[1], f[1]) \/ (e[1] = f[1] /\ e[2] < f[2] /\ Flaw # "any-kind-first")
Tops(S) == {e \in DOMAIN S.ev : \A f \in DOMAIN S.ev : ~EvLt(f, e)}
Here(S) == IF DOMAIN S.ev = {} THEN <<>> ELSE (CHOOSE e \in Tops(S) : TRUE)[1]

PushEvents(ev, k, g) ==
    IF IsPoint(g) THEN Push(Push(ev, <<g[1], PL, k>>), <<g[1], PR, k>>)
    ELSE Push(Push(ev, <<g[1], LL, k>>), <<g[2], LR, k>>)

Alloc(S) == IF S.free = <<>> THEN Len(S.segs) + 1 ELSE S.free[Len(S.free)]
Put(S, k, piece) ==
    IF k > Len(S.segs) THEN [S EXCEPT !.segs = Append(@, piece)]
    ELSE [S EXCEPT !.segs[k] = piece, !.free = SubSeq(@, 1, Len(@) - 1)]
Free(S, k) == [S EXCEPT !.segs[k] = Gone, !.free = Append(@, k)]
Fail(S, e) == IF S.err = "" THEN [S EXCEPT !.err = e] ELSE S

(* ---- the order of active pieces ---------------------------------------------*)
Low(s, t) ==        \* s is ordered below t, as far as their geometry tells
    IF IsPoint(s) THEN Orient(t[1], t[2], s[1]) <= 0
    ELSE IF IsPoint(t) THEN Orient(s[1], s[2], t[1]) > 0
    ELSE LineCmp(s, t) = "lt"
Same(s, t) == ~IsPoint(s) /\ ~IsPoint(t) /\ LineCmp(s, t) = "eq"
Below(S, a, b) ==
    LET s == S.segs[a].g  t == S.segs[b].g IN
    Low(s, t) \/ (Same(s, t) /\ a < b)
Within(p, s) == Le(s[1], p) /\ Le(p, s[2])
MayCompare(s, t) ==
    IF IsPoint(s) THEN Within(s[1], t) ELSE IF IsPoint(t) THEN Within(t[1], s) ELSE Comparable(s, t)

Count(S, k) == Cardinality({j \in DOMAIN S.act : S.act[j] # k /\ Below(S, S.act[j], k)})
Prev(S, k) == LET n == Count(S, k) IN IF n = 0 THEN None ELSE S.act[n]
Succ(S, k) ==
    LET n == Count(S, k)
        m == IF n < Len(S.act) /\ S.act[n + 1] = k THEN n + 2 ELSE n + 1
    IN  IF m > Len(S.act) THEN None ELSE S.act[m]
Activate(S, k) == LET n == Count(S, k) IN
    [S EXCEPT !.act = SubSeq(@, 1, n) \o <<k>> \o SubSeq(@, n + 1, Len(@))]
Deactivate(S, k) == [S EXCEPT !.act = SelectSeq(@, LAMBDA x : x # k)]
(* every comparison a search for k might make is defined                       *)
Comparisons(S, k) == \A j \in DOMAIN S.act : S.act[j] = k \/ MayCompare(S.segs[k].g, S.segs[S.act[j]].g)

(* ---- cutting ------------------------------------------------------------------*)
RECURSIVE Chained(_, _), Copies(_, _, _, _)
Chained(S, k) == IF k = None THEN <<>> ELSE <<k>> \o Chained(S, S.segs[k].ovl)

(* copies of the followers of a parent are chained behind the new piece tgt    *)
Copies(S, followers, tgt, g) ==
    IF followers = <<>> THEN S
    ELSE LET k == Alloc(S)
             S1 == Put(S, k, [Piece(S.segs[Head(followers)].id, g, FALSE) EXCEPT !.child = TRUE])
         IN  Copies([S1 EXCEPT !.segs[tgt].ovl = k], Tail(followers), k, g)

Create(S, i, g, parent) ==
    LET k == Alloc(S)
        S1 == Put(S, k, Piece(i, g, FALSE))
        S2 == [S1 EXCEPT !.ev = PushEvents(@, k, g)]
    IN  [S |-> IF Flaw = "no-copies" THEN S2 ELSE Copies(S2, Tail(Chained(S2, parent)), k, g), k |-> k]

(* piece k becomes g: its right end moves left, also for its followers         *)
Shorten(S, k, g) ==
    LET ks == {x \in DOMAIN S.segs : \E j \in DOMAIN Chained(S, k) : Chained(S, k)[j] = x}
        S1 == [S EXCEPT !.segs = [x \in DOMAIN S.segs |-> IF x \in ks THEN [S.segs[x] EXCEPT !.g = g] ELSE S.segs[x]]]
    IN  [S1 EXCEPT !.segs[k].first = FALSE, !.ev = Push(@, <<g[2], LR, k>>)]

(* piece k is cut where it meets another one, in the extreme points M; k of    *)
(* the result is the part that coincides with the other, if any                *)
Cut(S, k, M) ==
    LET g == S.segs[k].g  p == g[1]  q == g[2]  i == S.segs[k].id
        r1 == MinPt(M)  r2 == MaxPt(M)
    IN  IF r1 = r2
        THEN IF p = r1 \/ q = r1 THEN [S |-> S, k |-> None]
             ELSE [S |-> Create(Shorten(S, k, <<p, r1>>), i, <<r1, q>>, k).S, k |-> None]
        ELSE IF p = r1
        THEN IF r2 = q THEN [S |-> S, k |-> k]
             ELSE [S |-> Create(Shorten(S, k, <<p, r2>>), i, <<r2, q>>, k).S, k |-> k]
        ELSE IF r2 = q THEN Create(Shorten(S, k, <<p, r1>>), i, <<r1, q>>, k)
        ELSE LET S1 == Create(Shorten(S, k, <<p, r1>>), i, <<r2, q>>, k).S
             IN  Create(S1, i, <<r1, r2>>, k)

Chain(S, src, tgt) ==
    LET c == Chained(S, src) IN
    [S EXCEPT !.segs[c[Len(c)]].ovl = tgt, !.segs[tgt].child = TRUE]

(* ---- handling an event ----------------------------------------------------------*)
Report(S, k, left) ==
    LET s == S.segs[k] IN
    [id |-> s.id, line |-> s.g, isline |-> ~IsPoint(s.g), first |-> s.first, ovl |-> s.ovl # None, left |-> left]

RECURSIVE Reports(_, _, _), FreeAll(_, _), MarkDone(_, _)
Reports(S, ks, left) == IF ks = <<>> THEN <<>> ELSE <<Report(S, Head(ks), left)>> \o Reports(S, Tail(ks), left)
FreeAll(S, ks) == IF ks = <<>> THEN S ELSE FreeAll(Free(S, Head(ks)), Tail(ks))
MarkDone(S, ks) == IF ks = <<>> THEN S ELSE MarkDone([S EXCEPT !.segs[Head(ks)].done = TRUE], Tail(ks))

(* an end event is stale if its piece is gone, was cut short, or follows       *)
Stale(S, e) == \/ ~Live(S, e[3])
               \/ S.segs[e[3]].child /\ Flaw # "followers-end-too"
               \/ IsPoint(S.segs[e[3]].g) \/ S.segs[e[3]].g[2] # e[1]

End(S, k) ==
    LET prev == Prev(S, k)  next == Succ(S, k)
        chain == Chained(S, k)
        S0 == IF k \in {S.act[j] : j \in DOMAIN S.act} THEN S ELSE Fail(S, "end-not-active")
        S1 == Deactivate([S0 EXCEPT !.out = @ \o Reports(S, chain, FALSE)], k)
        S2 == FreeAll(S1, chain)
        M == IF prev = None \/ next = None \/ Flaw = "no-test-on-removal" THEN {} ELSE Meet(S.segs[prev].g, S.segs[next].g)
    IN  IF M = {} THEN S2
        ELSE LET a == Cut(S2, prev, M)
                 b == Cut(a.S, next, M)
             IN  IF a.k # None \/ b.k # None THEN Fail(b.S, "overlap-after-removal") ELSE b.S

(* the start of piece k meets its neighbour adj.  The result says whether to   *)
(* go on ("go"), to leave k out of the active pieces ("follow": its leader has *)
(* been reported already), or to leave k to its leader altogether ("wait")     *)
StartAt(S, k, adj) ==
    LET M == IF adj = None THEN {} ELSE Meet(S.segs[k].g, S.segs[adj].g) IN
    IF M = {} THEN [S |-> S, then |-> "go"]
    ELSE
    LET a == Cut(S, adj, M)
        p == MinPt(M)
        \* the neighbour was cut right here, so that its first part ends before k starts
        closing == Flaw # "no-early-end" /\ p # a.S.segs[adj].g[1] /\ p = S.segs[k].g[1]
        e == CHOOSE e \in Tops(a.S) : TRUE
        S1 == IF ~closing THEN a.S
              ELSE LET S2 == [a.S EXCEPT !.ev = Drop(@, e)] IN
                   IF e = <<p, LR, adj>> /\ ~Stale(S2, e) THEN End(S2, adj) ELSE Fail(S2, "not-the-end-event")
        b == Cut(S1, k, M)
    IN  IF (a.k = None) # (b.k = None) THEN [S |-> Fail(b.S, "one-sided-overlap"), then |-> "go"]
        ELSE IF a.k = None THEN [S |-> b.S, then |-> "go"]
        ELSE LET S3 == Chain(b.S, a.k, b.k) IN
             IF b.k # k THEN [S |-> S3, then |-> "go"]
             ELSE [S |-> S3, then |-> IF S3.segs[a.k].done \/ Flaw = "never-wait" THEN "follow" ELSE "wait"]

Enter(S, k, add) ==
    LET S1 == IF add THEN Activate(S, k) ELSE S
        chain == Chained(S1, k)
    IN  MarkDone([S1 EXCEPT !.out = @ \o Reports(S1, chain, TRUE)], chain)

Start(S, k) ==
    LET prev == Prev(S, k)  next == Succ(S, k)
        a == StartAt(S, k, prev)
    IN  CASE a.then = "wait" -> a.S
          [] a.then = "follow" -> Enter(a.S, k, FALSE)
          [] OTHER -> LET b == StartAt(a.S, k, next) IN
                      CASE b.then = "wait" -> b.S
                        [] b.then = "follow" -> Enter(b.S, k, FALSE)
                        [] OTHER -> Enter(b.S, k, TRUE)

CutBy(S, k, adj) ==
    LET M == IF adj = None THEN {} ELSE Meet(S.segs[k].g, S.segs[adj].g) IN
    IF M = {} THEN S ELSE Cut(S, adj, M).S
Alone(S, k) ==
    LET S1 == CutBy(CutBy(S, k, Prev(S, k)), k, Succ(S, k)) IN
    [S1 EXCEPT !.out = Append(@, Report(S, k, FALSE))]

Handle(S, e) ==
    LET k == e[3] IN
    IF e[2] = PR THEN S
    ELSE IF e[2] = LR /\ Stale(S, e) THEN S
    ELSE IF ~Live(S, k) \/ (e[2] = LL /\ S.segs[k].g[1] # e[1]) THEN Fail(S, "event-without-piece")
    ELSE IF ~Comparisons(S, k) THEN Fail(S, "incomparable")
    ELSE CASE e[2] = LR -> End(S, k)
           [] e[2] = LL -> Start(S, k)
           [] e[2] = PL -> Alone(S, k)

(* ---- the pairs reported at a point ---------------------------------------------*)
RECURSIVE AllMarked(_, _, _)
AllMarked(rs, i, j) == i = j \/ (rs[i].ovl /\ AllMarked(rs, i + 1, j))
PairsAt(rs) ==
    LET IJ == {ij \in (DOMAIN rs) \X (DOMAIN rs) : ij[1] < ij[2]}
        new(r) == ~r.left \/ r.first
        due(ij) == LET a == rs[ij[1]]  b == rs[ij[2]] IN
                   IF AllMarked(rs, ij[1], ij[2]) THEN a.left /\ (a.first \/ b.first)
                   ELSE new(a) /\ new(b)
    IN  {ij \in IJ : due(ij)}

(* ---- behaviour ---------------------------------------------------------------------*)
Grid == {<<x * Scale, y * Scale>> : x \in 0 .. W - 1, y \in 0 .. H - 1}
Shapes == {pq \in Grid \X Grid : Le(pq[1], pq[2])}
RECURSIVE Fill(_, _)
Fill(S, todo) ==
    IF todo = <<>> THEN S
    ELSE LET k == Len(S.segs) + 1 IN
         Fill([S EXCEPT !.segs = Append(@, Piece(k, Head(todo), TRUE)), !.ev = PushEvents(@, k, Head(todo))], Tail(todo))
Empty == [segs |-> <<>>, free |-> <<>>, ev |-> <<>>, act |-> <<>>, out |-> <<>>, at |-> <<>>, err |-> ""]

Init == /\ inp \in [1 .. K -> Shapes]
        /\ \A i \in 1 .. K - 1 : Le(inp[i][1], inp[i + 1][1])
        /\ verts = {} /\ on = <<>> /\ open = <<>>
        /\ st = Empty /\ seen = {}

Load == /\ st.segs = <<>>
        /\ LoadInput(inp)
        /\ \E S \in {Fill(Empty, inp)} : st' = S
        /\ UNCHANGED seen

Pending(S) == DOMAIN S.ev # {}
Handled(S) == S.at # <<>> /\ Here(S) # S.at       \* the current point has been handled

(* the next event at the current point, any of those the heap may hand out     *)
Event == /\ st.segs # <<>> /\ Pending(st) /\ ~Handled(st) /\ st.err = ""
         /\ \E e \in Tops(st) :
            \E S \in {Handle([st EXCEPT !.ev = Drop(@, e), !.at = e[1]], e)} : st' = S
         /\ UNCHANGED <<inp, verts, on, open, seen>>

PairOf(ij) == {st.out[ij[1]].id, st.out[ij[2]].id}
Visit == /\ Handled(st) /\ st.err = ""
         /\ Yield(st.at)
         /\ seen' = seen \cup {PairOf(ij) : ij \in PairsAt(st.out)}
         /\ st' = [st EXCEPT !.at = <<>>, !.out = <<>>]

Next == Load \/ Event \/ Visit
Spec == Init /\ [][Next]_avars

(* ---- what is checked ---------------------------------------------------------------*)
Sound == st.err = ""
(* what is reported at a point is what Crossings promises there                *)
Refines == Handled(st) => YieldOK(st.at, st.out)
(* the pairs are the ones Intersections allows, and none is missing            *)
PairsRefine == Handled(st) =>
    \A ij \in PairsAt(st.out) :
        /\ Cardinality(PairOf(ij)) = 2 /\ Pairs!MeetOf(PairOf(ij)) # {}
        /\ Pairs!Plain(PairOf(ij)) =>
              /\ PairOf(ij) \notin seen
              /\ \A hk \in PairsAt(st.out) : PairOf(hk) = PairOf(ij) => hk = ij
Ending == (st.segs # <<>> /\ ~Pending(st) /\ st.at = <<>>) => Finished /\ Pairs!Missing = {} /\ st.act = <<>>
(* the sequence of active pieces is sorted, whatever has been cut              *)
Sorted == \A i, j \in DOMAIN st.act : (i < j /\ MayCompare(st.segs[st.act[i]].g, st.segs[st.act[j]].g))
              => Below(st, st.act[i], st.act[j])
(* no active piece has a follower that is active, and followers coincide       *)
Chains == \A j \in DOMAIN st.act :
              LET c == Chained(st, st.act[j]) IN
              \A k \in 2 .. Len(c) : /\ st.segs[c[k]].g = st.segs[c[1]].g
                                     /\ st.segs[c[k]].child
                                     /\ \A m \in DOMAIN st.act : st.act[m] # c[k]
=============================================================================
