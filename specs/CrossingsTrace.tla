--------------------------- MODULE CrossingsTrace ---------------------------
(* Validates recorded runs of the crossings iterator against Crossings, one    *)
(* step per yielded point.  GX_WHAT: "points" judges the points, "pieces" the  *)
(* reports at each point as well, "flags" the flags of the reports.            *)
EXTENDS Crossings, Verdicts

VARIABLES c,   \* which recorded run
          l,   \* next recorded step
          bad  \* "" or why the run was rejected

tvars == <<vars, c, l, bad>>

Norm(s) == Seg(<<s[1], s[2]>>, <<s[3], s[4]>>)
Rep(r) == [id |-> r[1], line |-> <<<<r[2], r[3]>>, <<r[4], r[5]>>>>,
           first |-> r[6] = 1, ovl |-> r[7] = 1, left |-> r[8] = 1, isline |-> r[9] = 1]

(* The input is loaded in a step of its own so that TLC's workers share it.   *)
Init == /\ c \in DOMAIN Cases
        /\ inp = <<>> /\ verts = {} /\ on = <<>> /\ open = <<>>
        /\ l = 0
        /\ bad = ""

Load == /\ l = 0
        /\ \E L \in {[i \in DOMAIN Cases[c].L |-> Norm(Cases[c].L[i])]} : LoadInput(L)
        /\ l' = 1
        /\ UNCHANGED <<c, bad>>

Ev == Cases[c].ev
Rs == TLCEval([k \in DOMAIN Ev[l].r |-> Rep(Ev[l].r[k])])

PointsWhy(p) == IF PointOK(p) THEN "" ELSE "wrong-point"
PiecesWhy(p, rs) ==
    IF ~PointOK(p) THEN "wrong-point"
    ELSE IF \E k \in DOMAIN rs : rs[k].id \notin DOMAIN inp THEN "wrong-incidence"
    ELSE IF ~Complete(p, rs) THEN "wrong-incidence"
    ELSE IF ~PiecesOK(p, rs) THEN "wrong-piece" ELSE ""
FlagsWhy(rs) ==
    IF \E k \in DOMAIN rs : rs[k].id \notin DOMAIN inp \/ ~FirstFlag(rs[k]) THEN "wrong-first"
    ELSE IF \E k \in DOMAIN rs : ~OverlapFlag(rs, k) THEN "wrong-overlap"
    ELSE IF ~OverlapComplete(rs) THEN "missing-overlap" ELSE ""

(* "partition": where inputs are so close to vertical that computed vertices    *)
(* fall outside the order of their ends, the whole run is judged: the visited  *)
(* points are the vertices, each once, and the closed pieces of every input    *)
(* partition it, whichever way round they are reported                         *)
Between(i) ==   \* the pieces input i consists of
    LET S == {v \in Vertices(inp) : OnSeg(v, inp[i])} IN
    {pq \in S \X S : Lt(pq[1], pq[2]) /\ ~\E v \in S : Lt(pq[1], v) /\ Lt(v, pq[2])}
Reports == {kr \in (DOMAIN Ev) \X (1 .. 100) : kr[2] \in DOMAIN Ev[kr[1]].r}
Report(kr) == Rep(Ev[kr[1]].r[kr[2]])
PartitionWhy ==
    LET pts == {Ev[k].p : k \in DOMAIN Ev}
        piece(kr) == Seg(Report(kr).line[1], Report(kr).line[2])
        Of(i, left) == {kr \in Reports : LET r == Report(kr) IN r.id = i /\ r.isline /\ r.left = left}
    IN  IF pts # Vertices(inp) \/ Cardinality(pts) # Len(Ev) THEN "wrong-points"
        ELSE IF \E kr \in Reports : Report(kr).id \notin DOMAIN inp THEN "wrong-incidence"
        ELSE IF \E i \in DOMAIN inp : {piece(kr) : kr \in Of(i, FALSE)} # Between(i) THEN "not-partitioned"
        ELSE IF \E i \in DOMAIN inp : Cardinality(Of(i, FALSE)) # Cardinality(Between(i)) THEN "piece-closed-twice"
        ELSE IF \E i \in DOMAIN inp : Cardinality(Of(i, TRUE)) # Cardinality(Between(i)) THEN "piece-opened-twice"
        ELSE IF \E kr \in Reports : LET r == Report(kr) IN r.isline /\ Ev[kr[1]].p # r.line[IF r.left THEN 1 ELSE 2]
             THEN "reported-elsewhere"
        ELSE ""

Step == /\ l > 0 /\ bad = "" /\ l <= Len(Ev)
        /\ \E p \in {Ev[l].p} :
           \E w \in {CASE What = "points" -> PointsWhy(p)
                       [] What = "pieces" -> PiecesWhy(p, Rs)
                       [] What = "flags" -> FlagsWhy(Rs)
                       [] What = "partition" -> ""} :
               /\ bad' = w
               /\ Judged(Cases[c].id, l, w)
               /\ IF w # "" \/ What \in {"flags", "partition"} THEN UNCHANGED vars ELSE Yield(p)
        /\ l' = l + 1
        /\ UNCHANGED c

Fin == /\ l > 0 /\ bad = "" /\ l = Len(Ev) + 1
       /\ \E w \in {IF Cases[c].st # "ok" THEN Cases[c].st
                   ELSE IF What = "partition" THEN PartitionWhy
                   ELSE IF What # "flags" /\ ~Finished THEN "missing-points" ELSE ""} :
              bad' = w /\ Closed(Cases[c].id, l, w)
       /\ l' = l + 1
       /\ UNCHANGED <<vars, c>>

Next == Load \/ Step \/ Fin
Spec == Init /\ [][Next]_tvars
=============================================================================
