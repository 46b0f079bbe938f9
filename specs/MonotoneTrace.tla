---------------------------- MODULE MonotoneTrace ---------------------------
(* Validates recorded decompositions (one step per piece, then the tiling) and *)
(* recorded vertex sweeps (one step per event).                                *)
(* GX_WHAT: "pieces", "tiling", "sweep" or "links".                            *)
EXTENDS Monotone, Verdicts

VARIABLES c, l, bad,
          rest      \* sweep: corners not yet visited
tvars == <<c, l, bad, rest>>

Init == c \in DOMAIN Cases /\ l = 0 /\ bad = "" /\ rest = {}

Load == /\ l = 0 /\ l' = 1
        /\ rest' = CASE What = "sweep" -> Corners(Cases[c].poly)
                     [] What = "links" -> Looking(Corners(Cases[c].poly))
                     [] OTHER -> {}
        /\ UNCHANGED <<c, bad>>

Verdict(x) == \E w \in {x} : bad' = w /\ Judged(Cases[c].id, l, w)
Final(x) == \E w \in {x} : bad' = w /\ Closed(Cases[c].id, l, w)

Ev == Cases[c].ev
Visit ==
    /\ What = "sweep" /\ l > 0 /\ bad = "" /\ l <= Len(Ev) + 1
    /\ IF l <= Len(Ev)
       THEN IF rest = {} THEN Verdict("extra-event") /\ rest' = rest
            ELSE \E v \in {CHOOSE v \in rest : \A w \in rest : Le(v.p, w.p)} :
                 /\ Verdict(IF Ev[l].p # v.p THEN "wrong-vertex"
                            ELSE IF Ev[l].ty # Kind(v) THEN "wrong-kind" ELSE "")
                 /\ rest' = rest \ {v}
       ELSE /\ Final(IF Cases[c].st # "ok" THEN Cases[c].st ELSE IF rest # {} THEN "missing-events" ELSE "")
            /\ rest' = rest
    /\ l' = l + 1 /\ UNCHANGED c

(* rest stays: what every vertex looks at *)
Link ==
    /\ What = "links" /\ l > 0 /\ bad = "" /\ l <= Len(Ev) + 1
    /\ IF l <= Len(Ev)
       THEN \E X \in {{x \in rest : x.v.p = Ev[l].p}} :
            Verdict(IF X = {} THEN "wrong-vertex"
                    ELSE IF \A x \in X : LinksRight(rest, x, Ev[l].links) THEN "" ELSE "wrong-links")
       ELSE /\ Assert(DiagonalsSound(rest), "the specified diagonals do not cut the polygon")
            /\ Final(IF Cases[c].st # "ok" THEN Cases[c].st ELSE "")
    /\ l' = l + 1 /\ UNCHANGED <<c, rest>>

Ps == Cases[c].pieces
Piece ==
    /\ What = "pieces" /\ l > 0 /\ bad = "" /\ l <= Len(Ps) + 1
    /\ IF l <= Len(Ps)
       THEN Verdict(IF MonotonePiece(Ps[l].top, Ps[l].bot) THEN "" ELSE "not-monotone")
       ELSE Final(IF Cases[c].st # "ok" THEN Cases[c].st ELSE "")
    /\ l' = l + 1 /\ UNCHANGED <<c, rest>>

Tiling ==
    /\ What = "tiling" /\ l = 1
    /\ Final(IF Cases[c].st # "ok" THEN Cases[c].st
               ELSE IF Tiles(Cases[c].poly, Ps) THEN "" ELSE "not-a-tiling")
    /\ l' = l + 1 /\ UNCHANGED <<c, rest>>

Next == Load \/ Visit \/ Link \/ Piece \/ Tiling
Spec == Init /\ [][Next]_tvars
=============================================================================
