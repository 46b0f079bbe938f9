------------------------- MODULE IntersectionsTrace -------------------------
EXTENDS Intersections, Verdicts

VARIABLES c, l, bad
tvars == <<ivars, c, l, bad>>

Init == c \in DOMAIN Cases /\ l = 0 /\ bad = "" /\ inp = <<>> /\ verts = {} /\ seen = {}
Norm(s) == Seg(<<s[1], s[2]>>, <<s[3], s[4]>>)
Load == /\ l = 0 /\ l' = 1 /\ UNCHANGED <<c, bad>>
        /\ \E L \in {[i \in DOMAIN Cases[c].L |-> Norm(Cases[c].L[i])]} : LoadInput(L)

Prs == Cases[c].prs
Why(r) == IF r[1] = r[2] \/ ~({r[1], r[2]} \subseteq DOMAIN inp) THEN "not-a-pair"
          ELSE IF ~GeometryOK(r) THEN "wrong-geometry"
          ELSE IF ~ReportOK(r) THEN "reported-twice" ELSE ""
Step == /\ l > 0 /\ bad = "" /\ l <= Len(Prs)
        /\ bad' = Why(Prs[l]) /\ Judged(Cases[c].id, l, bad') /\ Report(Prs[l])
        /\ l' = l + 1 /\ UNCHANGED c
Fin == /\ l > 0 /\ bad = "" /\ l = Len(Prs) + 1
       /\ bad' = (IF Cases[c].st # "ok" THEN Cases[c].st
                  ELSE IF Missing # {} THEN "missing-pair" ELSE "")
       /\ Closed(Cases[c].id, l, bad')
       /\ l' = l + 1 /\ UNCHANGED <<ivars, c>>
Next == Load \/ Step \/ Fin
Spec == Init /\ [][Next]_tvars
=============================================================================
