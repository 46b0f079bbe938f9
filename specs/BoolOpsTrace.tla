---------------------------- MODULE BoolOpsTrace ----------------------------
(* Validates recorded histories of boolean operations against BoolOps.         *)
(* GX_WHAT: "region" judges the point set of a result, "valid" its structure.  *)
EXTENDS BoolOps, Verdicts

VARIABLES c, l, bad
tvars == <<vars, c, l, bad>>

Init == /\ c \in DOMAIN Cases
        /\ V = {} /\ regs = <<>> /\ l = 0 /\ bad = ""

Load == /\ l = 0
        /\ LoadRegs(Cases[c].regs)
        /\ l' = 1
        /\ UNCHANGED <<c, bad>>

St == Cases[c].steps
More == l > 0 /\ l <= Len(St)

(* the vertex set the recorded output is cut by: an output may keep or add     *)
(* collinear vertices                                                          *)
OutVerts(out) == UNION {{out[p][k][i] : i \in DOMAIN out[p][k]} :
                        <<p, k>> \in {pk \in (DOMAIN out) \X (1 .. 200) : pk[2] \in DOMAIN out[pk[1]]}}
RingsClosed(out) == \A p \in DOMAIN out : \A k \in DOMAIN out[p] :
                   Len(out[p][k]) > 0 /\ out[p][k][1] = out[p][k][Len(out[p][k])]

SameRegion(exp, out) ==
    LET W == V \cup OutVerts(out)
        X == UNION {Pieces(e, W) : e \in exp}
        E == Edges(Flatten(out))
    IN  Chain(E, W) = X

Why(s) ==
    IF s.st # "ok" THEN s.st
    ELSE IF ~RingsClosed(s.out) THEN "open-ring"
    ELSE IF What = "region" THEN (IF SameRegion(Result(s.op, s.a, s.b), s.out) THEN "" ELSE "wrong-region")
    ELSE IF ValidResult(s.out, V \cup OutVerts(s.out)) THEN "" ELSE "invalid-result"

Step == /\ More /\ bad = ""
        /\ \E w \in {Why(St[l])} :
              /\ bad' = w
              /\ Judged(Cases[c].id, l, w)
              /\ IF What = "region" /\ w = "" THEN Operate(St[l].op, St[l].a, St[l].b) ELSE UNCHANGED vars
        /\ l' = l + 1
        /\ UNCHANGED c

Fin == /\ l > 0 /\ bad = "" /\ l = Len(St) + 1
       /\ bad' = "" /\ Closed(Cases[c].id, l, bad')
       /\ l' = l + 1 /\ UNCHANGED <<vars, c>>

Next == Load \/ Step \/ Fin
Spec == Init /\ [][Next]_tvars
=============================================================================
