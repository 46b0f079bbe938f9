--------------------------- MODULE BoolOpAlgorithm --------------------------
(* Boolean operations as they are designed, over the pieces of an arrangement: *)
(* a sweep labels the region above every piece with the operands it lies in;   *)
(* pieces separating inside from outside are linked into chains, chains into   *)
(* rings that are split where they touch themselves; a second sweep finds the  *)
(* polygon every hole belongs to.  Checked to refine Regions for all pairs of  *)
(* regions that consist of faces of a grid.                                    *)
EXTENDS GridRegions, SegmentOrder

CONSTANTS Single,  \* TRUE: the second operand is empty
          Ops,     \* operations
          Flaw     \* "" or a step of the design left out, to see that it is needed

VARIABLES A, B, op,    \* boundary chains of the operands
          phase,       \* "sweep", "link", "nest", "done"
          todo,        \* vertices still to be swept
          reg,         \* active piece -> <<in first, in second>> of the region above it
          chains, ends,
          rings,       \* rings found
          parent,      \* ring -> the ring it is a hole of
          out          \* the result
vars == <<A, B, op, phase, todo, reg, chains, ends, rings, parent, out>>

(* ---- labels --------------------------------------------------------------------*)
Outside == <<FALSE, op = "diff">>
Inside(r) == CASE op \in {"and", "diff"} -> r[1] /\ r[2]
               [] op = "or" -> r[1] \/ r[2]
               [] op = "xor" -> r[1] # r[2]
Flip2(r, e) == <<r[1] # (e \in A), r[2] # (e \in B)>>

(* the members of a set of pieces with a common end, ordered from low to high  *)
RECURSIVE Upwards(_)
Upwards(E) == IF E = {} THEN <<>>
              ELSE LET e == CHOOSE e \in E : \A f \in E \ {e} : LineCmp(e, f) = "lt"
                   IN  <<e>> \o Upwards(E \ {e})
Reverse(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
(* the highest of the pieces E that pass below p                               *)
Lower(E, p) ==
    LET C == {e \in E : Lt(e[1], p) /\ Lt(p, e[2]) /\ Orient(e[1], e[2], p) > 0}
    IN  IF C = {} THEN <<>> ELSE CHOOSE e \in C : \A f \in C \ {e} : LineCmp(f, e) = "lt"

(* ---- chains --------------------------------------------------------------------*)
(* a chain: its points, whether the inside lies on its left, and the chains    *)
(* its front and back are linked to; a link <<k, front>> names an end of a chain *)
NewChain(p, q, ccw) == [items |-> <<p, q>>, ccw |-> ccw, front |-> <<>>, back |-> <<>>]
At(f, x) == IF x \in DOMAIN f THEN f[x] ELSE <<>>
Keyed(pt, leaves) == IF Flaw = "ends-unoriented" THEN <<pt, TRUE>> ELSE <<pt, leaves>>
Open_(E, key, link) == key :> Append(At(E, key), link) @@ E
Last(s) == s[Len(s)]
Extend(c, link, pt) ==
    IF link[2] THEN [c EXCEPT ![link[1]].items = <<pt>> \o @] ELSE [c EXCEPT ![link[1]].items = Append(@, pt)]
Link(c, i, j) == IF i[2] THEN [c EXCEPT ![i[1]].front = j] ELSE [c EXCEPT ![i[1]].back = j]

AddEdge(s, e, ccw) ==
    LET kl == Keyed(e[1], ~ccw)  kr == Keyed(e[2], ccw)
        sl == At(s.ends, kl)
        E1 == IF sl = <<>> THEN s.ends ELSE [s.ends EXCEPT ![kl] = SubSeq(@, 1, Len(@) - 1)]
        sr == At(E1, kr)
        E2 == IF sr = <<>> THEN E1 ELSE [E1 EXCEPT ![kr] = SubSeq(@, 1, Len(@) - 1)]
        new == Len(s.chains) + 1
    IN  IF sl = <<>> /\ sr = <<>>
        THEN [chains |-> Append(s.chains, NewChain(e[1], e[2], ccw)),
              ends |-> Open_(Open_(E2, Keyed(e[1], ccw), <<new, TRUE>>), Keyed(e[2], ~ccw), <<new, FALSE>>)]
        ELSE IF sl = <<>>
        THEN [chains |-> Extend(s.chains, Last(sr), e[1]), ends |-> Open_(E2, Keyed(e[1], ccw), Last(sr))]
        ELSE IF sr = <<>>
        THEN [chains |-> Extend(s.chains, Last(sl), e[2]), ends |-> Open_(E2, Keyed(e[2], ~ccw), Last(sl))]
        ELSE [chains |-> Link(Link(s.chains, Last(sl), Last(sr)), Last(sr), Last(sl)), ends |-> E2]

RECURSIVE AddAll(_, _)
AddAll(s, es) ==
    IF es = <<>> THEN s
    ELSE LET e == Head(es)
             above == reg[e]  below == Flip2(above, e)
         IN  AddAll(IF Inside(above) # Inside(below) THEN AddEdge(s, e, Inside(above)) ELSE s, Tail(es))

RECURSIVE Label(_, _, _)
Label(f, r, es) == IF es = <<>> THEN f
                   ELSE LET r1 == Flip2(r, Head(es)) IN Label(Head(es) :> r1 @@ f, r1, Tail(es))

(* ---- rings ---------------------------------------------------------------------*)
RECURSIVE Area2(_)
Area2(r) == IF Len(r) < 2 THEN 0
            ELSE r[1][1] * r[2][2] - r[2][1] * r[1][2] + Area2(Tail(r))
Ring(pts, ccw) == LET r == Append(pts, pts[1]) IN
    [coords |-> r, hole |-> IF Flaw = "no-holes" THEN FALSE ELSE (Area2(r) > 0) # ccw]

(* walks along points, splitting off a ring whenever a point is met again      *)
RECURSIVE Walk(_, _, _, _)
Walk(pts, ls, found, ccw) ==
    IF pts = <<>> THEN Append(found, Ring(ls, ccw))
    ELSE LET I == {i \in DOMAIN ls : ls[i] = Head(pts)} IN
         IF I = {} \/ Flaw = "never-split" THEN Walk(Tail(pts), Append(ls, Head(pts)), found, ccw)
         ELSE LET i == CHOOSE i \in I : TRUE IN
              Walk(Tail(pts), Append(SubSeq(ls, 1, i - 1), Head(pts)),
                   Append(found, Ring(SubSeq(ls, i, Len(ls)), ccw)), ccw)

(* the loop of chains through the end link                                     *)
RECURSIVE Loop(_, _, _)
Loop(link, start, n) ==
    LET c == chains[link[1]]
        pts == IF link[2] THEN c.items ELSE Reverse(c.items)
        nxt == IF link[2] THEN c.back ELSE c.front
    IN  IF nxt = <<>> \/ n = 0 THEN [pts |-> pts, ks |-> {link[1]}, ok |-> FALSE]
        ELSE IF nxt[1] = start THEN [pts |-> pts, ks |-> {link[1]}, ok |-> nxt[2]]
        ELSE LET rest == Loop(nxt, start, n - 1) IN
             [pts |-> pts \o rest.pts, ks |-> {link[1]} \cup rest.ks, ok |-> rest.ok]

RECURSIVE Loops(_)
Loops(K) ==
    IF K = {} THEN <<>>
    ELSE LET k == CHOOSE k \in K : \A j \in K : j <= k
             l == Loop(<<k, TRUE>>, k, Len(chains))
         IN  <<[pts |-> l.pts, ccw |-> chains[k].ccw, ok |-> l.ok]>> \o Loops(K \ l.ks)

(* ---- nesting -------------------------------------------------------------------*)
RingOf(e) == CHOOSE k \in DOMAIN rings : \E i \in 1 .. Len(rings[k].coords) - 1 :
                 e = Seg(rings[k].coords[i], rings[k].coords[i + 1])
RingPieces == UNION {{Seg(rings[k].coords[i], rings[k].coords[i + 1]) : i \in 1 .. Len(rings[k].coords) - 1}
                     : k \in DOMAIN rings}
(* labels the region above every starting piece with the exterior it lies in   *)
RECURSIVE Nest(_, _, _, _)
Nest(f, par, below, es) ==
    IF es = <<>> THEN [f |-> f, par |-> par]
    ELSE LET k == RingOf(Head(es))
             hole == rings[k].hole
             par1 == IF below # 0 /\ hole THEN [par EXCEPT ![k] = below] ELSE par
             b1 == IF below # 0 THEN 0 ELSE IF hole THEN par1[k] ELSE k
         IN  Nest(Head(es) :> b1 @@ f, par1, b1, Tail(es))

Assemble ==
    LET all == [j \in DOMAIN rings |-> j]
        ext == SelectSeq(all, LAMBDA k : ~rings[k].hole)
        holes(k) == SelectSeq(all, LAMBDA j : rings[j].hole /\ parent[j] = k)
        coords(ks) == [i \in DOMAIN ks |-> rings[ks[i]].coords]
    IN  [i \in DOMAIN ext |-> <<rings[ext[i]].coords>> \o coords(holes(ext[i]))]

(* ---- behaviour -------------------------------------------------------------------*)
Init == /\ \E FA \in SUBSET Faces, FB \in (IF Single THEN {{}} ELSE SUBSET Faces) :
               A = Boundary(FA) /\ B = Boundary(FB)
        /\ op \in Ops
        /\ phase = "sweep" /\ todo = Ends(A \cup B) /\ reg = <<>>
        /\ chains = <<>> /\ ends = <<>> /\ rings = <<>> /\ parent = <<>> /\ out = <<>>

Sweep == /\ phase = "sweep" /\ todo # {}
         /\ \E p \in {MinPt(todo)} :
            \E closing \in {Reverse(Upwards({e \in A \cup B : e[2] = p}))} :
            \E s \in {AddAll([chains |-> chains, ends |-> ends], closing)} :
            \E starting \in {Upwards({e \in A \cup B : e[1] = p})} :
            \E below \in {Lower(DOMAIN reg, p)} :
            \E f \in {Label(reg, IF below = <<>> THEN Outside ELSE reg[below], starting)} :
               /\ todo' = todo \ {p}
               /\ chains' = s.chains /\ ends' = s.ends
               /\ reg' = [e \in {e \in DOMAIN f : e[2] # p} |-> f[e]]
         /\ UNCHANGED <<A, B, op, phase, rings, parent, out>>

RECURSIVE Split(_)
Split(loops) == IF loops = <<>> THEN <<>>
                ELSE Walk(Head(loops).pts, <<>>, <<>>, Head(loops).ccw) \o Split(Tail(loops))
LinkUp == /\ phase = "sweep" /\ todo = {}
          /\ \E loops \in {Loops(DOMAIN chains)} :
                IF \E k \in DOMAIN loops : ~loops[k].ok
                THEN phase' = "open-chain" /\ rings' = <<>> /\ parent' = <<>>
                ELSE /\ phase' = "nest"
                     /\ \E r \in {Split(loops)} : rings' = r /\ parent' = [k \in DOMAIN r |-> 0]
          /\ todo' = Ends(A \cup B) /\ reg' = <<>> /\ chains' = <<>> /\ ends' = <<>>
          /\ UNCHANGED <<A, B, op, out>>

NestStep == /\ phase = "nest" /\ todo # {}
            /\ \E p \in {MinPt(todo)} :
               \E starting \in {Upwards({e \in RingPieces : e[1] = p})} :
               \E below \in {Lower(DOMAIN reg, p)} :
               \E n \in {Nest(reg, parent, IF below = <<>> THEN 0 ELSE reg[below], starting)} :
                  /\ todo' = todo \ {p}
                  /\ parent' = n.par
                  /\ reg' = [e \in {e \in DOMAIN n.f : e[2] # p} |-> n.f[e]]
            /\ UNCHANGED <<A, B, op, phase, chains, ends, rings, out>>

Done == /\ phase = "nest" /\ todo = {}
        /\ phase' = "done" /\ out' = Assemble
        /\ UNCHANGED <<A, B, op, todo, reg, chains, ends, rings, parent>>

Next == Sweep \/ LinkUp \/ NestStep \/ Done
Spec == Init /\ [][Next]_vars

(* ---- what is checked -------------------------------------------------------------*)
(* every label tells which operands the region above the piece lies in; above  *)
(* a vertical piece is its left, by the order of the sweep                     *)
Above(e, C) == IF Upright(e) THEN LowSide(e, C) ELSE UpSide(e, C)
Labels == phase = "sweep" => \A e \in DOMAIN reg :
              reg[e] = <<Above(e, A), Above(e, B) # (op = "diff")>>
ChainsClose == phase # "open-chain"
(* a ring is a hole exactly if the region lies outside of it, and every hole   *)
(* has found a ring around it                                                  *)
Parents == phase = "done" => \A k \in DOMAIN rings : rings[k].hole => parent[k] # 0 /\ ~rings[parent[k]].hole
Refines == phase = "done" => Chain(Edges(Flatten(out)), Ends(A \cup B)) = Combine(op, A, B)
Valid == phase = "done" => ValidResult(out, Ends(A \cup B))
=============================================================================
