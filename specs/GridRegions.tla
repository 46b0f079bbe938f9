---------------------------- MODULE GridRegions -----------------------------
(* Small regions to check designs with: unions of the faces of a grid of W x H *)
(* cells, each of them cut by Diag diagonals (0, 1 or 2), or, for Diag = 3, of *)
(* two fans of triangles with a common apex.                                   *)
EXTENDS Regions

CONSTANTS W, H, Diag

Cell(x, y) ==
    LET a == <<2 * x, 2 * y>>  b == <<2 * x + 2, 2 * y>>  c == <<2 * x + 2, 2 * y + 2>>  d == <<2 * x, 2 * y + 2>>
        m == <<2 * x + 1, 2 * y + 1>>
        Tri(p, q, r) == {Seg(p, q), Seg(q, r), Seg(r, p)}
    IN  CASE Diag = 0 -> {{Seg(a, b), Seg(b, c), Seg(c, d), Seg(d, a)}}
          [] Diag = 1 -> {Tri(a, b, c), Tri(a, c, d)}
          [] OTHER -> {Tri(a, b, m), Tri(b, c, m), Tri(c, d, m), Tri(d, a, m)}
Right == <<<<1, -3>>, <<9, -8>>, <<2, -1>>, <<2, 1>>, <<9, 8>>, <<1, 4>>>>
Left == <<<<-1, -2>>, <<-5, -4>>, <<-2, 1>>, <<-6, 5>>>>
Fan(R) == {{Seg(<<0, 0>>, R[i]), Seg(R[i], R[i + 1]), Seg(R[i + 1], <<0, 0>>)} : i \in 1 .. Len(R) - 1}
Faces == IF Diag = 3 THEN Fan(Right) \cup Fan(Left)
         ELSE UNION {Cell(x, y) : x \in 0 .. W - 1, y \in 0 .. H - 1}
Boundary(F) == LET E == UNION F IN {e \in E : Cardinality({f \in F : e \in f}) = 1}
Ends(E) == {e[1] : e \in E} \cup {e[2] : e \in E}
=============================================================================
