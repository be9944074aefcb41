-------------------------------- MODULE Sets --------------------------------
(***************************************************************************)
(* What the geometric queries and operations have to answer (P04 - P08).   *)
(* Comparisons of two described sets are made on the part of space inside  *)
(* a large box: there every linear function is bounded, so each direction  *)
(* of a set equality is decided by one dual certificate per row, and a     *)
(* difference by one point.                                                *)
(***************************************************************************)
EXTENDS Programs

Tol6 == RTenTo(6)
Tol9 == RTenTo(9)

\* P intersected with the box |x_j| <= k
BoxRows(n) == IdM(n) \o [i \in 1..n |-> VNeg(UnitV(n, i))]
Clip(P, k) == [n |-> P.n, A |-> P.A \o BoxRows(P.n), b |-> P.b \o [i \in 1..(2 * P.n) |-> k], C |-> P.C, d |-> P.d]

\* a certificate for "a'x <= beta for all x in Q":
\*   [k = "dual", y, z]  it holds       [k = "farkas", y, z]  Q is empty       [k = "pt", x]  it fails at x
RowCertOK(Q, a, beta, c) ==
  CASE c.k = "dual"   -> UpperOK(Q, a, beta, c.y, c.z)
    [] c.k = "farkas" -> FarkasOK(Q, c.y, c.z)
    [] c.k = "pt"     -> Len(c.x) = Q.n /\ In(Q, c.x) /\ RLt(beta, Dot(a, c.x))
    [] OTHER -> FALSE
RowHolds(c) == c.k # "pt"

\* tolerance of a row
RowTol(t, a, beta) == RMul(t, RAdd(RAdd(R1, MaxAbs(a)), RAbs(beta)))
\* clauses for "Q is inside P" (up to t per row); certs: one per row of RowsOf(P)
SubsetFail(name, Q, P, t, certs) ==
  LET r == RowsOf(P)
      bt(i) == RAdd(r[i][2], RowTol(t, r[i][1], r[i][2]))
  IN IF Len(certs) # Len(r) \/ \E i \in 1..Len(r) : ~ RowCertOK(Q, r[i][1], bt(i), certs[i])
     THEN { "witness-" \o name }
     ELSE Fail(name, \A i \in 1..Len(r) : RowHolds(certs[i]))
\* the described sets P (from the code) and Q (meant) agree inside the box k, up to t
SameSetFail(P, Q, k, t, c) ==
  IF ~ WellFormed(P) \/ P.n # Q.n THEN { "malformed-description" }
  ELSE SubsetFail("set-too-small", Clip(Q, k), P, t, c.qp) \cup SubsetFail("set-too-large", Clip(P, k), Q, t, c.pq)

(***************************************************************************)
(* P04                                                                     *)
(***************************************************************************)
EmptyVerdict(e) ==
  IF ~ (WellFormed(e.p) /\ FeasWitOK(e.p, e.w)) THEN { "witness-empty" }
  ELSE IF e.r.k # "ok" THEN { "empty-no-answer" }
  ELSE Fail("empty-verdict", e.r.v = (e.w.k = "farkas"))

BoundedWitOK(p, w) ==
  CASE w.k = "farkas"  -> FarkasOK(p, w.y, w.z)
    [] w.k = "bounded" -> In(p, w.x) /\ BoundedOK(p, w.c)
    [] w.k = "ray"     -> In(p, w.x) /\ RayOK(p, w.ray)
    [] OTHER -> FALSE
BoundedVerdict(e) ==
  IF ~ (WellFormed(e.p) /\ BoundedWitOK(e.p, e.w)) THEN { "witness-bounded" }
  ELSE IF e.r.k # "ok" THEN { "bounded-no-answer" }
  ELSE Fail("bounded-verdict", e.r.v = (e.w.k # "ray"))

\* e.p inside e.q: either exact certificates for every row, or a point that is out by at least 1e-5
InclVerdict(e) ==
  LET r == RowsOf(e.q)
      yes == /\ e.w.k = "rows" /\ Len(e.w.c) = Len(r)
             /\ \A i \in 1..Len(r) : e.w.c[i].k # "pt" /\ RowCertOK(e.p, r[i][1], r[i][2], e.w.c[i])
      no  == /\ e.w.k = "pt" /\ Len(e.w.x) = e.p.n /\ In(e.p, e.w.x)
             /\ \E i \in 1..Len(r) : RLeq(RAdd(r[i][2], RTenTo(5)), Dot(r[i][1], e.w.x))
  IN IF ~ (WellFormed(e.p) /\ WellFormed(e.q) /\ (yes \/ no)) THEN { "witness-inclusion" }
     ELSE IF e.r.k # "ok" THEN { "inclusion-no-answer" }
     ELSE Fail("inclusion-verdict", e.r.v = (e.w.k = "rows"))

(***************************************************************************)
(* P05: the largest ball.  e.w.nrm[i] = [lo, hi] encloses the norm of row  *)
(* i relative to the equalities; y, z with A'y + C'z = 0 bound every       *)
(* inscribed ball:  radius * sum y_i |a_i| <= b'y + d'z.                   *)
(***************************************************************************)
NormsOK(p, w) == /\ Len(w.nrm) = NIneq(p)
                 /\ \A i \in 1..NIneq(p) : SqrtOK(RelNorm2(p, p.A[i]), w.nrm[i][1], w.nrm[i][2])
NormSum(w, y) == Sum([i \in 1..Len(y) |-> RMul(y[i], w.nrm[i][1])])
BallWitOK(p, w) ==
  /\ NormsOK(p, w)
  /\ CASE w.k = "ball" -> /\ DualShape(p, w.y, w.z) /\ Comb(p, w.y, w.z) = ZeroV(p.n)
                          /\ RPos(NormSum(w, w.y))
                          /\ In(p, w.x)        \* non-empty
       [] w.k = "farkas" -> FarkasOK(p, w.y, w.z)
       \* balls of every size: a direction that leaves every row strictly behind
       [] w.k = "cone" -> /\ In(p, w.x) /\ Len(w.ray) = p.n
                          /\ \A i \in 1..NEq(p) : Dot(p.C[i], w.ray) = R0
                          /\ \A i \in 1..NIneq(p) : RelNorm2(p, p.A[i]) = R0 \/ RSgn(Dot(p.A[i], w.ray)) < 0
       [] OTHER -> FALSE
RadiusBound(p, w) == RDiv(CombRhs(p, w.y, w.z), NormSum(w, w.y))
BallVerdict(e) ==
  LET p == e.p  w == e.w  t == RMul(Tol6, RAdd(R1, RMax(MaxAbs(p.b), MaxAbs(p.d))))
      rad == e.radius  cen == e.center
  IN IF ~ (WellFormed(p) /\ BallWitOK(p, w)) THEN { "witness-ball" }
     ELSE IF rad.k \notin { "ok", "none" } \/ cen.k \notin { "ok", "none" } THEN { "ball-no-answer" }
     ELSE IF w.k = "farkas" THEN Fail("radius-of-empty-set", rad.k = "none" \/ RSgn(rad.v) < 0)
     ELSE IF w.k = "cone" THEN Fail("radius-of-unlimited-set", rad.k = "none" /\ cen.k = "none")
     ELSE IF ~ e.bounded /\ rad.k = "none" /\ cen.k = "none" THEN {}
     ELSE IF rad.k = "none" \/ cen.k = "none" THEN { "ball-absent" }
     ELSE IF Len(cen.v) # p.n THEN { "ball-shape" }
     ELSE Fail("radius-too-large", RLeq(rad.v, RAdd(RadiusBound(p, w), t)))
          \cup Fail("radius-too-small", RLeq(RadiusBound(p, w), RAdd(rad.v, t)))
          \cup Fail("ball-not-inscribed",
                 /\ \A i \in 1..NIneq(p) :
                      RLeq(RAdd(Dot(p.A[i], cen.v), RMul(rad.v, w.nrm[i][1])), RAdd(p.b[i], RMul(t, RAdd(R1, MaxAbs(p.A[i])))))
                 /\ \A i \in 1..NEq(p) : RNear(Dot(p.C[i], cen.v), p.d[i], RMul(t, RAdd(R1, MaxAbs(p.C[i])))))

\* every point of s is near a point of T / vice versa
Near(u, v, t) == VNear(u, v, RMul(t, RAdd(R1, MaxAbs(v))))
ListSet(s) == { s[i] : i \in 1..Len(s) }
SamePointsFail(listed, true, t) ==
  Fail("point-listed-is-not-a-vertex", \A u \in listed : \E v \in true : Near(u, v, t))
  \cup Fail("vertex-missing", \A v \in true : \E u \in listed : Near(u, v, t))
\* kinds of set: "farkas" (empty), "ray" (unbounded), "bounded" (with w.pt a point strictly inside)
VerticesVerdict(e) ==
  LET p == e.p  w == e.w
  IN IF ~ WellFormed(p) \/ ~ BoundedWitOK(p, w) THEN { "witness-vertices" }
     ELSE IF e.r.k \notin { "ok", "none" } THEN { "vertices-no-answer" }
     ELSE IF w.k # "bounded" THEN Fail("vertices-of-empty-or-unbounded-set", e.r.k = "none")
     ELSE IF ~ Inside(p, w.pt, e.margin) THEN { "witness-vertices-interior" }
     ELSE IF e.r.k = "none" THEN { "vertices-absent" }
     ELSE IF \E i \in 1..Len(e.r.v) : Len(e.r.v[i]) # p.n THEN { "vertices-shape" }
     ELSE SamePointsFail(ListSet(e.r.v), VertexSet(p), Tol6)

(***************************************************************************)
(* P06                                                                     *)
(***************************************************************************)
Intersect(P, Q) == [n |-> P.n, A |-> P.A \o Q.A, b |-> P.b \o Q.b, C |-> P.C \o Q.C, d |-> P.d \o Q.d]
PadR(M, k) == [i \in 1..Len(M) |-> M[i] \o ZeroV(k)]
PadL(M, k) == [i \in 1..Len(M) |-> ZeroV(k) \o M[i]]
Product(P, Q) == [n |-> P.n + Q.n, A |-> PadR(P.A, Q.n) \o PadL(Q.A, P.n), b |-> P.b \o Q.b,
                  C |-> PadR(P.C, Q.n) \o PadL(Q.C, P.n), d |-> P.d \o Q.d]
\* the convex hull of a set of points of R^n that is not contained in a hyperplane: the facets are the hyperplanes
\* through n affinely independent points with all the points on one side
HyperThrough(s, n) ==      \* s: sequence of n points; << TRUE, a, beta >> or << FALSE >>
  LET E == Rref([i \in 1..n |-> Append(s[i], RInt(-1))], n + 1)     \* a.x - beta = 0
  IN IF Len(E[2]) < n THEN << FALSE >>
     ELSE LET free == CHOOSE j \in 1..(n + 1) : \A k \in 1..n : E[2][k] # j
              sol == [j \in 1..(n + 1) |-> IF j = free THEN R1
                        ELSE LET k == CHOOSE k \in 1..n : E[2][k] = j IN RNeg(E[1][k][free])]
          IN << TRUE, SubSeq(sol, 1, n), sol[n + 1] >>
HullFacets(pts, n) ==
  UNION { LET h == HyperThrough(SetToSeq(S), n)
          IN IF ~ h[1] THEN {}
             ELSE LET s == { RSgn(RSub(Dot(h[2], x), h[3])) : x \in pts }
                  IN IF 1 \notin s THEN { << h[2], h[3] >> }
                     ELSE IF -1 \notin s THEN { << VNeg(h[2]), RNeg(h[3]) >> } ELSE {}
          : S \in kSubset(n, pts) }
\* scale a row so that its largest entry is 1 (the same facet is found from several subsets of points)
UnitMax(r) == LET m == MaxAbs(r[1]) IN << VScale(RDiv(R1, m), r[1]), RDiv(r[2], m) >>
Hull(pts, n) ==
  LET f == SetToSeq({ UnitMax(r) : r \in HullFacets(pts, n) })
  IN [n |-> n, A |-> [i \in 1..Len(f) |-> f[i][1]], b |-> [i \in 1..Len(f) |-> f[i][2]], C |-> << >>, d |-> << >>]
\* e.h is the hull with its rows in the order the certificates use
SameRows(P, Q) == /\ P.n = Q.n /\ P.C = << >> /\ Q.C = << >>
                  /\ { << P.A[i], P.b[i] >> : i \in 1..NIneq(P) } = { << Q.A[i], Q.b[i] >> : i \in 1..NIneq(Q) }

SetOpVerdict(e) ==
  IF e.r.k # "ok" THEN { "setop-no-answer" }
  ELSE IF e.op = "intersection" THEN SameSetFail(e.r.p, Intersect(e.p, e.q), e.box, Tol6, e.w)
  ELSE IF e.op = "product" THEN SameSetFail(e.r.p, Product(e.p, e.q), e.box, Tol6, e.w)
  ELSE IF e.op = "hull" THEN
       IF ~ SameRows(e.h, Hull(ListSet(e.pts), e.n)) THEN { "witness-hull" }
       ELSE SameSetFail(e.r.p, e.h, e.box, Tol6, e.w)
  ELSE { "witness-setop" }

(***************************************************************************)
(* P07                                                                     *)
(***************************************************************************)
Pick(v, J) == [k \in 1..Len(J) |-> v[J[k]]]
ShadowPts(P, J) == { Pick(v, J) : v \in VertexSet(P) }
\* v is (almost) a convex combination, with weights l, of the listed points
Spanned(v, listed, l, t) ==
  /\ Len(l) = Len(listed) /\ \A i \in 1..Len(l) : RSgn(l[i]) >= 0
  /\ RNear(Sum(l), R1, t)
  /\ \A i \in 1..Len(l) : Len(listed[i]) = Len(v)
  /\ Near(MatTVec(listed, l, Len(v)), v, t)
ProjVerdict(e) ==
  LET p == e.p
  IN IF ~ WellFormed(p) \/ ~ BoundedWitOK(p, e.wb) THEN { "witness-projection" }
     ELSE IF e.wb.k # "bounded" \/ NEq(p) > 0 THEN Fail("projection-not-refused", e.r.k = "exc")
     ELSE IF ~ Inside(p, e.wb.pt, RFrac(1, 1000)) THEN { "witness-projection-interior" }
     ELSE IF e.r.k # "ok" THEN { "projection-no-answer" }
     ELSE LET sh == ShadowPts(p, e.dims)
          IN IF ~ SameRows(e.h, Hull(sh, Len(e.dims))) THEN { "witness-shadow" }
             ELSE SameSetFail(e.r.p, e.h, e.box, Tol6, e.w)
                  \cup Fail("projection-vertex-outside",
                         \A i \in 1..Len(e.r.v) : Len(e.r.v[i]) = Len(e.dims) /\ InTol(e.h, e.r.v[i], RMul(Tol6, RAdd(R1, MaxAbs(e.h.b)))))
                  \cup Fail("projection-vertex-missing",
                         \A v \in VertexSet(e.h) : \/ \E i \in 1..Len(e.r.v) : Near(e.r.v[i], v, Tol6)
                                                  \/ \E k \in 1..Len(e.sp) : e.sp[k].v = v /\ Spanned(v, e.r.v, e.sp[k].l, Tol6))

(***************************************************************************)
(* P08                                                                     *)
(***************************************************************************)
NormalizeVerdict(e) ==
  IF e.r.k # "ok" THEN { "normalize-no-answer" }
  ELSE LET q == e.r.p
           bad(M) == \E i \in 1..Len(M) : ~ (RNear(Norm2(M[i]), R1, Tol9) \/ RLt(Norm2(M[i]), RTenTo(12)))
       IN Fail("row-norm", ~ bad(q.A) /\ ~ bad(q.C))
          \cup SameSetFail(q, e.p, e.box, Tol6, e.w)

Rows(P, J) == [n |-> P.n, A |-> [k \in 1..Len(J) |-> P.A[J[k]]], b |-> [k \in 1..Len(J) |-> P.b[J[k]]], C |-> P.C, d |-> P.d]
Without(P, k) == [n |-> P.n, A |-> RemoveAt(P.A, k), b |-> RemoveAt(P.b, k), C |-> P.C, d |-> P.d]
\* kept: indices (increasing or not) of the kept rows.  w.drop[i] (for every row i): certificate on the kept rows;
\* w.need[k] (for every kept row): a point that violates only that row, or a certificate that there is none
MinimalFail(p, kept, w) ==
  LET q == Rows(p, kept)
  IN IF \E k \in 1..Len(kept) : kept[k] \notin 1..NIneq(p) THEN { "facet-index" }
     ELSE IF Cardinality(ListSet(kept)) # Len(kept) THEN { "facet-repeated" }
     ELSE IF \/ Len(w.drop) # NIneq(p) \/ Len(w.need) # Len(kept)
             \/ \E i \in 1..NIneq(p) : ~ RowCertOK(q, p.A[i], RAdd(p.b[i], Tol6), w.drop[i])
             \/ \E k \in 1..Len(kept) : ~ RowCertOK(Without(q, k), q.A[k], q.b[k], w.need[k])
          THEN { "witness-minimal" }
     ELSE Fail("dropped-facet-changes-the-set", \A i \in 1..NIneq(p) : RowHolds(w.drop[i]))
          \cup Fail("redundant-facet-kept", \A k \in 1..Len(kept) : ~ RowHolds(w.need[k]))
\* the indices of rows of p, if q is a selection of them
MinimalVerdict(e) ==
  IF ~ (WellFormed(e.p) /\ FeasWitOK(e.p, e.wf)) THEN { "witness-minimal-emptiness" }
  ELSE IF e.op = "facets" THEN
       IF e.wf.k = "farkas" THEN Fail("facets-of-empty-set", e.r.k = "none")
       ELSE IF e.r.k # "ok" THEN { "facets-no-answer" }
       ELSE MinimalFail(e.p, e.r.v, e.w)
  ELSE IF e.wf.k = "farkas" THEN Fail("redundancy-removal-not-refused", e.r.k = "exc")
       ELSE IF e.r.k # "ok" THEN { "redundancy-removal-no-answer" }
       ELSE IF \/ Len(e.sel) # NIneq(e.r.p) \/ e.r.p.C # e.p.C \/ e.r.p.d # e.p.d \/ e.r.p.n # e.p.n
               \/ \E k \in 1..Len(e.sel) : e.sel[k] \notin 1..NIneq(e.p) THEN { "kept-rows-are-not-original-rows" }
       ELSE IF e.r.p.A # Rows(e.p, e.sel).A \/ e.r.p.b # Rows(e.p, e.sel).b THEN { "kept-rows-are-not-original-rows" }
       ELSE MinimalFail(e.p, e.sel, e.w)
=============================================================================
