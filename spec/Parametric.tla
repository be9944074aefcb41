----------------------------- MODULE Parametric -----------------------------
(***************************************************************************)
(* Multiparametric quadratic programs (P12, P13)                           *)
(*   V(x) = min_u 1/2 u'Huu u + u'Hux x + 1/2 x'Hxx x + fu'u + fx'x + g    *)
(*          s.t. Au u + Ax x <= b                                          *)
(* as records [nu, nx, Huu, Hux, Hxx, fu, fx, g, Au, Ax, b].               *)
(*                                                                         *)
(* The laws u(x), p(x) of a critical region are affine and V(x) is         *)
(* quadratic; they are known through their values at points that determine *)
(* them (the origin and the unit vectors; QuadPts for V).  Every condition *)
(* is an identity between affine functions, checked at those points, or an *)
(* inequality over the region, decided by a dual certificate: in both      *)
(* cases the verdict is about all the parameters of the region.            *)
(***************************************************************************)
EXTENDS Control

NC(m) == Len(m.b)
MpWellFormed(m) == /\ Sym(m.Huu) /\ PosDef(m.Huu) /\ Len(m.Huu) = m.nu /\ ShapeM(m.Hux, m.nu, m.nx) /\ ShapeM(m.Hxx, m.nx, m.nx)
                   /\ Sym(m.Hxx) /\ Len(m.fu) = m.nu /\ Len(m.fx) = m.nx
                   /\ ShapeM(m.Au, NC(m), m.nu) /\ ShapeM(m.Ax, NC(m), m.nx)
MpAt(m, x) == [n |-> m.nu, H |-> m.Huu, f |-> VAdd(MatVec(m.Hux, x), m.fu), A |-> m.Au,
               b |-> VSub(m.b, MatVec(m.Ax, x)), C |-> << >>, d |-> << >>]
Joint(m) == [n |-> m.nx + m.nu, A |-> [i \in 1..NC(m) |-> m.Ax[i] \o m.Au[i]], b |-> m.b, C |-> << >>, d |-> << >>]
DataScale(m) == RAdd(R1, RMax(RMax(MaxAbsM(m.Huu), MaxAbsM(m.Hux)), RMax(RMax(MaxAbs(m.fu), MaxAbs(m.b)), RMax(MaxAbsM(m.Au), MaxAbsM(m.Ax)))))
Marked(m, act) == [k \in 1..Len(act) |-> m.Au[act[k]]]
Independent(m, act) == Rank(Marked(m, act), m.nu) = Len(act)

(***************************************************************************)
(* P12.  A reported region is [act, u0, ue, p0, pe, V, pol]: values of the *)
(* laws at the origin and at the unit vectors, V = << [x, v], ... >>, and  *)
(* the polyhedron.  c: certificates, one per constraint.                   *)
(***************************************************************************)
Params(m) == << ZeroV(m.nx) >> \o IdM(m.nx)
LawU(R) == << R.u0 >> \o R.ue
LawP(R) == << R.p0 >> \o R.pe
\* the affine function with values v[1] at 0 and v[j+1] at e_j, component i: << coefficients, constant >>
CoefOf(v, i) == << [j \in 1..(Len(v) - 1) |-> RSub(v[j + 1][i], v[1][i])], v[1][i] >>
RegionShape(m, R) ==
  /\ \A k \in 1..(m.nx + 1) : Len(LawU(R)[k]) = m.nu /\ Len(LawP(R)[k]) = NC(m)
  /\ Len(R.ue) = m.nx /\ Len(R.pe) = m.nx
  /\ { R.V[k].x : k \in 1..Len(R.V) } = QuadPts(m.nx)
  /\ WellFormed(R.pol) /\ R.pol.n = m.nx
  /\ \A k \in 1..Len(R.act) : R.act[k] \in 1..NC(m)
\* the inequality that constraint i has to satisfy over the region: << row, rhs >>
CondRow(m, R, i) ==
  IF \E k \in 1..Len(R.act) : R.act[k] = i
  THEN LET c == CoefOf(LawP(R), i) IN << VNeg(c[1]), c[2] >>
  ELSE LET g(x, u) == RAdd(Dot(m.Au[i], u), Dot(m.Ax[i], x))
           v == [k \in 1..(m.nx + 1) |-> << g(Params(m)[k], LawU(R)[k]) >>]
           c == CoefOf(v, 1)
       IN << c[1], RSub(m.b[i], c[2]) >>
RegionFail(m, R, box, certs) ==
  LET U == LawU(R)  Pm == LawP(R)  X == Params(m)
      sc == RMul(DataScale(m), RAdd(R1, RMax(MaxAbsM(U), MaxAbsM(Pm))))
      t == RMul(RTenTo(8), sc)
      act == { R.act[k] : k \in 1..Len(R.act) }
      reg == Clip(R.pol, box)
      row(i) == CondRow(m, R, i)
      bt(i) == LET r == row(i) IN RAdd(r[2], RMul(RAdd(R1, box), RowTol(RTenTo(7), r[1], r[2])))
      vcost(k) == MpCost(m, R.V[k].x, VAdd(U[1], MatTVec([j \in 1..m.nx |-> VSub(U[j + 1], U[1])], R.V[k].x, m.nu)))
  IN IF ~ RegionShape(m, R) THEN { "region-shape" }
     ELSE Fail("region-law-not-stationary",
            \A k \in 1..(m.nx + 1) :
               VNear(VAdd(VAdd(MatVec(m.Huu, U[k]), VAdd(MatVec(m.Hux, X[k]), m.fu)), MatTVec(m.Au, Pm[k], m.nu)), ZeroV(m.nu), t))
          \cup Fail("region-active-row-not-tight",
            \A k \in 1..(m.nx + 1) : \A i \in act : RNear(RAdd(Dot(m.Au[i], U[k]), Dot(m.Ax[i], X[k])), m.b[i], t))
          \cup Fail("region-inactive-multiplier-not-zero",
            \A k \in 1..(m.nx + 1) : \A i \in 1..NC(m) : i \in act \/ RNear(Pm[k][i], R0, t))
          \cup Fail("region-value-law",
            \A k \in 1..Len(R.V) : LET v == vcost(k) IN RNear(R.V[k].v, v, RMul(RTenTo(8), RMul(sc, RAdd(sc, RAbs(v))))))
          \cup (IF Len(certs) # NC(m) \/ \E i \in 1..NC(m) : ~ RowCertOK(reg, row(i)[1], bt(i), certs[i]) THEN { "witness-region" }
                ELSE Fail("region-negative-multiplier", \A i \in act : RowHolds(certs[i]))
                     \cup Fail("region-violates-constraint", \A i \in 1..NC(m) : i \in act \/ RowHolds(certs[i])))
\* all the rows that are tight at the optimum w of the program at x
TightAt(m, x, u) == { i \in 1..NC(m) : RNear(RAdd(Dot(m.Au[i], u), Dot(m.Ax[i], x)), m.b[i], RTenTo(6)) }
Repeats(s) == Cardinality({ s[k] : k \in 1..Len(s) }) # Len(s)
RegionVerdict(e) ==
  LET m == e.m  r == e.r
  IN IF ~ MpWellFormed(m) THEN { "witness-mpqp" }
     ELSE IF e.ask = "set"
     THEN IF BadCall(r) THEN { "region-no-answer" }
          ELSE IF Absent(r) THEN Fail("independent-active-set-refused", ~ Independent(m, e.act))
          ELSE Fail("dependent-active-set-accepted", Independent(m, e.act))
               \cup Fail("region-active-set", { r.act[k] : k \in 1..Len(r.act) } = { e.act[k] : k \in 1..Len(e.act) })
               \cup RegionFail(m, r, e.box, e.c)
     ELSE \* at the parameter e.x with the certificate e.w
          IF ~ QPWitOK(MpAt(m, e.x), e.w) THEN { "witness-mpqp-point" }
          ELSE IF BadCall(r) THEN { "region-no-answer" }
          ELSE IF e.w.k = "inf" THEN Fail("region-at-infeasible-parameter", Absent(r))
          ELSE LET tight == SetToSortedSeq(TightAt(m, e.x, e.w.x))
               IN IF Absent(r) THEN Fail("no-region-at-feasible-parameter", ~ Independent(m, tight))
                  ELSE RegionFail(m, r, e.box, e.c)
                       \cup (IF RegionShape(m, r) /\ Independent(m, tight)
                             THEN Fail("region-does-not-contain-parameter", InTol(r.pol, e.x, RMul(Tol6, RAdd(R1, MaxAbs(e.x)))))
                                  \cup Fail("law-at-parameter",
                                         VNear(VAdd(r.u0, MatTVec([j \in 1..m.nx |-> VSub(r.ue[j], r.u0)], e.x, m.nu)), e.w.x,
                                               RMul(Tol6, RMul(DataScale(m), RAdd(R1, MaxAbs(e.w.x))))))
                             ELSE {})

(***************************************************************************)
(* P13.  e.regs: polyhedra of the reported regions (in order);             *)
(* e.q: queries [x, w, u, p, V, reg];  e.cover[k][i]: why nothing is       *)
(* missing beyond row i of region k:                                       *)
(*   "redundant": the row is implied by the others,                        *)
(*   "boundary":  the row bounds the feasible set,                         *)
(*   "shared":    the whole facet belongs to region j, on the other side,  *)
(*   "outside":   the facet lies outside the box considered,               *)
(*   "hole":      a feasible parameter x that no region contains.          *)
(* When every row has one of the first three certificates the regions      *)
(* cover the feasible set: a path in the feasible set can leave the union  *)
(* only through a facet (paths through faces of lower dimension can be     *)
(* perturbed).  e.sep: one certificate per pair of regions.                *)
(***************************************************************************)
Facet(P, i) == [P EXCEPT !.C = Append(P.C, P.A[i]), !.d = Append(P.d, P.b[i])]
\* drop: the rows of P dropped as redundant before row i (their multipliers have to be zero)
CoverOK(m, regs, k, i, c, box, drop) ==
  LET P == regs[k]
  IN CASE c.k = "redundant" -> c.w.k # "pt" /\ (\A j \in drop : c.w.y[j] = R0) /\ RowCertOK(Clip(Without(P, i), box), P.A[i], RAdd(P.b[i], RowTol(RTenTo(6), P.A[i], P.b[i])), c.w)
       [] c.k = "boundary"  -> c.w.k = "dual" /\ RowCertOK(Joint(m), P.A[i] \o ZeroV(m.nu), RAdd(P.b[i], RowTol(RTenTo(6), P.A[i], P.b[i])), c.w)
       [] c.k = "outside"   -> c.w.k = "farkas" /\ RowCertOK(Clip(Facet(P, i), box), P.A[i], R0, c.w)
       [] c.k = "shared"    ->
            LET Q == regs[c.j]  F == Clip(Facet(P, i), box)
            IN /\ c.j # k /\ RPos(c.s)
               /\ VNear(Q.A[c.i], VNeg(VScale(c.s, P.A[i])), RMul(Tol6, RAdd(R1, MaxAbs(Q.A[c.i]))))
               /\ RNear(Q.b[c.i], RNeg(RMul(c.s, P.b[i])), RMul(Tol6, RAdd(R1, RAbs(Q.b[c.i]))))
               /\ Len(c.w) = NIneq(Q)
               /\ \A j \in 1..NIneq(Q) : c.w[j].k # "pt" /\ RowCertOK(F, Q.A[j], RAdd(Q.b[j], RowTol(RTenTo(6), Q.A[j], Q.b[j])), c.w[j])
       [] c.k = "hole"      -> /\ In(Joint(m), c.x \o c.u)
                               /\ \A j \in 1..Len(regs) : ~ InTol(regs[j], c.x, RTenTo(6))
       [] c.k = "unknown"   -> TRUE
       [] OTHER -> FALSE
SepOK(regs, c) ==
  LET P == regs[c.i]  Q == regs[c.j]  A == P.A \o Q.A  b == P.b \o Q.b
  IN CASE c.k = "sep" -> /\ Len(c.y) = Len(A) /\ VNonNeg(c.y) /\ RPos(Sum(c.y)) /\ MatTVec(A, c.y, P.n) = ZeroV(P.n)
                         /\ \A r \in 1..Len(A) : c.y[r] = R0 \/ RLeq(RFrac(1, 4), MaxAbs(A[r]))
                         /\ RLeq(Dot(c.y, b), RMul(RTenTo(5), Sum(c.y)))
       [] c.k = "pt"  -> \A r \in 1..Len(A) : RLt(MaxAbs(A[r]), RFrac(1, 4)) \/ RLeq(RAdd(Dot(A[r], c.x), RTenTo(6)), b[r])
       [] OTHER -> FALSE
QueryFail(m, q) ==
  LET p == MpAt(m, q.x)
  IN IF ~ QPWitOK(p, q.w) THEN { "witness-mpqp-query" }
     ELSE IF q.w.k = "inf" THEN Fail("explicit-answer-although-infeasible", q.u.k = "none" /\ q.p.k = "none" /\ q.V.k = "none" /\ q.reg.k = "none")
     ELSE IF q.u.k # "ok" \/ q.p.k # "ok" \/ q.V.k # "ok" \/ q.reg.k # "ok" THEN { "explicit-no-answer-at-feasible-parameter" }
     ELSE LET v == MpCost(m, q.x, q.w.x)  sc == RMul(DataScale(m), RAdd(RAdd(R1, MaxAbs(q.x)), RMax(MaxAbs(q.w.x), MaxAbs(q.w.y))))
              t == RMul(Tol6, sc)
          IN Fail("explicit-input", VNear(q.u.v, q.w.x, t))
             \cup Fail("explicit-value", RNear(q.V.v, v, RMul(t, sc)))
             \cup Fail("explicit-multipliers", ~ Independent(m, SetToSortedSeq(TightAt(m, q.x, q.w.x))) \/ VNear(q.p.v, q.w.y, RMul(RInt(10), t)))
             \cup Fail("explicit-region", InTol(q.reg.pol, q.x, Tol6))
ExplicitVerdict(e) ==
  LET m == e.m  n == Len(e.regs)
  IN IF ~ MpWellFormed(m) THEN { "witness-mpqp" }
     ELSE IF e.r.k # "ok" THEN { "explicit-no-answer" }
     ELSE IF \E k \in 1..n : ~ WellFormed(e.regs[k]) \/ e.regs[k].n # m.nx THEN { "explicit-shape" }
     ELSE IF Len(e.cover) # n \/ (\E k \in 1..n : Len(e.cover[k]) # NIneq(e.regs[k]))
             \/ (\E k \in 1..n : \E i \in 1..NIneq(e.regs[k]) : ~ CoverOK(m, e.regs, k, i, e.cover[k][i], e.box,
                                                                       { j \in 1..(i - 1) : e.cover[k][j].k = "redundant" }))
          THEN { "witness-cover" }
     ELSE IF { { e.sep[k].i, e.sep[k].j } : k \in 1..Len(e.sep) } # { { i, j } : i, j \in 1..n } \ { { i } : i \in 1..n }
             \/ (\E k \in 1..Len(e.sep) : ~ SepOK(e.regs, e.sep[k])) THEN { "witness-separation" }
     ELSE UNION { QueryFail(m, e.q[k]) : k \in 1..Len(e.q) }
          \cup Fail("explicit-hole", \A k \in 1..n : \A i \in 1..NIneq(e.regs[k]) : e.cover[k][i].k # "hole")
          \cup Fail("explicit-overlap", \A k \in 1..Len(e.sep) : e.sep[k].k = "sep")

\* one program solved at one parameter (also used by P20, P21)
MpSolveVerdict(e) ==
  LET m == e.m  r == e.r  p == MpAt(m, e.x)
  IN IF ~ MpWellFormed(m) \/ ~ QPWitOK(p, e.w) THEN { "witness-mpqp-query" }
     ELSE IF BadCall(r) THEN { "parametric-no-answer" }
     ELSE IF e.w.k = "inf" THEN Fail("parametric-answer-although-infeasible", Absent(r))
     ELSE IF Absent(r) THEN { "parametric-feasible-refused" }
     ELSE LET v == MpCost(m, e.x, e.w.x)  sc == RMul(DataScale(m), RAdd(RAdd(R1, MaxAbs(e.x)), MaxAbs(e.w.x)))
          IN Fail("parametric-input", VNear(r.u, e.w.x, RMul(Tol6, sc)))
             \cup Fail("parametric-value", RNear(r.V, v, RMul(RMul(Tol6, sc), sc)))

ParVerdict(e) ==
  CASE e.ev = "region" -> RegionVerdict(e)
    [] e.ev = "explicit" -> ExplicitVerdict(e)
    [] e.ev = "mpsolve" -> MpSolveVerdict(e)
    [] OTHER -> CtrlVerdict(e)
=============================================================================
