------------------------------ MODULE Drawing ------------------------------
(***************************************************************************)
(* What is drawn (P26), as read back from the figure: closed polygons,     *)
(* polylines with a drawing style (straight or steps), marks and labels.   *)
(***************************************************************************)
EXTENDS Parametric

PNear(a, b, t) == RNear(a[1], b[1], t) /\ RNear(a[2], b[2], t)
Scale2(s) == RAdd(R1, MaxAbsM(s))

(***************************************************************************)
(* The polygon of a bounded polyhedron p is its shadow on two coordinates: *)
(* the drawn points belong to the shadow, the corners of the shadow are    *)
(* among them, and every side drawn lies in one facet of the shadow.       *)
(***************************************************************************)
SideOn(h, a, b, t) == \E i \in 1..NIneq(h) : LET s == RMul(t, RAdd(R1, MaxAbs(h.A[i]))) IN
                        RNear(Dot(h.A[i], a), h.b[i], s) /\ RNear(Dot(h.A[i], b), h.b[i], s)
PolygonFail(h, q, t) ==
  Fail("polygon-point-outside", \A i \in 1..Len(q) : InTol(h, q[i], t))
  \cup Fail("polygon-corner-missing", \A v \in VertexSet(h) : \E i \in 1..Len(q) : Near(q[i], v, t))
  \cup Fail("polygon-side-inside", \A i \in 1..Len(q) : LET j == IF i = Len(q) THEN 1 ELSE i + 1
                                                        IN PNear(q[i], q[j], t) \/ SideOn(h, q[i], q[j], t))
LabelFail(r, dims) == Fail("axis-label", Len(r.lab) = 0 \/ r.lab = dims)
DrawPolyVerdict(e) ==
  LET p == e.p
  IN IF ~ WellFormed(p) \/ ~ BoundedWitOK(p, e.wb) THEN { "witness-plot" }
     ELSE IF e.wb.k # "bounded" THEN Fail("plot-of-nothing", e.r.k = "exc" \/ (e.r.k = "ok" /\ e.r.polys = << >>))
     ELSE IF e.r.k # "ok" THEN { "plot-no-answer" }
     ELSE IF ~ SameRows(e.h, Hull(ShadowPts(p, e.dims), 2)) THEN { "witness-plot-shadow" }
     ELSE IF Len(e.r.polys) # 1 THEN { "plot-number-of-polygons" }
     ELSE PolygonFail(e.h, e.r.polys[1], RMul(Tol6, Scale2(e.r.polys[1]))) \cup LabelFail(e.r, e.dims)

(***************************************************************************)
(* Trajectory x in the coordinates dims: every step is drawn as a segment, *)
(* nothing else is, the start is marked, each state has its name if asked. *)
(***************************************************************************)
Pt(x, dims) == << x[dims[1]], x[dims[2]] >>
SegsOf(line) == { << line[i], line[i + 1] >> : i \in 1..(Len(line) - 1) }
AllSegs(r) == UNION { SegsOf(r.lines[k].p) : k \in 1..Len(r.lines) }
SameSeg(s, a, b, t) == (PNear(s[1], a, t) /\ PNear(s[2], b, t)) \/ (PNear(s[1], b, t) /\ PNear(s[2], a, t))
DrawPathVerdict(e) ==
  LET r == e.r  n == Len(e.x)  q == [k \in 1..n |-> Pt(e.x[k], e.dims)]  t == RMul(Tol9, Scale2(q))
  IN IF r.k # "ok" THEN { "plot-no-answer" }
     ELSE Fail("trajectory-step-not-drawn", \A k \in 1..(n - 1) : \E s \in AllSegs(r) : SameSeg(s, q[k], q[k + 1], t))
          \cup Fail("segment-not-of-the-trajectory", \A s \in AllSegs(r) : \E k \in 1..(n - 1) : SameSeg(s, q[k], q[k + 1], t))
          \cup Fail("start-not-marked", Len(r.marks) = 1 /\ PNear(r.marks[1], q[1], t))
          \cup Fail("names-of-states", IF e.text THEN Len(r.texts) = n /\ \A k \in 1..n : PNear(r.texts[k].p, q[k], t) /\ r.texts[k].n = k - 1
                                       ELSE r.texts = << >>)
          \cup Fail("legend-label", r.named = (IF e.label /\ n > 1 THEN 1 ELSE 0))
          \cup LabelFail(r, e.dims)

(***************************************************************************)
(* Functions of time.  A polyline is evaluated as it is drawn.             *)
(***************************************************************************)
Between(a, t, b) == RLeq(a, t) /\ RLeq(t, b)
At(line, t) ==      \* values of the line at time t (a set: jumps have several)
  LET p == line.p
      val(i) == LET a == p[i]  b == p[i + 1]
                IN CASE line.style = "pre" -> b[2]
                     [] line.style = "post" -> a[2]
                     [] OTHER -> IF a[1] = b[1] THEN a[2]
                                 ELSE RAdd(a[2], RDiv(RMul(RSub(b[2], a[2]), RSub(t, a[1])), RSub(b[1], a[1])))
  IN { val(i) : i \in { i \in 1..(Len(p) - 1) : Between(p[i][1], t, p[i + 1][1]) } }
Takes(line, t, v, tol) == LET s == At(line, t) IN s # {} /\ \A w \in s : RNear(w, v, tol)
\* the line has the samples s[1], s[2], ... at 0, h, 2h, ...
Samples(line, s, h, tol) ==
  /\ Len(line.p) >= Len(s)
  /\ \A k \in 1..Len(s) : \E i \in 1..Len(line.p) : RNear(line.p[i][1], RMul(RInt(k - 1), h), tol) /\ RNear(line.p[i][2], s[k], tol)
  /\ \A k \in 1..(Len(s) - 1) : Takes(line, RMul(RFrac(2 * k - 1, 2), h), RMul(RHalf, RAdd(s[k], s[k + 1])), tol)
\* the line is s[k] all along the k-th time step
Steps(line, s, h, tol) ==
  \A k \in 1..Len(s) : \A f \in { RFrac(4 * k - 3, 4), RFrac(4 * k - 2, 4), RFrac(4 * k - 1, 4) } : Takes(line, RMul(f, h), s[k], tol)
Level(line, v, N, h, tol) ==
  \A k \in 1..N : \A f \in { RFrac(4 * k - 3, 4), RFrac(4 * k - 1, 4) } : Takes(line, RMul(f, h), v, tol)
DrawTimeVerdict(e) ==
  LET r == e.r  m == e.m  n == Len(e.y)
      N == IF e.kind = "input" THEN n ELSE n - 1
      y == IF e.kind = "output" THEN [k \in 1..n |-> MatVec(e.C, e.y[k])] ELSE e.y
      comp(i) == [k \in 1..n |-> y[k][i]]
      tol == RMul(Tol9, RAdd(RAdd(R1, MaxAbsM(y)), RMul(RInt(N), e.h)))
      draws(i, l) == IF e.kind = "input" THEN Steps(l, comp(i), e.h, tol) ELSE Samples(l, comp(i), e.h, tol)
  IN IF r.k # "ok" THEN { "plot-no-answer" }
     ELSE IF Len(r.axes) # m THEN { "plot-number-of-axes" }
     ELSE UNION { LET L == r.axes[i].lines
                  IN Fail("samples-not-drawn", \E j \in 1..Len(L) : draws(i, L[j]))
                     \cup Fail("bound-not-drawn", \A b \in 1..Len(e.bounds) : \E j \in 1..Len(L) : Level(L[j], e.bounds[b][i], N, e.h, tol))
                     \cup Fail("line-too-many", Len(L) = 1 + Len(e.bounds))
                     \cup Fail("samples-out-of-view", RLeq(r.axes[i].lo, tol) /\ RLeq(RSub(RMul(RInt(N), e.h), tol), r.axes[i].hi))
                     \cup Fail("axis-label", r.axes[i].lab = << >> \/ r.axes[i].lab = << i >>)
                  : i \in 1..m }

(***************************************************************************)
(* Level sets of the optimal value of the program m.  Every drawn point of *)
(* the line of level l has points of value at most l and at least l within *)
(* one cell of the grid (the set passes there), and every segment between  *)
(* two states on different sides of l (inside the feasible set) meets the  *)
(* line up to two cells.                                                   *)
(***************************************************************************)
ValOK(m, q) == QPWitOK(MpAt(m, q.x), q.w) /\ q.w.k = "opt"
ValOf(m, q) == MpCost(m, q.x, q.w.x)
InCell(a, b, cell, k) == \A i \in 1..2 : RLeq(RAbs(RSub(a[i], b[i])), RMul(k, cell[i]))
\* distance of p to the segment from a to b, at the parameter s
OnSeg(a, b, s) == << RAdd(a[1], RMul(s, RSub(b[1], a[1]))), RAdd(a[2], RMul(s, RSub(b[2], a[2]))) >>
DrawValueVerdict(e) ==
  LET m == e.m  r == e.r
  IN IF ~ MpWellFormed(m) THEN { "witness-mpqp" }
     ELSE IF r.k # "ok" THEN { "plot-no-answer" }
     ELSE IF (\E i \in 1..Len(e.at) : ~ ValOK(m, e.at[i].lo) \/ ~ ValOK(m, e.at[i].hi))
             \/ (\E i \in 1..Len(e.cross) : ~ ValOK(m, e.cross[i].a) \/ ~ ValOK(m, e.cross[i].b)
                    \/ ~ RLt(ValOf(m, e.cross[i].a), e.cross[i].l) \/ ~ RLt(e.cross[i].l, ValOf(m, e.cross[i].b))) THEN { "witness-value" }
     ELSE Fail("no-level-drawn", e.deep < 2 \/ r.n > 0)
          \cup Fail("level-line-misplaced", \A i \in 1..Len(e.at) : LET q == e.at[i]  t == RMul(RTenTo(4), RAdd(R1, RAbs(q.l))) IN
                 /\ InCell(q.lo.x, q.p, e.cell, RFrac(5, 4)) /\ InCell(q.hi.x, q.p, e.cell, RFrac(5, 4))
                 /\ RLeq(ValOf(m, q.lo), RAdd(q.l, t)) /\ RLeq(RSub(q.l, t), ValOf(m, q.hi)))
          \cup Fail("level-line-missing", \A i \in 1..Len(e.cross) : LET q == e.cross[i] IN
                 q.found /\ RLeq(R0, q.s) /\ RLeq(q.s, R1) /\ InCell(OnSeg(q.a.x, q.b.x, q.s), q.p, e.cell, R2))

DrawVerdict(e) ==
  CASE e.ev = "drawpoly" -> DrawPolyVerdict(e)
    [] e.ev = "drawpath" -> DrawPathVerdict(e)
    [] e.ev = "drawtime" -> DrawTimeVerdict(e)
    [] e.ev = "drawvalue" -> DrawValueVerdict(e)
    [] OTHER -> ParVerdict(e)
=============================================================================
