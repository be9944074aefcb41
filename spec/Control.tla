------------------------------ MODULE Control ------------------------------
(***************************************************************************)
(* Admissible invariant sets and optimal control (P19 - P23).              *)
(*                                                                         *)
(* An optimal-control problem is [sys, doms, modes, Q, R, P, XN]: from the *)
(* state x0, at step t the state follows sys[modes[t]] and (x(t), u(t)) is *)
(* in doms[modes[t]], x(N) is in XN, and the cost is                       *)
(*   1/2 sum_t (x'Qx + u'Ru) + 1/2 x(N)'P x(N).                            *)
(* It is stated below as the quadratic program in all the inputs and all   *)
(* the states, with the dynamics as equalities: nothing is eliminated, so  *)
(* the optimality certificate refers to the problem as documented.         *)
(***************************************************************************)
EXTENDS Helpers

(***************************************************************************)
(* P19                                                                     *)
(***************************************************************************)
\* {x | X.A A^t x <= X.b for t = 0..T}
RECURSIVE Powers(_, _, _, _)
Powers(M, A, n, T) == IF T < 0 THEN << >> ELSE M \o Powers(MatMul(M, A, n), A, n, T - 1)
RECURSIVE Repeat(_, _)
Repeat(v, k) == IF k = 0 THEN << >> ELSE v \o Repeat(v, k - 1)
Admissible(X, A, T) == [n |-> X.n, A |-> Powers(X.A, A, X.n, T), b |-> Repeat(X.b, T + 1), C |-> << >>, d |-> << >>]
RECURSIVE MatPow(_, _, _)
MatPow(A, k, n) == IF k = 0 THEN IdM(n) ELSE MatMul(A, MatPow(A, k - 1, n), n)
\* M = Admissible(X, A, T) is the set of all admissible states: one more step imposes nothing new
SettledOK(X, A, T, certs) ==
  LET M == Admissible(X, A, T)  J == MatMul(X.A, MatPow(A, T + 1, X.n), X.n)
  IN /\ Len(certs) = NIneq(X)
     /\ \A i \in 1..NIneq(X) : certs[i].k = "dual" /\ RowCertOK(M, J[i], X.b[i], certs[i])
\* substitution u = K x in a set of states and inputs
CloseLoop(D, K, nx, nu) == [n |-> nx,
   A |-> [i \in 1..NIneq(D) |-> VAdd(SubSeq(D.A[i], 1, nx), MatTVec(K, SubSeq(D.A[i], nx + 1, nx + nu), nx))],
   b |-> D.b, C |-> << >>, d |-> << >>]
McaisVerdict(e) ==
  LET A == e.A  X == e.X  n == X.n
      refuse == e.w.k # "set"
      witok == CASE e.w.k = "unstable" -> \* an eigenvalue of A^p (p <= 4) larger than 1.05 in absolute value
                                          /\ e.w.v # ZeroV(n) /\ e.w.p \in 1..4
                                          /\ MatTVec(MatPow(A, e.w.p, n), e.w.v, n) = VScale(e.w.lam, e.w.v)
                                          /\ RLt(RFrac(105, 100), RAbs(e.w.lam))
                 [] e.w.k = "no-origin" -> \E i \in 1..NIneq(X) : RLt(X.b[i], RNeg(RTenTo(4)))
                 [] e.w.k = "unbounded" -> RayOK(X, e.w.ray)
                 [] OTHER -> /\ \A i \in 1..NIneq(X) : RPos(X.b[i])
                             /\ BoundedOK(X, e.w.c) /\ StableOK(A, e.w.W) /\ SettledOK(X, A, e.w.T, e.w.settled)
  IN IF ~ WellFormed(X) \/ ~ witok THEN { "witness-invariant-set" }
     ELSE IF refuse THEN Fail("invariant-set-not-refused-" \o e.w.k, e.r.k = "exc")
     ELSE IF e.r.k # "ok" THEN { "invariant-set-no-answer" }
     ELSE LET O == e.r.p  M == Admissible(X, A, e.w.T)
              need(k) == RowCertOK(Without(O, k), O.A[k], O.b[k], e.w.need[k])
          IN SameSetFail(O, M, e.box, Tol6, e.w)
             \cup (IF Len(e.w.need) # NIneq(O) \/ \E k \in 1..NIneq(O) : ~ need(k) THEN { "witness-invariant-set-minimal" }
                   ELSE Fail("redundant-inequality", \A k \in 1..NIneq(O) : ~ RowHolds(e.w.need[k])))
McaisInput(e) == IF "D" \in DOMAIN e
                 THEN [e EXCEPT !.A = ClosedA(e.S, e.K), !.X = CloseLoop(e.D, e.K, e.S.nx, e.S.nu)]
                 ELSE e

(***************************************************************************)
(* The optimal-control problem as a quadratic program in                   *)
(* (u(0), ..., u(N-1), x(1), ..., x(N)).                                   *)
(***************************************************************************)
NXof(o) == o.sys[1].nx
NUof(o) == o.sys[1].nu
Hor(o)  == Len(o.modes)
OcpDim(o) == Hor(o) * (NUof(o) + NXof(o))
\* position of u(t) and x(t) (t >= 1) in the vector of unknowns
AtU(o, t) == t * NUof(o)
AtX(o, t) == Hor(o) * NUof(o) + (t - 1) * NXof(o)
\* a row with the blocks a at position p and b at position q (p < q or disjoint)
Place(n, a, p) == [j \in 1..n |-> IF j > p /\ j <= p + Len(a) THEN a[j - p] ELSE R0]
\* the constraint  f x(t) + g u(t) <= h  as << row, rhs >>
StageRow(o, x0, t, f, g, h) ==
  LET n == OcpDim(o)
      ru == IF g = << >> THEN ZeroV(n) ELSE Place(n, g, AtU(o, t))
  IN IF t = 0 THEN << ru, RSub(h, Dot(f, x0)) >> ELSE << VAdd(ru, Place(n, f, AtX(o, t))), h >>
StageRows(o, x0, t, M, v) ==
  [i \in 1..Len(M) |-> StageRow(o, x0, t, SubSeq(M[i], 1, NXof(o)), SubSeq(M[i], NXof(o) + 1, Len(M[i])), v[i])]
\* component i of  x(t+1) - A x(t) - B u(t) = c
DynRow(o, x0, t, i) ==
  LET S == o.sys[o.modes[t + 1]]  n == OcpDim(o)
      r == VSub(Place(n, UnitV(NXof(o), i), AtX(o, t + 1)), Place(n, S.B[i], AtU(o, t)))
  IN IF t = 0 THEN << r, RAdd(S.c[i], Dot(S.A[i], x0)) >> ELSE << VSub(r, Place(n, S.A[i], AtX(o, t))), S.c[i] >>
\* concatenation of f(0), ..., f(k)
RECURSIVE CatUpto(_, _)
CatUpto(f, k) == IF k < 0 THEN << >> ELSE CatUpto(f, k - 1) \o f[k]
OcpProgram(o, x0) ==
  LET N == Hor(o)  n == OcpDim(o)  nx == NXof(o)  nu == NUof(o)
      dom(t) == o.doms[o.modes[t + 1]]
      ineq == CatUpto([t \in 0..N |-> IF t < N THEN StageRows(o, x0, t, dom(t).A, dom(t).b) ELSE StageRows(o, x0, t, o.XN.A, o.XN.b)], N)
      eq   == CatUpto([t \in 0..N |-> IF t < N THEN StageRows(o, x0, t, dom(t).C, dom(t).d) ELSE StageRows(o, x0, t, o.XN.C, o.XN.d)], N)
              \o CatUpto([t \in 0..(N - 1) |-> [i \in 1..nx |-> DynRow(o, x0, t, i)]], N - 1)
      \* row j of the Hessian
      hrow(j) == IF j <= N * nu THEN Place(n, o.R[((j - 1) % nu) + 1], ((j - 1) \div nu) * nu)
                 ELSE LET k == j - N * nu - 1  t == (k \div nx) + 1  i == (k % nx) + 1
                      IN Place(n, IF t = N THEN o.P[i] ELSE o.Q[i], AtX(o, t))
  IN [n |-> n, H |-> [j \in 1..n |-> hrow(j)], f |-> ZeroV(n),
      A |-> [i \in 1..Len(ineq) |-> ineq[i][1]], b |-> [i \in 1..Len(ineq) |-> ineq[i][2]],
      C |-> [i \in 1..Len(eq) |-> eq[i][1]], d |-> [i \in 1..Len(eq) |-> eq[i][2]],
      off |-> RMul(RHalf, Dot(x0, MatVec(o.Q, x0)))]
\* weights for which the certificate is sufficient and the optimum unique in u
WeightsOK(o) == /\ Sym(o.R) /\ PosDef(o.R) /\ Sym(o.Q) /\ Sym(o.P)
                /\ \A M \in { o.Q, o.P } : \A k \in SUBSET (1..Len(M)) : k # {} =>
                      LET s == SetToSortedSeq(k) IN RNonNeg(Det([i \in 1..Len(s) |-> [j \in 1..Len(s) |-> M[s[i]][s[j]]]]))
\* w: [k = "opt", x, y, z] or [k = "inf", y, z]
OcpWitOK(o, x0, w) == LET q == OcpProgram(o, x0) IN WellFormed(q) /\ QPWitOK(q, w)
OcpVal(o, x0, w) == LET q == OcpProgram(o, x0) IN RAdd(QPVal(q, w.x), q.off)
OcpInputs(o, w) == Cut(SubSeq(w.x, 1, Hor(o) * NUof(o)), NUof(o))
\* cost of a sequence of inputs, by simulation
HalfCost(o, x0, us) == LET X == Run(o.sys, o.modes, x0, us)  N == Hor(o)
  IN RMul(RHalf, RAdd(Sum([t \in 1..N |-> RAdd(Dot(X[t], MatVec(o.Q, X[t])), Dot(us[t], MatVec(o.R, us[t])))]),
                      Dot(X[N + 1], MatVec(o.P, X[N + 1]))))
\* the trajectory X under us meets every constraint up to t
TrajIn(o, X, us, t) ==
  LET N == Hor(o)
  IN /\ \A k \in 1..N : InTol(o.doms[o.modes[k]], X[k] \o us[k], RMul(t, RAdd(R1, RMax(MaxAbs(X[k]), MaxAbs(us[k])))))
     /\ InTol(o.XN, X[N + 1], RMul(t, RAdd(R1, MaxAbs(X[N + 1]))))

\* clauses for an answer [k, u, V] to the problem o at x0
OcpAnswerFail(o, x0, w, r, t) ==
  IF BadCall(r) THEN { "controller-no-answer" }
  ELSE IF w.k = "inf" THEN Fail("answer-although-infeasible", Absent(r))
  ELSE IF Absent(r) THEN { "feasible-state-refused" }
  ELSE IF ~ ShapeM(r.u, Hor(o), NUof(o)) THEN { "controller-shape" }
  ELSE LET v == OcpVal(o, x0, w)  us == OcpInputs(o, w)  X == Run(o.sys, o.modes, x0, r.u)
           sc == RAdd(R1, RMax(MaxAbsM(us), MaxAbsM(X)))
           vt == RMul(RMul(RInt(100), t), RAdd(R1, RAdd(RAbs(v), RMul(sc, sc))))
       IN Fail("not-the-optimal-inputs", MNear(r.u, us, RMul(RMul(RInt(10), t), sc)))
          \cup Fail("optimal-value", RNear(r.V, v, vt))
          \cup Fail("value-is-not-the-cost", RNear(HalfCost(o, x0, r.u), r.V, vt))
          \cup Fail("constraint-violated", TrajIn(o, X, r.u, RMul(RInt(10), t)))

(***************************************************************************)
(* P20: e.o with one mode; e.q is a list of queries at one state           *)
(*   [x, w, impl, expl (or none), fb, fbe]                                 *)
(***************************************************************************)
FirstFail(name, r, fb) ==
  IF r.k = "none" THEN Fail(name, fb.k = "none")
  ELSE IF r.k # "ok" THEN {}
  ELSE IF fb.k # "ok" THEN { name }
  ELSE Fail(name, VNear(fb.u, r.u[1], RTenTo(6)))
MPCVerdict(e) ==
  IF ~ WeightsOK(e.o) THEN { "witness-weights" }
  ELSE UNION { LET q == e.q[i]
               IN IF ~ OcpWitOK(e.o, q.x, q.w) THEN { "witness-ocp" }
                  ELSE OcpAnswerFail(e.o, q.x, q.w, q.impl, Tol6)
                       \cup FirstFail("feedback-is-not-the-first-input", q.impl, q.fb)
                       \cup (IF q.expl.k = "not-asked" THEN {}
                             ELSE { "explicit-" \o c : c \in OcpAnswerFail(e.o, q.x, q.w, q.expl, Tol6) }
                                  \cup FirstFail("explicit-feedback-is-not-the-first-input", q.expl, q.fbe))
               : i \in 1..Len(e.q) }

(***************************************************************************)
(* P21: the condensed program [Huu, Hux, Hxx, fu, fx, g, Au, Ax, b] as a   *)
(* function of (x, u).                                                     *)
(***************************************************************************)
\* constraints in the space (x0, u): exact elimination of the states
RECURSIVE AffineStates(_, _)
\* AffineStates(o, t): x(t) as << matrix over (x0, u), constant >>
AffineStates(o, t) ==
  LET nx == NXof(o)  nu == NUof(o)  n == nx + Hor(o) * nu
  IN IF t = 0 THEN << [i \in 1..nx |-> UnitV(n, i)], ZeroV(nx) >>
     ELSE LET p == AffineStates(o, t - 1)  S == o.sys[o.modes[t]]
          IN << [i \in 1..nx |-> VAdd(MatTVec(p[1], S.A[i], n), Place(n, S.B[i], nx + (t - 1) * nu))],
                VAdd(MatVec(S.A, p[2]), S.c) >>
\* the constraint rows M (over (x(t), u(t))) <= v in the space (x0, u): << M', v' >>
ElimRow(o, st, t, m, v) ==
  LET nx == NXof(o)  nu == NUof(o)  n == nx + Hor(o) * nu
      f == SubSeq(m, 1, nx)  g == SubSeq(m, nx + 1, Len(m))
      r == MatTVec(st[1], f, n)
  IN << IF g = << >> THEN r ELSE VAdd(r, Place(n, g, nx + t * nu)), RSub(v, Dot(f, st[2])) >>
ElimRows(o, st, t, M, v) == [i \in 1..Len(M) |-> ElimRow(o, st, t, M[i], v[i])]
OcpSet(o) ==
  LET N == Hor(o)
      dom(t) == o.doms[o.modes[t + 1]]
      rows(t) == LET st == AffineStates(o, t)
                 IN IF t < N THEN << ElimRows(o, st, t, dom(t).A, dom(t).b), ElimRows(o, st, t, dom(t).C, dom(t).d) >>
                    ELSE << ElimRows(o, st, t, o.XN.A, o.XN.b), ElimRows(o, st, t, o.XN.C, o.XN.d) >>
      all == [t \in 0..N |-> rows(t)]
      ineq == CatUpto([t \in 0..N |-> all[t][1]], N)
      eq == CatUpto([t \in 0..N |-> all[t][2]], N)
  IN [n |-> NXof(o) + N * NUof(o), A |-> [i \in 1..Len(ineq) |-> ineq[i][1]], b |-> [i \in 1..Len(ineq) |-> ineq[i][2]],
      C |-> [i \in 1..Len(eq) |-> eq[i][1]], d |-> [i \in 1..Len(eq) |-> eq[i][2]]]
MpCost(m, x, u) == RAdd(RAdd(RAdd(RMul(RHalf, Dot(u, MatVec(m.Huu, u))), Dot(u, MatVec(m.Hux, x))),
                             RAdd(RMul(RHalf, Dot(x, MatVec(m.Hxx, x))), Dot(m.fu, u))), RAdd(Dot(m.fx, x), m.g))
\* points that determine a quadratic function of n variables
QuadPts(n) == { ZeroV(n) } \cup { UnitV(n, i) : i \in 1..n } \cup { VNeg(UnitV(n, i)) : i \in 1..n }
              \cup { VAdd(UnitV(n, i), UnitV(n, j)) : i \in 1..n, j \in 1..n }
CondensedVerdict(e) ==
  LET o == e.o  m == e.r.m  nx == NXof(o)  nv == Hor(o) * NUof(o)
      set == [n |-> nx + nv, A |-> [i \in 1..Len(m.Ax) |-> m.Ax[i] \o m.Au[i]], b |-> m.b, C |-> << >>, d |-> << >>]
      cost(z) == HalfCost(o, SubSeq(z, 1, nx), Cut(SubSeq(z, nx + 1, nx + nv), NUof(o)))
  IN IF e.r.k # "ok" THEN { "condensing-no-answer" }
     ELSE IF ~ (ShapeM(m.Huu, nv, nv) /\ ShapeM(m.Hux, nv, nx) /\ ShapeM(m.Hxx, nx, nx) /\ Len(m.fu) = nv /\ Len(m.fx) = nx
                /\ ShapeM(m.Ax, Len(m.b), nx) /\ ShapeM(m.Au, Len(m.b), nv)) THEN { "condensed-shape" }
     ELSE Fail("condensed-cost", \A z \in QuadPts(nx + nv) :
                  LET c == cost(z) IN RNear(MpCost(m, SubSeq(z, 1, nx), SubSeq(z, nx + 1, nx + nv)), c, RMul(RTenTo(8), RAdd(e.scale, RAbs(c)))))
          \cup { "condensed-" \o c : c \in SameSetFail(set, OcpSet(o), e.box, Tol6, e.w) \ { "witness-set-too-small", "witness-set-too-large" } }
          \cup (SameSetFail(set, OcpSet(o), e.box, Tol6, e.w) \cap { "witness-set-too-small", "witness-set-too-large" })
\* the program solved at a state
FixedModeVerdict(e) ==
  IF ~ WeightsOK(e.o) \/ ~ OcpWitOK(e.o, e.x, e.w) THEN { "witness-ocp" }
  ELSE OcpAnswerFail(e.o, e.x, e.w, e.r, Tol6)

(***************************************************************************)
(* P22: a closed-loop log.  e.s[t] = [x, r = [k, u, V]].  e.w: inputs that *)
(* show that the first state is feasible for the controller's problem.     *)
(***************************************************************************)
ClosedLoopVerdict(e) ==
  LET S == e.S  L == e.s  n == Len(L)
      stage(t) == RMul(RHalf, RAdd(Dot(L[t].x, MatVec(e.Q, L[t].x)), Dot(L[t].r.u, MatVec(e.R, L[t].r.u))))
      ok(t) == L[t].r.k = "ok"
      X == Run(<< S >>, [t \in 1..Len(e.w) |-> 1], L[1].x, e.w)
  IN IF ~ (Len(e.w) = e.N /\ (\A t \in 1..e.N : In(e.D, X[t] \o e.w[t])) /\ In(e.XN, X[e.N + 1])) THEN { "witness-closed-loop" }
     ELSE IF \E t \in 1..n : L[t].r.k \notin { "ok", "none" } THEN { "closed-loop-no-answer" }
     ELSE IF \E t \in 1..n : ~ ok(t) THEN { "closed-loop-becomes-infeasible" }
     ELSE IF \E t \in 1..n : Len(L[t].r.u) # S.nu \/ Len(L[t].x) # S.nx THEN { "closed-loop-shape" }
     ELSE Fail("closed-loop-constraint-violated", \A t \in 1..n : InTol(e.D, L[t].x \o L[t].r.u, RTenTo(5)))
          \cup Fail("closed-loop-dynamics",
                 \A t \in 1..(n - 1) : VNear(L[t + 1].x, Step(S, L[t].x, L[t].r.u), RMul(Tol9, RAdd(R1, MaxAbs(L[t + 1].x)))))
          \cup Fail("closed-loop-cost-does-not-decrease",
                 \A t \in 1..(n - 1) : RLeq(L[t + 1].r.V, RAdd(RSub(L[t].r.V, stage(t)), RMul(RTenTo(5), RAdd(R1, L[t].r.V)))))
          \cup Fail("closed-loop-negative-cost", \A t \in 1..n : RLeq(RNeg(RTenTo(6)), L[t].r.V))

(***************************************************************************)
(* P23: e.w: one certificate per mode sequence.                            *)
(***************************************************************************)
RECURSIVE AllSeqs(_, _)
AllSeqs(s, N) == IF N = 0 THEN { << >> } ELSE { Append(q, i) : q \in AllSeqs(s, N - 1), i \in 1..s }
WithModes(o, m) == [o EXCEPT !.modes = m]
GapTol == RFrac(5, 10000)
HybridVerdict(e) ==
  LET o == e.o  r == e.r  w == e.w  N == e.N  s == Len(o.sys)
  IN IF ~ WeightsOK(o) \/ { w[k].modes : k \in 1..Len(w) } # AllSeqs(s, N)
        \/ \E k \in 1..Len(w) : ~ OcpWitOK(WithModes(o, w[k].modes), e.x, w[k]) THEN { "witness-hybrid" }
     ELSE IF BadCall(r) THEN { "hybrid-no-answer" }
     ELSE LET vals == { OcpVal(WithModes(o, w[k].modes), e.x, w[k]) : k \in { k \in 1..Len(w) : w[k].k = "opt" } }
          IN IF vals = {} THEN Fail("hybrid-answer-although-infeasible", Absent(r) /\ e.fb.k = "none")
             ELSE IF Absent(r) THEN { "hybrid-feasible-state-refused" }
             ELSE IF ~ (ShapeM(r.u, N, NUof(o)) /\ ShapeM(r.x, N + 1, NXof(o)) /\ Len(r.modes) = N) THEN { "hybrid-shape" }
             ELSE IF \E t \in 1..N : r.modes[t] \notin 1..s THEN { "hybrid-mode-index" }
             ELSE LET v == MinOver(vals, CHOOSE v \in vals : TRUE)
                      om == WithModes(o, r.modes)
                      t == RTenTo(4)  sc == RAdd(R1, RMax(MaxAbsM(r.x), MaxAbsM(r.u)))
                      step(k) == Step(o.sys[r.modes[k]], r.x[k], r.u[k])
                      \* cost of the reported states and inputs
                      cost == RMul(RHalf, RAdd(Sum([k \in 1..N |-> RAdd(Dot(r.x[k], MatVec(o.Q, r.x[k])), Dot(r.u[k], MatVec(o.R, r.u[k])))]),
                                               Dot(r.x[N + 1], MatVec(o.P, r.x[N + 1]))))
                      vt == RMul(GapTol, RAdd(RAdd(R1, RAbs(v)), RMul(sc, sc)))
                  IN Fail("hybrid-initial-state", VNear(r.x[1], e.x, RTenTo(9)))
                     \cup Fail("hybrid-dynamics", \A k \in 1..N : VNear(r.x[k + 1], step(k), RMul(t, sc)))
                     \cup Fail("hybrid-domain", TrajIn(om, r.x, r.u, t))
                     \cup Fail("hybrid-not-optimal", RNear(r.V, v, vt))
                     \cup Fail("hybrid-value-is-not-the-cost", RNear(cost, r.V, vt))
                     \cup (IF e.fb.k # "ok" THEN { "hybrid-feedback" } ELSE Fail("hybrid-feedback", VNear(e.fb.u, r.u[1], RMul(t, sc))))

CtrlVerdict(e) ==
  CASE e.ev = "mcais" -> McaisVerdict(McaisInput(e))
    [] e.ev = "mpc" -> MPCVerdict(e)
    [] e.ev = "condensed" -> CondensedVerdict(e)
    [] e.ev = "fixedmode" -> FixedModeVerdict(e)
    [] e.ev = "closedloop" -> ClosedLoopVerdict(e)
    [] e.ev = "hybrid" -> HybridVerdict(e)
    [] OTHER -> DynVerdict(e)
=============================================================================
