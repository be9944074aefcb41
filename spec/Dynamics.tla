------------------------------ MODULE Dynamics ------------------------------
(***************************************************************************)
(* Discrete-time linear, affine and piecewise-affine systems (P14 - P18).  *)
(* A system is a record [nx, nu, A, B, c] meaning x+ = A x + B u + c (c is *)
(* zero for a linear system).                                              *)
(***************************************************************************)
EXTENDS Objects

Step(S, x, u) == VAdd(VAdd(MatVec(S.A, x), MatVec(S.B, u)), S.c)
\* states visited from x under the inputs us, the system at step t being sys[modes[t]]
RECURSIVE Run(_, _, _, _)
Run(sys, modes, x, us) ==
  IF us = << >> THEN << x >>
  ELSE << x >> \o Run(sys, Tail(modes), Step(sys[Head(modes)], x, Head(us)), Tail(us))
RECURSIVE RunK(_, _, _, _)
RunK(S, K, x, N) == IF N = 0 THEN << x >> ELSE << x >> \o RunK(S, K, Step(S, x, MatVec(K, x)), N - 1)

RECURSIVE MaxAbsM(_)
MaxAbsM(M) == IF M = << >> THEN R0 ELSE RMax(MaxAbs(Head(M)), MaxAbsM(Tail(M)))
Mag(M) == RAdd(R1, MaxAbsM(M))
SameTraj(got, want, t) == MNear(got, want, RMul(t, Mag(want)))

(***************************************************************************)
(* P14.  The prediction A_bar x + B_bar u + c_bar is affine in (x, u), and *)
(* so is the state reached after any number of steps; two affine functions *)
(* that agree at the origin and at the unit vectors agree everywhere.      *)
(***************************************************************************)
Ones(n, m) == [i \in 1..n |-> [j \in 1..m |-> R1]]
RECURSIVE Concat(_)
Concat(s) == IF s = << >> THEN << >> ELSE Head(s) \o Concat(Tail(s))
\* cut a vector of N*m numbers in N vectors of m numbers
Cut(v, m) == [k \in 1..(Len(v) \div m) |-> SubSeq(v, (k - 1) * m + 1, k * m)]
ShapeM(M, r, c) == Len(M) = r /\ \A i \in 1..r : Len(M[i]) = c
CondenseVerdict(e) ==
  LET sys == e.sys  N == Len(e.modes)  nx == sys[1].nx  nu == sys[1].nu  r == e.r
      pred(x, u) == VAdd(VAdd(MatVec(r.A, x), MatVec(r.B, u)), r.c)
      true(x, u) == Concat(Run(sys, e.modes, x, Cut(u, nu)))
      ok(x, u) == LET w == true(x, u) IN VNear(pred(x, u), w, RMul(RTenTo(11), RAdd(R1, MaxAbs(w))))
      zx == ZeroV(nx)  zu == ZeroV(N * nu)
  IN IF r.k # "ok" THEN { "condense-no-answer" }
     ELSE IF ~ (ShapeM(r.A, (N + 1) * nx, nx) /\ ShapeM(r.B, (N + 1) * nx, N * nu) /\ Len(r.c) = (N + 1) * nx)
          THEN { "condense-shape" }
     ELSE Fail("condensed-offset", ok(zx, zu))
          \cup Fail("condensed-free-evolution", \A i \in 1..nx : ok(UnitV(nx, i), zu))
          \cup Fail("condensed-forced-evolution", \A j \in 1..(N * nu) : ok(zx, UnitV(N * nu, j)))
SimVerdict(e) ==
  IF e.r.k # "ok" THEN { "simulation-no-answer" }
  ELSE LET want == IF e.op = "open" THEN Run(<< e.S >>, [t \in 1..Len(e.u) |-> 1], e.x0, e.u) ELSE RunK(e.S, e.K, e.x0, e.N)
           got == e.r.x
       IN IF ~ ShapeM(got, Len(want), e.S.nx) THEN { "simulation-shape" }
          ELSE Fail("initial-state", VNear(got[1], e.x0, RTenTo(12)))
               \cup Fail("simulated-states", SameTraj(got, want, RTenTo(11)))

(***************************************************************************)
(* P15                                                                     *)
(***************************************************************************)
ContainTol == RTenTo(7)
\* modes that may / have to be accepted at z = (x, u)
MayBe(doms, z)  == { i \in 1..Len(doms) : ~ MustExclude(Mark(doms[i], FALSE, FALSE), z, ContainTol) }
MustBe(doms, z) == { i \in 1..Len(doms) : MustContain(doms[i], z, ContainTol) }
ModeVerdict(e) ==
  LET z == e.x \o e.u
  IN IF e.r.k = "none" THEN Fail("mode-missing", MustBe(e.doms, z) = {})
     ELSE IF e.r.k # "ok" THEN { "mode-no-answer" }
     ELSE Fail("mode-not-containing", e.r.v \in MayBe(e.doms, z))
\* some choice of admissible modes leads to a pair that need not be in any domain
RECURSIVE MayLeave(_, _, _, _)
MayLeave(sys, doms, X, us) ==
  IF us = << >> THEN FALSE
  ELSE \/ \E x \in X : MustBe(doms, x \o Head(us)) = {}
       \/ LET nxt == UNION { { Step(sys[i], x, Head(us)) : i \in MayBe(doms, x \o Head(us)) } : x \in X }
          IN nxt # {} /\ MayLeave(sys, doms, nxt, Tail(us))
PWASimVerdict(e) ==
  LET r == e.r  N == Len(e.u)
  IN IF r.k = "exc" THEN Fail("simulation-refused-inside-the-domains", MayLeave(e.sys, e.doms, { e.x0 }, e.u))
     ELSE IF r.k # "ok" THEN { "simulation-no-answer" }
     ELSE IF ~ ShapeM(r.x, N + 1, e.sys[1].nx) \/ Len(r.modes) # N THEN { "simulation-shape" }
     ELSE IF \E t \in 1..N : r.modes[t] \notin 1..Len(e.sys) THEN { "simulation-mode-index" }
     ELSE Fail("initial-state", VNear(r.x[1], e.x0, RTenTo(12)))
          \cup Fail("simulated-states", SameTraj(r.x, Run(e.sys, r.modes, e.x0, e.u), RTenTo(11)))
          \cup Fail("simulated-mode-not-containing",
                 \A t \in 1..N : r.modes[t] \in MayBe(e.doms, r.x[t] \o e.u[t]))
\* e.w: for every pair i < j of domains [i, j, k = "pt", x] a common interior point or [i, j, k = "none", y]
WellPosedVerdict(e) ==
  LET n == Len(e.doms)
      pairs == { << i, j >> \in (1..n) \X (1..n) : i < j }
      okw(w) == LET D == Intersect(e.doms[w.i], e.doms[w.j])
                IN IF w.k = "pt" THEN Inside(D, w.x, RTenTo(4)) ELSE w.k = "none" /\ NoInteriorOK(D, w.y)
      overlap == \E k \in 1..Len(e.w) : e.w[k].k = "pt"
  IN IF \/ \E k \in 1..Len(e.w) : ~ okw(e.w[k])
        \/ ~ overlap /\ { << e.w[k].i, e.w[k].j >> : k \in 1..Len(e.w) } # pairs THEN { "witness-wellposed" }
     ELSE IF e.r.k # "ok" THEN { "wellposed-no-answer" }
     ELSE Fail("wellposed-verdict", e.r.v = ~ overlap)

(***************************************************************************)
(* P16.  exp(M h) with M = [A B c; 0 0 0] by its series; after K terms the *)
(* remainder is at most  q^K / K! * (1 / (1 - q/(K+1)))  in the row-sum    *)
(* norm, q = |M| h.                                                        *)
(***************************************************************************)
AugM(S) == LET n == S.nx + S.nu + 1
           IN [i \in 1..n |-> IF i <= S.nx THEN S.A[i] \o S.B[i] \o << S.c[i] >> ELSE ZeroV(n)]
RECURSIVE MaxRowSum(_)
MaxRowSum(M) == IF M = << >> THEN R0 ELSE RMax(Norm1(Head(M)), MaxRowSum(Tail(M)))
RECURSIVE ExpFrom(_, _, _, _, _)
ExpFrom(M, term, k, K, n) == IF k = K THEN ZeroM(n, n)
                             ELSE MAdd(term, ExpFrom(M, MScale(RFrac(1, k + 1), MatMul(term, M, n)), k + 1, K, n))
ExpSeries(M, K, n) == ExpFrom(M, IdM(n), 0, K, n)
RECURSIVE Remainder(_, _)
Remainder(q, k) == IF k = 0 THEN R1 ELSE RMul(RDiv(q, RInt(k)), Remainder(q, k - 1))
ZOHSys(S, h, K) == LET E == ExpSeries(MScale(h, AugM(S)), K, S.nx + S.nu + 1)
                   IN [nx |-> S.nx, nu |-> S.nu, A |-> [i \in 1..S.nx |-> SubSeq(E[i], 1, S.nx)],
                       B |-> [i \in 1..S.nx |-> SubSeq(E[i], S.nx + 1, S.nx + S.nu)], c |-> [i \in 1..S.nx |-> E[i][S.nx + S.nu + 1]]]
EulerSys(S, h) == [nx |-> S.nx, nu |-> S.nu, A |-> MAdd(IdM(S.nx), MScale(h, S.A)), B |-> MScale(h, S.B), c |-> VScale(h, S.c)]
SeriesOK(S, h, K) == LET q == RMul(h, MaxRowSum(AugM(S)))
                     IN RLeq(RMul(R2, q), RInt(K)) /\ RLeq(RMul(R2, Remainder(q, K)), RTenTo(13))
Discrete(S, h, method, K) == IF method = "explicit_euler" THEN EulerSys(S, h) ELSE ZOHSys(S, h, K)
SameSysFail(got, want, t) ==
  IF ~ (ShapeM(got.A, want.nx, want.nx) /\ ShapeM(got.B, want.nx, want.nu) /\ Len(got.c) = want.nx) THEN { "system-shape" }
  ELSE Fail("state-matrix", MNear(got.A, want.A, RMul(t, Mag(want.A))))
       \cup Fail("input-matrix", MNear(got.B, want.B, RMul(t, Mag(want.B))))
       \cup Fail("offset", VNear(got.c, want.c, RMul(t, RAdd(R1, MaxAbs(want.c)))))
DiscretizeVerdict(e) ==
  IF e.method = "zero_order_hold" /\ ~ SeriesOK(e.S, e.h, e.terms) THEN { "witness-series" }
  ELSE IF e.r.k # "ok" THEN { "discretization-no-answer" }
  ELSE SameSysFail(e.r.S, Discrete(e.S, e.h, e.method, e.terms), RTenTo(11))

(***************************************************************************)
(* P17: e.x are expressions over the variables (x, u).                     *)
(***************************************************************************)
SymSys(e) == LET A == ExprRows(e.x, e.nx + e.nu)
             IN [nx |-> e.nx, nu |-> e.nu, A |-> [i \in 1..e.nx |-> SubSeq(A[i], 1, e.nx)],
                 B |-> [i \in 1..e.nx |-> SubSeq(A[i], e.nx + 1, e.nx + e.nu)], c |-> VNeg(ExprRhs(e.x, e.nx + e.nu))]
SymSysVerdict(e) ==
  LET S == SymSys(e)  T == IF e.cont THEN Discrete(S, e.h, e.method, e.terms) ELSE S
  IN IF e.cont /\ e.method = "zero_order_hold" /\ ~ SeriesOK(S, e.h, e.terms) THEN { "witness-series" }
     ELSE IF e.linear /\ S.c # ZeroV(e.nx) THEN Fail("linear-model-with-offset-not-refused", e.r.k = "exc")
     ELSE IF e.r.k # "ok" THEN { "symbolic-no-answer" }
     ELSE SameSysFail(e.r.S, T, RTenTo(8))
          \* the expressions themselves, evaluated from their syntax
          \cup (IF e.cont THEN {}
                ELSE Fail("expression-value",
                       \A k \in 1..Len(e.q) :
                         LET v == [i \in 1..e.nx |-> EvalAt(e.x[i], e.q[k].x \o e.q[k].u)]
                         IN VNear(e.q[k].y, v, RMul(Tol9, RAdd(R1, MaxAbs(v))))))

(***************************************************************************)
(* P18                                                                     *)
(***************************************************************************)
\* controllable: inputs that steer the origin to every unit vector in nx steps;
\* uncontrollable: a direction no input ever moves (w'A^k B = 0 for k < nx, hence for all k)
RECURSIVE RowTimesPow(_, _, _)
RowTimesPow(w, A, k) == IF k = 0 THEN w ELSE RowTimesPow(MatTVec(A, w, Len(w)), A, k - 1)
ControlWitOK(S, w) ==
  IF w.k = "yes"
  THEN /\ Len(w.u) = S.nx
       /\ \A i \in 1..S.nx : LET X == Run(<< S >>, [t \in 1..Len(w.u[i]) |-> 1], ZeroV(S.nx), w.u[i]) IN X[Len(X)] = UnitV(S.nx, i)
  ELSE /\ w.k = "no" /\ w.w # ZeroV(S.nx)
       /\ \A k \in 0..(S.nx - 1) : MatTVec(S.B, RowTimesPow(w.w, S.A, k), S.nu) = ZeroV(S.nu)
ControlVerdict(e) ==
  IF ~ ControlWitOK(e.S, e.w) THEN { "witness-controllability" }
  ELSE IF e.r.k # "ok" THEN { "controllability-no-answer" }
  ELSE Fail("controllability-verdict", e.r.v = (e.w.k = "yes"))

Sym(M) == Transp(M, Len(M)) = M
\* P, K solve the Riccati equation:  (R + B'PB) K = -B'PA   and   P = Q + K'RK + (A+BK)'P(A+BK)
ClosedA(S, K) == MAdd(S.A, MatMul(S.B, K, S.nx))
Lyap(A, P, n) == MatMul(Transp(A, n), MatMul(P, A, n), n)
\* W > 0 with Acl'W Acl < W: the closed loop converges
StableOK(Acl, W) == Sym(W) /\ PosDef(W) /\ PosDef(MSub(W, Lyap(Acl, W, Len(W))))
\* cost of the inputs us followed by the terminal cost P
RECURSIVE SumCost(_, _, _, _, _, _)
SumCost(S, Q, R, P, x, us) ==
  IF us = << >> THEN Dot(x, MatVec(P, x))
  ELSE RAdd(RAdd(Dot(x, MatVec(Q, x)), Dot(Head(us), MatVec(R, Head(us)))), SumCost(S, Q, R, P, Step(S, x, Head(us)), Tail(us)))
DareVerdict(e) ==
  LET S == e.S  r == e.r  n == S.nx  m == S.nu
  IN IF ~ ControlWitOK(S, e.w) THEN { "witness-controllability" }
     ELSE IF e.w.k = "no" THEN Fail("riccati-not-refused", r.k = "exc")
     ELSE IF ~ (Sym(e.Q) /\ Sym(e.R) /\ PosDef(e.R) /\ PosDef(e.Q)) THEN { "witness-weights" }
     ELSE IF r.k # "ok" THEN { "riccati-no-answer" }
     ELSE IF ~ (ShapeM(r.P, n, n) /\ ShapeM(r.K, m, n)) THEN { "riccati-shape" }
     ELSE LET Acl == ClosedA(S, r.K)
              sc == RMul(Mag(r.P), RMul(Mag(S.A), RMul(Mag(S.B), Mag(r.K))))
              t == RMul(RTenTo(8), RMul(sc, sc))
              lhs == MatMul(MAdd(e.R, MatMul(Transp(S.B, m), MatMul(r.P, S.B, m), m)), r.K, n)
              rhs == MScale(RInt(-1), MatMul(Transp(S.B, m), MatMul(r.P, S.A, n), n))
              bell == MAdd(MAdd(e.Q, MatMul(Transp(r.K, n), MatMul(e.R, r.K, n), n)), Lyap(Acl, r.P, n))
          IN Fail("riccati-asymmetric", MNear(r.P, Transp(r.P, n), RMul(Tol9, Mag(r.P))))
             \cup Fail("riccati-gain", MNear(lhs, rhs, t))
             \cup Fail("riccati-equation", MNear(r.P, bell, t))
             \cup Fail("riccati-closed-loop-unstable", StableOK(Acl, e.lyap))
             \cup Fail("riccati-cost-not-minimal",
                    \A k \in 1..Len(e.q) :
                      LET v == Dot(e.q[k].x, MatVec(r.P, e.q[k].x))  c == SumCost(S, e.Q, e.R, r.P, e.q[k].x, e.q[k].u)
                      IN RLeq(v, RAdd(c, RMul(RTenTo(7), RAdd(R1, RAbs(c))))))

DynVerdict(e) ==
  CASE e.ev = "sim" -> SimVerdict(e)
    [] e.ev = "condense" -> CondenseVerdict(e)
    [] e.ev = "mode" -> ModeVerdict(e)
    [] e.ev = "pwasim" -> PWASimVerdict(e)
    [] e.ev = "wellposed" -> WellPosedVerdict(e)
    [] e.ev = "discretize" -> DiscretizeVerdict(e)
    [] e.ev = "symsys" -> SymSysVerdict(e)
    [] e.ev = "controllable" -> ControlVerdict(e)
    [] e.ev = "dare" -> DareVerdict(e)
    [] OTHER -> { "witness-unknown-event" }
=============================================================================
