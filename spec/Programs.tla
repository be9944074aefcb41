------------------------------ MODULE Programs ------------------------------
(***************************************************************************)
(* Linear, quadratic and mixed-integer quadratic programs, and the verdict *)
(* on a solver's answer.  A program is [n, (H,) f, A, b, C, d].            *)
(*                                                                         *)
(* A verdict is the set of names of the clauses the answer breaks; it is   *)
(* empty exactly when the answer is one the specification allows.  Clauses *)
(* starting with "witness" say that the certificate supplied with the      *)
(* event is wrong, i.e. that the machinery (not the code) is at fault.     *)
(***************************************************************************)
EXTENDS Polyhedra

\* optimality certificates --------------------------------------------------
LPOptOK(p, x, y, z) ==
  /\ Len(x) = p.n /\ In(p, x) /\ DualShape(p, y, z)
  /\ VAdd(p.f, Comb(p, y, z)) = ZeroV(p.n)
  /\ Dot(p.f, x) = RNeg(CombRhs(p, y, z))
LPUnbOK(p, x, r) == Len(x) = p.n /\ In(p, x) /\ RayOK(p, r) /\ RSgn(Dot(p.f, r)) < 0
LPWitOK(p, w) ==
  CASE w.k = "opt" -> LPOptOK(p, w.x, w.y, w.z)
    [] w.k = "inf" -> FarkasOK(p, w.y, w.z)
    [] w.k = "unb" -> LPUnbOK(p, w.x, w.ray)
    [] OTHER -> FALSE

Grad(p, x) == VAdd(MatVec(p.H, x), p.f)
QPOptOK(p, x, y, z) ==
  /\ Len(x) = p.n /\ In(p, x) /\ DualShape(p, y, z)
  /\ VAdd(Grad(p, x), Comb(p, y, z)) = ZeroV(p.n)
  /\ \A i \in 1..NIneq(p) : y[i] = R0 \/ Res(p, i, x) = R0
QPWitOK(p, w) ==
  CASE w.k = "opt" -> QPOptOK(p, w.x, w.y, w.z)
    [] w.k = "inf" -> FarkasOK(p, w.y, w.z)
    [] OTHER -> FALSE
QPVal(p, x) == QuadVal(p.H, p.f, x)

\* tolerances ----------------------------------------------------------------
\* general residual tolerance, threshold above which a multiplier must be reported as active
SolTol(s) == IF s = "pnnls" THEN RTenTo(6) ELSE RTenTo(4)
ActTol(s) == IF s = "pnnls" THEN RTenTo(6) ELSE RFrac(3, 100000)
Scale(p, x) == RAdd(R1, MaxAbs(x))

\* primal / dual conditions common to LP and QP ---------------------------------
PrimalFail(p, x, t) == Fail("primal-infeasible", InTol(p, x, RMul(t, Scale(p, x))))
DualZ(p, r) == IF r.hasz THEN r.z ELSE ZeroV(NEq(p))
ShapeFail(p, r) ==
  Fail("shape", /\ Len(r.argmin) = p.n /\ Len(r.y) = NIneq(p)
                /\ (r.hasz => Len(r.z) = NEq(p))
                /\ (NEq(p) > 0 => r.hasz)
                /\ \A k \in 1..Len(r.act) : r.act[k] \in 1..NIneq(p))
ActiveFail(p, r, s, x) ==
  Fail("active-row-not-tight",
       \A k \in 1..Len(r.act) : RLeq(RAbs(Res(p, r.act[k], x)), RMul(SolTol(s), Scale(p, x))))
  \cup Fail("positive-multiplier-not-active",
       \A i \in 1..NIneq(p) : RLt(ActTol(s), r.y[i]) => \E k \in 1..Len(r.act) : r.act[k] = i)
  \cup Fail("active-row-repeated", Cardinality({ r.act[k] : k \in 1..Len(r.act) }) = Len(r.act))
DualFail(p, g, r, t, x) ==
  LET ys == RAdd(R1, RMax(MaxAbs(r.y), MaxAbs(DualZ(p, r))))
  IN Fail("negative-multiplier", \A i \in 1..NIneq(p) : RLeq(RNeg(t), r.y[i]))
     \cup Fail("not-stationary",
            \A j \in 1..p.n : RLeq(RAbs(VAdd(g, Comb(p, r.y, DualZ(p, r)))[j]),
                                   RMul(t, RAdd(ys, RAdd(MaxAbs(x), MaxAbs(p.f))))))
     \cup Fail("complementarity",
            \A i \in 1..NIneq(p) : RLeq(RAbs(RMul(r.y[i], Res(p, i, x))),
                                        RMul(t, RMul(ys, Scale(p, x)))))

Absent(r) == r.k = "none"
BadCall(r) == r.k \notin { "ok", "none" }

LPVerdict(e) ==
  LET p == e.p  w == e.w  r == e.r  t == SolTol(e.solver)
  IN IF ~ (WellFormed(p) /\ LPWitOK(p, w)) THEN { "witness-lp" }
     ELSE IF BadCall(r) THEN { "lp-no-answer" }
     ELSE IF w.k # "opt" THEN Fail("lp-answer-although-" \o w.k, Absent(r))
     ELSE IF Absent(r) THEN { "lp-no-optimum-reported" }
     ELSE IF ShapeFail(p, r) # {} THEN ShapeFail(p, r)
     ELSE LET v == Dot(p.f, w.x)  x == r.argmin
          IN PrimalFail(p, x, t)
             \cup Fail("not-optimal", RNear(r.min, v, RMul(t, RAdd(Scale(p, w.x), RAbs(v)))))
             \cup Fail("value-is-not-cost-of-argmin",
                    RNear(Dot(p.f, x), r.min, RMul(t, RAdd(Scale(p, x), RAbs(v)))))
             \cup DualFail(p, p.f, r, t, x)
             \cup Fail("dual-value", RNear(CombRhs(p, r.y, DualZ(p, r)), RNeg(v),
                    RMul(t, RMul(RAdd(R1, RMax(MaxAbs(p.b), MaxAbs(p.d))), RAdd(RAdd(R1, RMax(MaxAbs(r.y), MaxAbs(DualZ(p, r)))), RAbs(v))))))
             \cup ActiveFail(p, r, e.solver, x)

QPVerdict(e) ==
  LET p == e.p  w == e.w  r == e.r  t == SolTol(e.solver)
  IN IF ~ (WellFormed(p) /\ PosDef(p.H) /\ QPWitOK(p, w)) THEN { "witness-qp" }
     ELSE IF BadCall(r) THEN { "qp-no-answer" }
     ELSE IF w.k # "opt" THEN Fail("qp-answer-although-infeasible", Absent(r))
     ELSE IF Absent(r) THEN { "qp-no-optimum-reported" }
     ELSE IF ShapeFail(p, r) # {} THEN ShapeFail(p, r)
     ELSE LET v == QPVal(p, w.x)  x == r.argmin
          IN PrimalFail(p, x, t)
             \cup Fail("not-the-optimum", \A j \in 1..p.n : RNear(x[j], w.x[j], RMul(RMul(RInt(10), t), Scale(p, w.x))))
             \cup Fail("value", RNear(r.min, v, RMul(RMul(RInt(10), t), RAdd(RMul(Scale(p, w.x), Scale(p, w.x)), RAbs(v)))))
             \cup DualFail(p, Grad(p, x), r, t, x)
             \cup ActiveFail(p, r, e.solver, x)

(***************************************************************************)
(* Mixed-integer QP (e.off: constant added to the cost): the last p.n - nc variables are binary.  w is the     *)
(* sequence, over all binary assignments, of [d, k, ...] certificates for  *)
(* the QP in the continuous variables that the assignment leaves.          *)
(***************************************************************************)
RECURSIVE AllBin(_)
AllBin(k) == IF k = 0 THEN { << >> } ELSE { Append(s, v) : s \in AllBin(k - 1), v \in { 0, 1 } }
Col(M, J) == [i \in 1..Len(M) |-> [j \in 1..Len(J) |-> M[i][J[j]]]]
Upto(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
FixBin(p, nc, d) ==
  LET dv == [j \in 1..Len(d) |-> RInt(d[j])]
      c  == Upto(1, nc)
      s  == Upto(nc + 1, p.n)
      Hcc == [i \in 1..nc |-> [j \in 1..nc |-> p.H[i][j]]]
      Hcd == [i \in 1..nc |-> [j \in 1..Len(d) |-> p.H[i][nc + j]]]
      Hdd == [i \in 1..Len(d) |-> [j \in 1..Len(d) |-> p.H[nc + i][nc + j]]]
      fc == SubSeq(p.f, 1, nc)
      fd == SubSeq(p.f, nc + 1, p.n)
  IN [n |-> nc, H |-> Hcc, f |-> VAdd(fc, MatVec(Hcd, dv)),
      A |-> Col(p.A, c), b |-> VSub(p.b, MatVec(Col(p.A, s), dv)),
      C |-> Col(p.C, c), d |-> VSub(p.d, MatVec(Col(p.C, s), dv)),
      off |-> QuadVal(Hdd, fd, dv)]
MIWitOK(p, nc, w) ==
  /\ { w[k].d : k \in 1..Len(w) } = AllBin(p.n - nc)
  /\ \A k \in 1..Len(w) : LET q == FixBin(p, nc, w[k].d) IN WellFormed(q) /\ QPWitOK(q, w[k])
RECURSIVE MinOver(_, _)
MinOver(vals, m) == IF vals = {} THEN m ELSE LET v == CHOOSE v \in vals : TRUE IN MinOver(vals \ { v }, IF RLeq(m, v) THEN m ELSE v)
MIVals(p, nc, w) == { LET q == FixBin(p, nc, w[k].d) IN RAdd(QPVal(q, w[k].x), q.off) : k \in { k \in 1..Len(w) : w[k].k = "opt" } }
MIQPVerdict(e) ==
  LET p == e.p  w == e.w  r == e.r  nc == e.nc  t == RTenTo(4)
  IN IF ~ (WellFormed(p) /\ MIWitOK(p, nc, w)) THEN { "witness-miqp" }
     ELSE IF BadCall(r) THEN { "miqp-no-answer" }
     ELSE LET vals == MIVals(p, nc, w)
          IN IF vals = {} THEN Fail("miqp-answer-although-infeasible", Absent(r))
             ELSE IF Absent(r) THEN { "miqp-no-optimum-reported" }
             ELSE IF Len(r.argmin) # p.n THEN { "shape" }
             ELSE LET v == MinOver(vals, CHOOSE v \in vals : TRUE)  x == r.argmin
                  IN PrimalFail(p, x, t)
                     \cup Fail("not-binary", \A j \in (nc + 1)..p.n : \/ RNear(x[j], R0, t) \/ RNear(x[j], R1, t))
                     \cup Fail("not-optimal", RNear(r.min, RAdd(v, e.off), RMul(RFrac(5, 10000), RAdd(RAdd(R1, RAbs(v)), RAbs(e.off)))))
                     \cup Fail("value-is-not-cost-of-argmin",
                            RNear(RAdd(QPVal(p, x), e.off), r.min, RMul(RFrac(5, 10000), RAdd(RMul(Scale(p, x), Scale(p, x)), RAbs(v)))))
=============================================================================
