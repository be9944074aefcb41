------------------------------ MODULE Polyhedra ------------------------------
(***************************************************************************)
(* Polyhedra {x in R^n | A x <= b, C x = d} as records [n, A, b, C, d] of  *)
(* exact rationals, and the certificates with which statements about *all* *)
(* points of a polyhedron are decided by finitely many exact operations    *)
(* (feasible points, Farkas vectors, dual solutions, recession rays).      *)
(* Certificates are found outside TLC and are not trusted: every operator  *)
(* named ...OK below checks one completely.                                *)
(***************************************************************************)
EXTENDS LinAlg, FiniteSetsExt, SequencesExt

Fail(name, cond) == IF cond THEN {} ELSE { name }

NIneq(P) == Len(P.A)
NEq(P)   == Len(P.C)

WellFormed(P) ==
  /\ Len(P.A) = Len(P.b) /\ Len(P.C) = Len(P.d)
  /\ \A i \in 1..Len(P.A) : Len(P.A[i]) = P.n
  /\ \A i \in 1..Len(P.C) : Len(P.C[i]) = P.n

\* residual of inequality i at x (non-positive when satisfied)
Res(P, i, x)  == RSub(Dot(P.A[i], x), P.b[i])
ResEq(P, i, x) == RSub(Dot(P.C[i], x), P.d[i])

\* x belongs to P, exactly / with every residual at most t
In(P, x)       == /\ \A i \in 1..NIneq(P) : RLeq(Res(P, i, x), R0)
                  /\ \A i \in 1..NEq(P) : ResEq(P, i, x) = R0
InTol(P, x, t) == /\ \A i \in 1..NIneq(P) : RLeq(Res(P, i, x), t)
                  /\ \A i \in 1..NEq(P) : RLeq(RAbs(ResEq(P, i, x)), t)
\* strictly inside every inequality by the margin t
Inside(P, x, t) == /\ \A i \in 1..NIneq(P) : IF P.A[i] = ZeroV(P.n) THEN RNonNeg(P.b[i]) ELSE RLeq(Res(P, i, x), RNeg(t))
                   /\ \A i \in 1..NEq(P) : ResEq(P, i, x) = R0

(***************************************************************************)
(* Certificates.                                                           *)
(***************************************************************************)
\* A'y + C'z
Comb(P, y, z) == VAdd(MatTVec(P.A, y, P.n), MatTVec(P.C, z, P.n))
CombRhs(P, y, z) == RAdd(Dot(P.b, y), Dot(P.d, z))
DualShape(P, y, z) == Len(y) = NIneq(P) /\ Len(z) = NEq(P) /\ VNonNeg(y)

\* P is empty: A'y + C'z = 0, y >= 0, b'y + d'z < 0
FarkasOK(P, y, z) == /\ DualShape(P, y, z)
                     /\ Comb(P, y, z) = ZeroV(P.n)
                     /\ RSgn(CombRhs(P, y, z)) < 0

\* a'x <= beta for every x in P
UpperOK(P, a, beta, y, z) == /\ DualShape(P, y, z)
                             /\ Comb(P, y, z) = a
                             /\ RLeq(CombRhs(P, y, z), beta)

\* r is a nonzero direction of recession
RayOK(P, r) == /\ Len(r) = P.n /\ r # ZeroV(P.n)
               /\ \A i \in 1..NIneq(P) : RSgn(Dot(P.A[i], r)) <= 0
               /\ \A i \in 1..NEq(P) : Dot(P.C[i], r) = R0

\* P has no nonzero recession direction: +/- e_j are conic combinations of the rows.
\* c[j] = << [y,z] for e_j, [y,z] for -e_j >>
BoundedOK(P, c) ==
  /\ Len(c) = P.n
  /\ \A j \in 1..P.n :
       /\ DualShape(P, c[j][1].y, c[j][1].z) /\ Comb(P, c[j][1].y, c[j][1].z) = UnitV(P.n, j)
       /\ DualShape(P, c[j][2].y, c[j][2].z) /\ Comb(P, c[j][2].y, c[j][2].z) = VNeg(UnitV(P.n, j))

\* the interior of {A x < b} (no equalities) is empty: y >= 0, y # 0, A'y = 0, b'y <= 0
NoInteriorOK(P, y) ==
  /\ NEq(P) = 0 /\ Len(y) = NIneq(P) /\ VNonNeg(y) /\ y # ZeroV(Len(y))
  /\ MatTVec(P.A, y, P.n) = ZeroV(P.n)
  /\ RSgn(Dot(P.b, y)) <= 0

(***************************************************************************)
(* Emptiness certificate of either kind: w.k = "pt" or "farkas".           *)
(***************************************************************************)
FeasWitOK(P, w) == IF w.k = "pt" THEN Len(w.x) = P.n /\ In(P, w.x)
                   ELSE w.k = "farkas" /\ FarkasOK(P, w.y, w.z)

(***************************************************************************)
(* Vertices, by enumeration of the bases.                                  *)
(***************************************************************************)
\* an independent subset of the equalities (greedy)
RECURSIVE IndepFrom(_, _, _, _)
IndepFrom(M, n, i, acc) ==
  IF i > Len(M) THEN acc
  ELSE IF Rank([k \in 1..(Len(acc) + 1) |-> IF k <= Len(acc) THEN M[acc[k]] ELSE M[i]], n) > Len(acc)
       THEN IndepFrom(M, n, i + 1, Append(acc, i))
       ELSE IndepFrom(M, n, i + 1, acc)
IndepRows(M, n) == IndepFrom(M, n, 1, << >>)

SetToSortedSeq(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

VertexCand(P, ce, S) ==
  LET s == SetToSortedSeq(S)
      M == [k \in 1..(Len(ce) + Len(s)) |-> IF k <= Len(ce) THEN P.C[ce[k]] ELSE P.A[s[k - Len(ce)]]]
      r == [k \in 1..(Len(ce) + Len(s)) |-> IF k <= Len(ce) THEN P.d[ce[k]] ELSE P.b[s[k - Len(ce)]]]
  IN SolveSq(M, r)
VertexSet(P) ==
  LET ce == IndepRows(P.C, P.n)
      k  == P.n - Len(ce)
  IN IF k > NIneq(P) THEN {}
     ELSE { v \in UNION { LET s == VertexCand(P, ce, S) IN IF s[1] THEN { s[2] } ELSE {}
                            : S \in kSubset(k, 1..NIneq(P)) } : In(P, v) }

(***************************************************************************)
(* Row norms restricted to the null space of the equalities:               *)
(* |a|^2 - a C'(C C')^-1 C a'  (C with independent rows).                   *)
(***************************************************************************)
RelNorm2(P, a) ==
  IF NEq(P) = 0 THEN Norm2(a)
  ELSE LET Ca == MatVec(P.C, a)
           s  == SolveSq(MatMul(P.C, Transp(P.C, P.n), NEq(P)), Ca)
       IN RSub(Norm2(a), Dot(Ca, s[2]))

\* rational enclosure lo <= sqrt(q) <= hi
SqrtOK(q, lo, hi) == RNonNeg(lo) /\ RLeq(RMul(lo, lo), q) /\ RLeq(q, RMul(hi, hi))

\* same set of points up to t: every row of P is implied by Q and vice versa.
\* c.pq[i] certifies row i of P on Q, c.qp[i] row i of Q on P.  A certificate may give a
\* slightly larger right-hand side (at most t).
ImpliedBy(Q, a, beta, cert) == UpperOK(Q, a, beta, cert.y, cert.z)
Eqs(P) == [i \in 1..(2 * NEq(P)) |->
             IF i <= NEq(P) THEN << P.C[i], P.d[i] >> ELSE << VNeg(P.C[i - NEq(P)]), RNeg(P.d[i - NEq(P)]) >>]
\* rows of P as (a, beta) pairs: inequalities then both signs of the equalities
RowsOf(P) == [i \in 1..NIneq(P) |-> << P.A[i], P.b[i] >>] \o Eqs(P)
\* every row of P (relaxed by t) holds on all of Q
SubsetOK(Q, P, t, certs) ==
  LET r == RowsOf(P)
  IN /\ Len(certs) = Len(r)
     /\ \A i \in 1..Len(r) : ImpliedBy(Q, r[i][1], RAdd(r[i][2], t), certs[i])
=============================================================================
