------------------------------ MODULE Helpers ------------------------------
(***************************************************************************)
(* Contracts of the linear-algebra helpers (P24).                          *)
(***************************************************************************)
EXTENDS Dynamics

NullspaceVerdict(e) ==
  LET M == e.M  n == e.n  k == n - Rank(M, n)  Z == e.r.Z
  IN IF e.r.k # "ok" THEN { "nullspace-no-answer" }
     ELSE IF Len(Z) # n \/ \E i \in 1..n : Len(Z[i]) # k THEN { "nullspace-dimension" }
     ELSE Fail("nullspace-not-orthonormal", k = 0 \/ MNear(MatMul(Transp(Z, k), Z, k), IdM(k), RTenTo(9)))
          \cup Fail("nullspace-not-annihilated", k = 0 \/ MNear(MatMul(M, Z, k), ZeroM(Len(M), k), RMul(RTenTo(9), Mag(M))))

IndepVerdict(e) ==
  LET M == e.M  n == e.n  s == e.r.v
  IN IF e.r.k # "ok" THEN { "independent-rows-no-answer" }
     ELSE IF \E i \in 1..Len(s) : s[i] \notin 1..Len(M) THEN { "independent-rows-index" }
     ELSE LET sub == [i \in 1..Len(s) |-> M[s[i]]]
          IN Fail("selected-rows-dependent", Rank(sub, n) = Len(s))
             \cup Fail("selected-rows-do-not-span", Rank(sub, n) = Rank(M, n))

PlaneVerdict(e) ==
  LET p == e.p  n == Len(p[1])  dif == [i \in 1..(Len(p) - 1) |-> VSub(p[i + 1], p[1])]
      t == RMul(RTenTo(7), RAdd(R1, MaxAbsM(p)))
  IN IF Len(p) # n \/ (n > 1 /\ Rank(dif, n) # n - 1) THEN { "witness-plane" }
     ELSE IF e.r.k # "ok" THEN { "plane-no-answer" }
     ELSE IF Len(e.r.a) # n THEN { "plane-shape" }
     ELSE Fail("plane-normal-not-unit", RNear(Norm2(e.r.a), R1, RTenTo(9)))
          \cup Fail("plane-offset-negative", RLeq(RNeg(RTenTo(12)), e.r.b))
          \cup Fail("plane-misses-a-point", \A i \in 1..n : RNear(Dot(e.r.a, p[i]), e.r.b, t))

\* positive multiple of each other
Parallel(a, b) == /\ \A i, j \in 1..Len(a) : RMul(a[i], b[j]) = RMul(a[j], b[i])
                  /\ RPos(Dot(a, b))
\* A is a reordering of B
Count(s, v, eq(_, _)) == Cardinality({ i \in 1..Len(s) : eq(s[i], v) })
Reordering(A, B, eq(_, _)) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : Count(A, A[i], eq) = Count(B, A[i], eq)
Same(a, b) == a = b
SameRowsVerdict(e) ==
  IF e.r.k # "ok" THEN { "comparison-no-answer" }
  ELSE Fail("comparison-verdict", e.r.v = (IF e.normalize THEN Reordering(e.A, e.B, Parallel) ELSE Reordering(e.A, e.B, Same)))

HelperVerdict(e) ==
  CASE e.op = "nullspace" -> NullspaceVerdict(e)
    [] e.op = "indep" -> IndepVerdict(e)
    [] e.op = "plane" -> PlaneVerdict(e)
    [] e.op = "same" -> SameRowsVerdict(e)
    [] OTHER -> { "witness-unknown-helper" }
=============================================================================
