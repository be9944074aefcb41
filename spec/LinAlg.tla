------------------------------- MODULE LinAlg -------------------------------
(***************************************************************************)
(* Vectors (sequences of rationals) and matrices (sequences of rows).      *)
(* LinAlg.java overrides the kernels marked (J) with the same meaning.     *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, TLC

ZeroV(n) == [i \in 1..n |-> R0]
UnitV(n, k) == [i \in 1..n |-> IF i = k THEN R1 ELSE R0]
ZeroM(m, n) == [i \in 1..m |-> ZeroV(n)]
IdM(n) == [i \in 1..n |-> UnitV(n, i)]

RECURSIVE SumFrom(_, _)
SumFrom(s, i) == IF i > Len(s) THEN R0 ELSE RAdd(s[i], SumFrom(s, i + 1))
Sum(s) == SumFrom(s, 1)                                              \* (J)

Dot(u, v)    == Sum([i \in 1..Len(u) |-> RMul(u[i], v[i])])          \* (J)
VAdd(u, v)   == [i \in 1..Len(u) |-> RAdd(u[i], v[i])]               \* (J)
VSub(u, v)   == [i \in 1..Len(u) |-> RSub(u[i], v[i])]               \* (J)
VScale(k, u) == [i \in 1..Len(u) |-> RMul(k, u[i])]                  \* (J)
VNeg(u)      == [i \in 1..Len(u) |-> RNeg(u[i])]                     \* (J)
MatVec(M, v) == [i \in 1..Len(M) |-> Dot(M[i], v)]                   \* (J)
\* M' v for a matrix with n columns (M may have no row)
MatTVec(M, v, n) == [j \in 1..n |-> Sum([i \in 1..Len(M) |-> RMul(M[i][j], v[i])])]   \* (J)
Transp(M, n) == [j \in 1..n |-> [i \in 1..Len(M) |-> M[i][j]]]       \* (J)
\* M N, where N has n columns
MatMul(M, N, n) == [i \in 1..Len(M) |-> MatTVec(N, M[i], n)]         \* (J)
MAdd(M, N)   == [i \in 1..Len(M) |-> VAdd(M[i], N[i])]               \* (J)
MSub(M, N)   == [i \in 1..Len(M) |-> VSub(M[i], N[i])]               \* (J)
MScale(k, M) == [i \in 1..Len(M) |-> VScale(k, M[i])]                \* (J)
Norm2(v)     == Dot(v, v)

VLeq(u, v)    == \A i \in 1..Len(u) : RLeq(u[i], v[i])
VNonNeg(u)    == \A i \in 1..Len(u) : RNonNeg(u[i])
VNear(u, v, t) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : RNear(u[i], v[i], t)
MNear(M, N, t) == Len(M) = Len(N) /\ \A i \in 1..Len(M) : VNear(M[i], N[i], t)
VNearRel(u, v, t) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : RNearRel(u[i], v[i], t)
MNearRel(M, N, t) == Len(M) = Len(N) /\ \A i \in 1..Len(M) : VNearRel(M[i], N[i], t)

RECURSIVE MaxAbsFrom(_, _)
MaxAbsFrom(s, i) == IF i > Len(s) THEN R0 ELSE RMax(RAbs(s[i]), MaxAbsFrom(s, i + 1))
MaxAbs(s) == MaxAbsFrom(s, 1)                                        \* (J)

\* 1/2 x'Hx + f'x
QuadVal(H, f, x) == RAdd(RMul(RHalf, Dot(x, MatVec(H, x))), Dot(f, x))

(***************************************************************************)
(* Gauss-Jordan elimination.                                               *)
(***************************************************************************)
SwapRows(M, i, j) == [k \in 1..Len(M) |-> IF k = i THEN M[j] ELSE IF k = j THEN M[i] ELSE M[k]]
PivotAt(M, r, c) ==
  LET p == VScale(RDiv(R1, M[r][c]), M[r])
  IN [k \in 1..Len(M) |-> IF k = r THEN p ELSE VSub(M[k], VScale(M[k][c], p))]
\* reduced row echelon form of M using pivot columns c..n only; r = next pivot row;
\* returns << M, list of pivot columns >>
RECURSIVE RrefFrom(_, _, _, _, _)
RrefFrom(M, r, c, n, piv) ==
  IF r > Len(M) \/ c > n THEN << M, piv >>
  ELSE LET cand == { k \in r..Len(M) : RSgn(M[k][c]) # 0 }
       IN IF cand = {} THEN RrefFrom(M, r, c + 1, n, piv)
          ELSE LET k == CHOOSE k \in cand : \A j \in cand : k <= j
               IN RrefFrom(PivotAt(SwapRows(M, r, k), r, c), r + 1, c + 1, n, Append(piv, c))
Rref(M, n) == RrefFrom(M, 1, 1, n, << >>)                            \* (J)
Rank(M, n) == IF M = << >> THEN 0 ELSE Len(Rref(M, n)[2])
\* unique solution of the square system M x = r: << TRUE, x >>, or << FALSE, << >> >> if singular
SolveSq(M, r) ==
  LET n == Len(M)
      E == Rref([i \in 1..n |-> Append(M[i], r[i])], n)
  IN IF Len(E[2]) < n THEN << FALSE, << >> >>
     ELSE << TRUE, [i \in 1..n |-> E[1][i][n + 1]] >>

\* determinant by expansion along the first row (small matrices)
Minor(M, j) == [i \in 1..(Len(M) - 1) |-> [k \in 1..(Len(M) - 1) |-> M[i + 1][IF k < j THEN k ELSE k + 1]]]
RECURSIVE Det(_)
Det(M) ==
  IF Len(M) = 0 THEN R1
  ELSE IF Len(M) = 1 THEN M[1][1]
  ELSE Sum([j \in 1..Len(M) |->
              LET t == RMul(M[1][j], Det(Minor(M, j))) IN IF j % 2 = 1 THEN t ELSE RNeg(t)])
LeadMinor(M, k) == [i \in 1..k |-> SubSeq(M[i], 1, k)]
PosDef(M) == \A k \in 1..Len(M) : RPos(Det(LeadMinor(M, k)))
=============================================================================
