------------------------------ MODULE Symbolic ------------------------------
(***************************************************************************)
(* Affine expressions over the variables 1..n as syntax trees, and their   *)
(* meaning as a coefficient vector and a constant.  A tree is one of       *)
(*   [t |-> "var", i]  [t |-> "num", v]  [t |-> "add", a, b]               *)
(*   [t |-> "sub", a, b]  [t |-> "neg", a]  [t |-> "mul", k, a]            *)
(***************************************************************************)
EXTENDS LinAlg

RECURSIVE Affine(_, _)
Affine(x, n) ==       \* << coefficients, constant >>
  CASE x.t = "var" -> << UnitV(n, x.i), R0 >>
    [] x.t = "num" -> << ZeroV(n), x.v >>
    [] x.t = "neg" -> LET a == Affine(x.a, n) IN << VNeg(a[1]), RNeg(a[2]) >>
    [] x.t = "mul" -> LET a == Affine(x.a, n) IN << VScale(x.k, a[1]), RMul(x.k, a[2]) >>
    [] x.t = "add" -> LET a == Affine(x.a, n)  b == Affine(x.b, n) IN << VAdd(a[1], b[1]), RAdd(a[2], b[2]) >>
    [] x.t = "sub" -> LET a == Affine(x.a, n)  b == Affine(x.b, n) IN << VSub(a[1], b[1]), RSub(a[2], b[2]) >>

\* value of the expression at a point, directly from the syntax
RECURSIVE EvalAt(_, _)
EvalAt(x, p) ==
  CASE x.t = "var" -> p[x.i]
    [] x.t = "num" -> x.v
    [] x.t = "neg" -> RNeg(EvalAt(x.a, p))
    [] x.t = "mul" -> RMul(x.k, EvalAt(x.a, p))
    [] x.t = "add" -> RAdd(EvalAt(x.a, p), EvalAt(x.b, p))
    [] x.t = "sub" -> RSub(EvalAt(x.a, p), EvalAt(x.b, p))

\* rows M, v such that the expressions are M x - v
ExprRows(xs, n) == [i \in 1..Len(xs) |-> Affine(xs[i], n)[1]]
ExprRhs(xs, n)  == [i \in 1..Len(xs) |-> RNeg(Affine(xs[i], n)[2])]
=============================================================================
