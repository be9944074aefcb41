------------------------------ MODULE Encoding ------------------------------
(***************************************************************************)
(* Design of the mixed-integer encoding of piecewise-affine dynamics (P23):*)
(* with d_i binary and z_i auxiliary,                                      *)
(*   alpha_ii d_i <= z_i <= beta_ii d_i                                    *)
(*   sum_{j#i} alpha_ij d_j <= f_i(x,u) - z_i <= sum_{j#i} beta_ij d_j     *)
(*   F_i (x,u) <= h_i + sum_{j#i} gamma_ij d_j,  sum_i d_i = 1             *)
(* The successors of (x, u) it allows have to be those of the modes whose  *)
(* domain contains (x, u).  All the pairs of scalar modes over the given   *)
(* coefficients and interval domains are checked at every integer (x, u).  *)
(*   Complete  every behaviour of the system satisfies the encoding        *)
(*   Sound     the encoding allows nothing else                            *)
(* Bounds = "own": the wrong choice of the bounds over the mode's own      *)
(* domain; Bounds = "capped": cut at Cap; OneMode = FALSE: d unconstrained.*)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json
CONSTANTS Coef, Off, Ends, XS, US, Bounds, Cap, OneMode, Modes
DefCoef == { -1, 0, 2 }
DefOff == { -3, 0, 1 }
DefEnds == { -2, 0, 1 }
DefXS == -3..2
DefUS == -1..1
GenXS == { 0 }
VARIABLES sys, x, u
vars == << sys, x, u >>
Doms == { d \in Ends \X Ends : d[1] <= d[2] }
Init == sys \in [Modes -> [a : Coef, c : Off, d : Doms]] /\ x \in XS /\ u \in US
Spec == Init /\ [][FALSE]_vars
F(i, p) == sys[i].a * p[1] + p[2] + sys[i].c
Dom(i) == (sys[i].d[1]..sys[i].d[2]) \X US
\* rows of the domain of mode i: value of the left-hand side minus the right-hand side
Rows(i, p) == << p[1] - sys[i].d[2], sys[i].d[1] - p[1] >>
Mn(S) == CHOOSE m \in S : \A k \in S : m <= k
Mx(S) == CHOOSE m \in S : \A k \in S : k <= m
Clip(v) == IF Bounds = "capped" THEN (IF v > Cap THEN Cap ELSE IF v < - Cap THEN - Cap ELSE v) ELSE v
On(i, j) == IF Bounds = "own" THEN i ELSE j
alpha(i, j) == Clip(Mn({ F(i, p) : p \in Dom(On(i, j)) }))
beta(i, j) == Clip(Mx({ F(i, p) : p \in Dom(On(i, j)) }))
gamma(i, j, r) == Mx({ Rows(i, p)[r] : p \in Dom(On(i, j)) })
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN f[k] + SumOver(S \ { k }, f)
Others(i, d, m(_, _)) == SumOver(Modes \ { i }, [j \in Modes |-> m(i, j) * d[j]])
Deltas == IF OneMode THEN { d \in [Modes -> { 0, 1 }] : SumOver(Modes, d) = 1 } ELSE [Modes -> { 0, 1 }]
\* interval of z_i allowed by d at (x, u)
Z(i, d) ==
  LET f == F(i, << x, u >>)
      lo == Mx({ alpha(i, i) * d[i], f - Others(i, d, beta) })
      hi == Mn({ beta(i, i) * d[i], f - Others(i, d, alpha) })
  IN lo..hi
InDoms(d) == \A i \in Modes : \A r \in 1..2 :
  Rows(i, << x, u >>)[r] <= SumOver(Modes \ { i }, [j \in Modes |-> gamma(i, j, r) * d[j]])
Successors == { F(i, << x, u >>) : i \in { i \in Modes : << x, u >> \in Dom(i) } }
\* the product of the intervals is enumerated interval by interval
RECURSIVE Sums(_, _)
Sums(S, d) == IF S = {} THEN { 0 } ELSE LET k == CHOOSE k \in S : TRUE IN { a + b : a \in Z(k, d), b \in Sums(S \ { k }, d) }
Enc == UNION { Sums(Modes, d) : d \in { d \in Deltas : InDoms(d) } }
Complete == Successors \subseteq Enc
Sound == Enc \subseteq Successors
\* the systems replayed on the real controller
Emit == u = 0 => PrintT(<< "HIST", ToJson([i \in Modes |-> << sys[i].a, sys[i].c, sys[i].d[1], sys[i].d[2] >>]) >>)
=============================================================================
