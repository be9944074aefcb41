------------------------------ MODULE Receding ------------------------------
(***************************************************************************)
(* Design of the receding-horizon closed loop (P20, P22) over a finite     *)
(* plant: any map f(x, u), any admissible pairs D, stage costs L (zero     *)
(* only where the plant rests), terminal set XN with a terminal law K and  *)
(* terminal cost P.  Conditions: on XN, (x, K(x)) is in D, f(x, K(x)) is   *)
(* in XN and P(f(x, K(x))) - P(x) <= - L(x, K(x)).                         *)
(*   RecursivelyFeasible  the closed loop never meets an infeasible state  *)
(*   Decrease             V(x+) <= V(x) - L(x, u)                          *)
(* Wrong designs: TerminalInvariant = FALSE, TerminalCost = FALSE (the     *)
(* respective condition is not asked for), Apply = "last" (another element *)
(* of the plan is applied).                                                *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS X, U, N, MaxCost, TermSets, Stage, Extra, TerminalInvariant, TerminalCost, Apply
VARIABLES f, D, L, XN, K, P, x, prev
vars == << f, D, L, XN, K, P, x, prev >>
Inf == 1000
OneStage == { << 0, 1, 1 >> }
AllStage == [X -> 0..1]
DefSets == { { 1 }, { 1, 2 } }
TermSetOK == TerminalInvariant => \A s \in XN : << s, K[s] >> \in D /\ f[<< s, K[s] >>] \in XN
TermCostOK == TerminalCost => \A s \in XN : P[f[<< s, K[s] >>]] - P[s] <= - L[<< s, K[s] >>]
\* optimal cost-to-go with n steps left
RECURSIVE Cost(_, _)
Cost(n, s) ==
  IF n = 0 THEN IF s \in XN THEN P[s] ELSE Inf
  ELSE LET c == { L[<< s, a >>] + Cost(n - 1, f[<< s, a >>]) : a \in { a \in U : << s, a >> \in D } }
       IN IF c = {} THEN Inf ELSE LET m == CHOOSE m \in c : \A k \in c : m <= k IN IF m > Inf THEN Inf ELSE m
V(s) == Cost(N, s)
Init == /\ XN \in TermSets /\ K = [s \in X |-> 1]        \* (the inputs can be renamed state by state)
        /\ f \in [X \X U -> X] /\ D \in SUBSET (X \X U) /\ TermSetOK
        /\ \E l \in Stage, r \in Extra : L = [p \in X \X U |-> l[p[1]] + r * (p[2] - 1)]
        /\ P \in [X -> 0..MaxCost] /\ TermCostOK
        /\ x \in X /\ V(x) < Inf /\ prev = -1
\* optimal first inputs
Best(s) == { a \in U : << s, a >> \in D /\ L[<< s, a >>] + Cost(N - 1, f[<< s, a >>]) = V(s) }
Move == /\ V(x) < Inf
        /\ \E a \in Best(x) :
             LET b == IF Apply = "last" THEN K[x] ELSE a
             IN /\ x' = f[<< x, b >>] /\ prev' = V(x) - L[<< x, b >>]
        /\ UNCHANGED << f, D, L, XN, K, P >>
Spec == Init /\ [][Move]_vars
RecursivelyFeasible == V(x) < Inf
Decrease == prev >= 0 => V(x) <= prev
=============================================================================
