---------------------------- MODULE InvariantSet ----------------------------
(***************************************************************************)
(* Design of the maximal constraint-admissible invariant set (P19): the    *)
(* conditions "after t steps in X" are added for t = 1, 2, ... until one   *)
(* adds nothing.  All the maps A of a finite state space to itself and all *)
(* sets X are checked.                                                     *)
(*   Admissible  in the end the set is inside X and mapped into itself     *)
(*   Maximal     it contains every invariant subset of X                   *)
(* Stop = "bounded" (wrong): give up after Limit steps; Stop = "skip"      *)
(* (wrong): the power of A advances by two.                                *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS States, Stop, Limit
VARIABLES A, X, O, t, done
vars == << A, X, O, t, done >>
Init == A \in [States -> States] /\ X \in SUBSET States /\ O = X /\ t = 1 /\ done = FALSE
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN x ELSE Pow(A[x], k - 1)
InX(k) == { x \in States : Pow(x, k) \in X }
Step ==
  /\ ~ done
  /\ LET In == InX(IF Stop = "skip" THEN 2 * t ELSE t)
     IN IF O \subseteq In \/ (Stop = "bounded" /\ t > Limit)
        THEN done' = TRUE /\ UNCHANGED << O, t >>
        ELSE done' = FALSE /\ O' = O \cap In /\ t' = t + 1
  /\ UNCHANGED << A, X >>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Invar(S) == \A x \in S : A[x] \in S
Admissible == done => O \subseteq X /\ Invar(O)
Maximal == \A S \in SUBSET X : Invar(S) => S \subseteq O
Terminates == <>done
=============================================================================
