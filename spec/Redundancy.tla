----------------------------- MODULE Redundancy -----------------------------
(***************************************************************************)
(* Design of the removal of redundant inequalities (P08): one pass over    *)
(* the rows, each compared with the largest value of its left-hand side    *)
(* over the rows kept so far, itself relaxed by one.  Rows are half-lines  *)
(* s x <= b of the real line (s = 1 or -1, b an integer): every linear     *)
(* program then has a closed form and the design is checked exactly on     *)
(* all the systems of at most MaxRows rows, in every order.                *)
(*   Kept      the set never changes                                       *)
(*   Minimal   in the end no row can be dropped                            *)
(* AgainstAll = TRUE is the wrong design that compares every row with all  *)
(* the others, those already dropped included.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxRows, Bounds, AgainstAll, Weak
DefBounds == -1..2
VARIABLES rows, kept, i
vars == << rows, kept, i >>
Row == [s : { 1, -1 }, b : Bounds]
Inf == 1000
MinS(S) == CHOOSE m \in S : \A k \in S : m <= k
\* largest value of s x over the rows K, the right-hand side of row r being rhs(r)
Sup(s, K, rhs(_)) == LET u == { rhs(r) : r \in { r \in K : rows[r].s = s } } IN IF u = {} THEN Inf ELSE MinS(u)
Upper(K) == Sup(1, K, LAMBDA r : rows[r].b)
Lower(K) == - Sup(-1, K, LAMBDA r : rows[r].b)
All == 1..Len(rows)
NonEmpty == Lower(All) < Upper(All)
Init == /\ rows \in UNION { [1..n -> Row] : n \in 1..MaxRows }
        /\ kept = 1..Len(rows) /\ i = 1
        /\ LET u == { rows[r].b : r \in { r \in 1..Len(rows) : rows[r].s = 1 } }
               l == { -rows[r].b : r \in { r \in 1..Len(rows) : rows[r].s = -1 } }
           IN u # {} /\ l # {} => \A a \in u, c \in l : c < a
Visit ==
  /\ i <= Len(rows)
  /\ LET K == IF AgainstAll THEN All ELSE kept
         sup == Sup(rows[i].s, K, LAMBDA r : IF r = i THEN rows[r].b + 1 ELSE rows[r].b)
         redundant == IF Weak THEN sup < rows[i].b ELSE sup <= rows[i].b
     IN kept' = IF redundant THEN kept \ { i } ELSE kept
  /\ i' = i + 1 /\ UNCHANGED rows
Next == Visit
Spec == Init /\ [][Next]_vars
Same(K) == Upper(K) = Upper(All) /\ Lower(K) = Lower(All)
Kept == Same(kept)
Minimal == i > Len(rows) => \A r \in kept : ~ Same(kept \ { r })
\* the systems replayed on the real code
Emit == i = 1 => PrintT(<< "HIST", ToJson(rows) >>)
=============================================================================
