----------------------------- MODULE Expansion -----------------------------
(***************************************************************************)
(* Design of the projection by expansion of an inner hull (P07): facets of *)
(* the hull of the points found so far are pushed outwards; a direction    *)
(* that was explored once is not explored again.  The shadow is the hull   *)
(* of any set V of points of a small grid; the linear program returns any  *)
(* optimal point of V.                                                     *)
(*   Inside   the inner points belong to the shadow                        *)
(*   Exact    when no facet is left the inner hull is the shadow           *)
(* Remember = "line" (wrong): a direction counts as explored when its      *)
(* opposite was; Remember = "first" (wrong): stop after a facet that does  *)
(* not move.                                                               *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json
CONSTANTS Size, Remember
VARIABLES V, inner, explored, done
vars == << V, inner, explored, done >>
Grid == (0..Size) \X (0..Size)
Cross(p, q, r) == (q[1] - p[1]) * (r[2] - p[2]) - (q[2] - p[2]) * (r[1] - p[1])
Flat(S) == \A p, q, r \in S : Cross(p, q, r) = 0
\* directed edges with every point on the left or on the line; outward normal of (p, q)
Edges(S) == { e \in S \X S : e[1] # e[2] /\ \A r \in S : Cross(e[1], e[2], r) >= 0 }
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(k) == IF k < 0 THEN -k ELSE k
Normal(e) == LET a == e[2][2] - e[1][2]  b == e[1][1] - e[2][1]  g == Gcd(Abs(a), Abs(b)) IN << a \div g, b \div g >>
Val(n, p) == n[1] * p[1] + n[2] * p[2]
Best(n) == { p \in V : \A q \in V : Val(n, q) <= Val(n, p) }
Facets == { Normal(e) : e \in Edges(inner) }
Rhs(n, S) == CHOOSE v \in { Val(n, p) : p \in S } : \A p \in S : Val(n, p) <= v
Init == /\ V \in { S \in SUBSET Grid : Cardinality(S) >= 3 /\ ~ Flat(S) }
        /\ inner \in { S \in SUBSET V : Cardinality(S) = 3 /\ ~ Flat(S) }
        /\ explored = {} /\ done = FALSE
Known(n) == n \in explored \/ (Remember = "line" /\ << -n[1], -n[2] >> \in explored)
Look == \E n \in Facets :
          /\ ~ done /\ ~ Known(n)
          /\ explored' = explored \cup { n }
          /\ \E p \in Best(n) :
               IF Val(n, p) > Rhs(n, inner) THEN inner' = inner \cup { p } /\ done' = FALSE
               ELSE inner' = inner /\ done' = (Remember = "first")
          /\ UNCHANGED V
Finish == ~ done /\ (\A n \in Facets : Known(n)) /\ done' = TRUE /\ UNCHANGED << V, inner, explored >>
Spec == Init /\ [][Look \/ Finish]_vars
Inside == inner \subseteq V
Exact == done => \A n \in Facets : \A p \in V : Val(n, p) <= Rhs(n, inner)
\* the point sets whose lifted hulls are projected by the real code
Emit == PrintT(<< "HIST", ToJson(V) >>)
GenInit == V \in { S \in SUBSET Grid : Cardinality(S) >= 3 /\ ~ Flat(S) } /\ inner = {} /\ explored = {} /\ done = TRUE
GenSpec == GenInit /\ [][FALSE]_vars
=============================================================================
