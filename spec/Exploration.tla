---------------------------- MODULE Exploration ----------------------------
(***************************************************************************)
(* Design of the enumeration of the critical regions (P13): a buffer of    *)
(* points beyond the facets of the regions found so far.  The parameter    *)
(* space is a connected graph of cells (two cells are adjacent iff they    *)
(* share a facet; 0 is the infeasible outside), chosen at the start.       *)
(*   Covers     when the buffer is empty every cell has been found         *)
(*   Once       no cell is found twice (regions do not overlap)            *)
(* Wrong designs: Start = "origin" (the origin may be outside and nothing  *)
(* is found), OnInfeasible = "stop", Discard = FALSE, Guess = "trust" (the *)
(* active set guessed beyond a facet is not verified).                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Cells, Start, OnInfeasible, Discard, Guess
VARIABLES adj, outer, buffer, found, stopped
vars == << adj, outer, buffer, found, stopped >>
Pairs == { e \in SUBSET Cells : Cardinality(e) = 2 }
RECURSIVE Reach(_, _)
Reach(E, S) == LET T == S \cup { c \in Cells : \E d \in S : { c, d } \in E } IN IF T = S THEN S ELSE Reach(E, T)
Connected(E) == \A c \in Cells : Reach(E, { c }) = Cells
Init == /\ adj \in { E \in SUBSET Pairs : Connected(E) }
        /\ outer \in (SUBSET Cells) \ { {} }          \* cells with a facet to the outside
        /\ \E x \in IF Start = "origin" THEN Cells \cup { 0 } ELSE Cells : buffer = << x >>
        /\ found = << >> /\ stopped = FALSE
Found == { found[k] : k \in 1..Len(found) }
Keep(b) == IF Discard THEN SelectSeq(b, LAMBDA x : x \notin Found) ELSE b
Neighbours(c) == { d \in Cells : { c, d } \in adj } \cup (IF c \in outer THEN { 0 } ELSE {})
\* sequences in any order of facets
Orders(S) == { s \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : a # b => s[a] # s[b] }
Explore ==
  /\ ~ stopped
  /\ LET b == Keep(buffer)
     IN IF b = << >> THEN stopped' = TRUE /\ buffer' = b /\ found' = found
        ELSE \E c \in IF Guess = "trust" /\ Head(b) # 0 THEN Cells ELSE { Head(b) } :
             IF c = 0 THEN /\ buffer' = Tail(b) /\ found' = found /\ stopped' = (OnInfeasible = "stop")
             ELSE \E o \in Orders(Neighbours(c)) :
                    buffer' = Tail(b) \o o /\ found' = Append(found, c) /\ stopped' = FALSE
  /\ Len(found) <= 2 * Cardinality(Cells)
  /\ UNCHANGED << adj, outer >>
Spec == Init /\ [][Explore]_vars
Covers == stopped => Found = Cells
Once == Len(found) = Cardinality(Found)
=============================================================================
