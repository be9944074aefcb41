---------------------------- MODULE PolyMachine ----------------------------
(***************************************************************************)
(* Design of the polyhedron objects: constraint arrays that objects may    *)
(* share (cells), remembered facts (caches) and the operations that read,  *)
(* fill, forget or copy them.  Contents are abstracted to version numbers: *)
(* two sets are the same iff their versions are.                           *)
(*                                                                         *)
(*   NeverStale  every remembered fact is a fact about the current set     *)
(*   Frame       an operation on one object never changes what another one *)
(*               denotes                                                   *)
(*                                                                         *)
(* The constants name design decisions; the configurations that take a     *)
(* wrong one must fail (MC_PolyMachine_bad*.cfg).  With Gen = TRUE the     *)
(* machine also writes its behaviours: the histories replayed on the real  *)
(* code by the checks of P01 - P03 and P25.                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Slots,        \* object names, e.g. 1..3
  Forgets,      \* edits that reset the caches (all of Edits in the correct design)
  InPlace,      \* operations that write into the arrays in place (none in the correct design)
  CopyCaches,   \* a shallow copy takes the caches along (harmless iff edits forget)
  PresetsVertices, \* a projection comes with a vertex list
  MaxLen,       \* length of histories
  Gen           \* print the histories of length MaxLen

Edits == { "ineq", "eq", "lower", "upper", "bounds", "symineq", "symeq" }   \* change the set
Rewrites == { "normalize", "remove" }                                       \* change the description only
Facts == { "empty", "bounded", "radius", "center", "vertices" }
\* facts that computing a fact fills as well
Fills(q) == CASE q = "empty" -> { "empty" }
              [] q = "bounded" -> { "empty", "bounded" }
              [] q \in { "radius", "center" } -> { "radius", "center" }
              [] q = "vertices" -> { "empty", "bounded", "radius", "center", "vertices" }
Queries == Facts \cup { "facets", "contains", "included" }
QFills(q) == CASE q \in Facts -> Fills(q) [] q = "facets" -> { "empty" } [] q = "included" -> { "empty" } [] OTHER -> {}

VARIABLES cell,    \* cell number -> version of the contents
          obj,     \* slot -> [cell, caches: fact -> version (0 = none)] or NoObj
          next,    \* fresh version / cell numbers
          hist
vars == << cell, obj, next, hist >>
NoObj == [cell |-> 0, cache |-> [f \in Facts |-> 0]]
NoCache == [f \in Facts |-> 0]
Live == { s \in Slots : obj[s].cell # 0 }
Ver(s) == cell[obj[s].cell]

Init == /\ cell = << >> /\ obj = [s \in Slots |-> NoObj] /\ next = 1 /\ hist = << >>

Log(op, s, a, b) == hist' = Append(hist, [op |-> op, s |-> s, a |-> a, b |-> b])
Room == Len(hist) < MaxLen
\* objects are created in the order of their names
Fresh(s) == s \notin Live /\ \A t \in Slots : t < s => t \in Live

NewCell(v) == cell' = Append(cell, v)
New(s) == /\ Room /\ Fresh(s) /\ NewCell(next) /\ next' = next + 1
          /\ obj' = [obj EXCEPT ![s] = [cell |-> Len(cell) + 1, cache |-> NoCache]]
          /\ Log("new", s, 0, 0)
Edit(s, op) ==
  /\ Room /\ s \in Live /\ op \in Edits
  /\ LET c == IF op \in Forgets THEN NoCache ELSE obj[s].cache
     IN IF op \in InPlace
        THEN /\ cell' = [cell EXCEPT ![obj[s].cell] = next]
             /\ obj' = [obj EXCEPT ![s].cache = c]
        ELSE /\ NewCell(next)
             /\ obj' = [obj EXCEPT ![s] = [cell |-> Len(cell) + 1, cache |-> c]]
  /\ next' = next + 1
  /\ Log(op, s, 0, 0)
\* the description changes, the set does not: a fresh cell with the same version (an in-place rewrite of shared arrays
\* that fails half way or truncates is modelled as a change of the version)
Rewrite(s, op) ==
  /\ Room /\ s \in Live /\ op \in Rewrites
  /\ IF op \in InPlace
     THEN cell' = [cell EXCEPT ![obj[s].cell] = next] /\ next' = next + 1 /\ obj' = [obj EXCEPT ![s].cache = NoCache]
     ELSE /\ NewCell(Ver(s)) /\ next' = next
          /\ obj' = [obj EXCEPT ![s].cell = Len(cell) + 1,
                                ![s].cache["empty"] = IF op = "remove" /\ @ = 0 THEN Ver(s) ELSE @]
  /\ Log(op, s, 0, 0)
Query(s, q) ==
  /\ Room /\ s \in Live /\ q \in Queries
  /\ obj' = [obj EXCEPT ![s].cache = [f \in Facts |-> IF f \in QFills(q) /\ @[f] = 0 THEN Ver(s) ELSE @[f]]]
  /\ UNCHANGED << cell, next >>
  /\ Log(q, s, 0, 0)
Copy(s, t) ==
  /\ Room /\ Fresh(s) /\ t \in Live
  /\ obj' = [obj EXCEPT ![s] = [cell |-> obj[t].cell, cache |-> IF CopyCaches THEN obj[t].cache ELSE NoCache]]
  /\ UNCHANGED << cell, next >>
  /\ Log("copy", s, t, 0)
\* result of an operation on two objects / projection: new arrays
Derive(s, op, t, u) ==
  /\ Room /\ Fresh(s) /\ t \in Live /\ u \in Live
  /\ NewCell(next) /\ next' = next + 1
  /\ obj' = [obj EXCEPT ![s] = [cell |-> Len(cell) + 1,
                                cache |-> IF op = "project" /\ PresetsVertices
                                          THEN [NoCache EXCEPT !["vertices"] = next] ELSE NoCache]]
  /\ Log(op, s, t, u)
Next ==
  \E s \in Slots :
    \/ New(s)
    \/ \E op \in Edits : Edit(s, op)
    \/ \E op \in Rewrites : Rewrite(s, op)
    \/ \E q \in Queries : Query(s, q)
    \/ \E t \in Slots : Copy(s, t) \/ Derive(s, "project", t, t)
    \/ \E t, u \in Slots : Derive(s, "intersection", t, u)
Spec == Init /\ [][Next]_vars

NeverStale == \A s \in Live : \A f \in Facts : obj[s].cache[f] \in { 0, Ver(s) }
\* what an object that was already there and is not the receiver denotes does not change
Frame == [][ \A s \in Live : s # hist'[Len(hist')].s => cell'[obj'[s].cell] = cell[obj[s].cell] ]_vars

\* the history is not part of the state when only the design is checked
DesignView == << cell, obj, next, Len(hist), IF hist = << >> THEN 0 ELSE hist[Len(hist)].s >>

\* generation of behaviours
Emit == (Gen /\ Len(hist) = MaxLen) => PrintT(<< "HIST", ToJson(hist) >>)
=============================================================================
