------------------------------ MODULE Requests ------------------------------
(***************************************************************************)
(* Design of answering requests (P27).  A caller owns some arrays, writes  *)
(* numbers into them, asks an object (or function) questions about their   *)
(* contents, keeps the answers and may also overwrite an answer it was     *)
(* given.  Whatever the object remembers between requests must not show:   *)
(*   Right   every answer is the one for the question and the numbers that *)
(*           were in the array when it was asked                           *)
(*   Kept    answers already given are not changed by later requests       *)
(* Memory selects the design: "none" and "value" (answers remembered by    *)
(* question and contents, handed out as copies) are right; wrong are       *)
(* "identity" (remembered by array), "shared" (question not part of the    *)
(* key), "coarse" (contents compared roughly), "lent" (the remembered      *)
(* answer itself is handed out), "buffer" (one answer buffer for all).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Arrays, Values, Questions, MaxLen, Memory, Gen
Blank == << 0, 0 >>
VARIABLES slot,    \* contents of the caller's arrays
          memo,    \* what the object remembers: function from keys to cells
          cell,    \* contents of the answer cells (answers are references to cells)
          given,   \* answers the caller holds: sequence of [c: cell, want: what it has to be]
          hist
vars == << slot, memo, cell, given, hist >>
Answer(q, v) == << q, v >>
Init == slot = [a \in Arrays |-> 1] /\ memo = << >> /\ cell = << >> /\ given = << >> /\ hist = << >>
Write(a, v) == /\ slot[a] # v
               /\ slot' = [slot EXCEPT ![a] = v]
               /\ hist' = Append(hist, [op |-> "write", a |-> a, v |-> v, q |-> 0])
               /\ UNCHANGED << memo, cell, given >>
Key(q, a) == CASE Memory = "value" -> << q, slot[a] >>
               [] Memory = "identity" -> << q, a >>
               [] Memory = "shared" -> << slot[a] >>
               [] Memory = "coarse" -> << q, slot[a] \div 2 >>
               [] Memory = "lent" -> << q, slot[a] >>
               [] OTHER -> << >>
Remembers == Memory \in { "value", "identity", "shared", "coarse", "lent" }
Ask(q, a) ==
  LET k == Key(q, a)
      hit == Remembers /\ k \in DOMAIN memo
      x == IF hit THEN cell[memo[k]] ELSE Answer(q, slot[a])
      n == Len(cell) + 1
      \* where the answer is put
      c == IF Memory = "buffer" THEN 1 ELSE IF hit /\ Memory = "lent" THEN memo[k] ELSE n
      grown == IF c = n THEN Append(cell, x) ELSE [cell EXCEPT ![c] = x]
  IN /\ cell' = IF Remembers /\ ~ hit /\ Memory # "lent" THEN Append(grown, x) ELSE grown     \* its own copy
     /\ memo' = IF Remembers /\ ~ hit
                THEN (k :> (IF Memory = "lent" THEN c ELSE Len(grown) + 1)) @@ memo ELSE memo
     /\ given' = Append(given, [c |-> c, want |-> Answer(q, slot[a])])
     /\ hist' = Append(hist, [op |-> "ask", a |-> a, v |-> 0, q |-> q])
     /\ UNCHANGED slot
\* the caller overwrites the last answer it was given
Scribble ==
  /\ given # << >> /\ given[Len(given)].want # Blank
  /\ cell' = [cell EXCEPT ![given[Len(given)].c] = Blank]
  /\ given' = [i \in 1..Len(given) |-> IF i = Len(given) THEN [given[i] EXCEPT !.want = Blank] ELSE given[i]]
  /\ hist' = Append(hist, [op |-> "scribble", a |-> 0, v |-> 0, q |-> 0])
  /\ UNCHANGED << slot, memo >>
Next == Len(hist) < MaxLen /\ (\/ \E a \in Arrays, v \in Values : Write(a, v)
                               \/ \E q \in Questions, a \in Arrays : Ask(q, a)
                               \/ Scribble)
Spec == Init /\ [][Next]_vars
Right == (hist # << >> /\ hist[Len(hist)].op = "ask") => LET g == given[Len(given)] IN cell[g.c] = g.want
Kept == \A i \in 1..Len(given) : cell[given[i].c] = given[i].want
Emit == (Gen /\ Len(hist) = MaxLen) => PrintT(<< "HIST", ToJson(hist) >>)
View == << slot, memo, cell, given >>
=============================================================================
