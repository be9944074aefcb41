------------------------------- MODULE Asking -------------------------------
(***************************************************************************)
(* P27: answers depend only on the question and on the numbers handed over.*)
(* desk is the caller's desk: what is written in its arrays, the answer a  *)
(* fresh process gives to each question about each value, and the answers  *)
(* received so far (Requests.tla is the model of the same steps; a trace   *)
(* is one of its behaviours, with the answers of the real code).           *)
(***************************************************************************)
EXTENDS Drawing
Desk0 == [slot |-> << >>, ref |-> << >>, log |-> << >>]
DeskAfter(desk, e) ==
  IF e.ev = "begin" THEN Desk0
  ELSE IF e.ev # "req" THEN desk
  ELSE CASE e.op = "ref"   -> [desk EXCEPT !.ref = (<< e.q, e.v >> :> e.r) @@ @]
         [] e.op = "write" -> [desk EXCEPT !.slot = (e.a :> e.v) @@ @]
         [] e.op = "ask"   -> [desk EXCEPT !.log = Append(@, [r |-> e.r, own |-> FALSE])]
         \* the caller overwrites the last answer: what it holds there is its own from now on
         [] e.op = "scribble" -> [desk EXCEPT !.log[Len(desk.log)].own = TRUE]
         [] OTHER -> desk
SameAnswer(a, b, t) ==
  /\ a.k = b.k
  /\ a.k = "ok" => /\ a.t = b.t /\ Len(a.v) = Len(b.v)
                   /\ \A i \in 1..Len(a.v) : RNearRel(a.v[i], b.v[i], RTenTo(t))
ReqVerdict(desk, e) ==
  CASE e.op = "ref" -> {}
    [] e.op = "write" -> {}
    [] e.op = "scribble" -> Fail("witness-nothing-to-overwrite", Len(desk.log) > 0)
    [] e.op = "ask" ->
         IF e.a \notin DOMAIN desk.slot \/ << e.q, desk.slot[e.a] >> \notin DOMAIN desk.ref THEN { "witness-unknown-question" }
         ELSE LET want == desk.ref[<< e.q, desk.slot[e.a] >>]
              IN IF want.k = "timeout" THEN {} ELSE Fail("answer-depends-on-the-history-" \o e.what, SameAnswer(e.r, want, e.t))
    \* the answers held by the caller, read again at the end
    [] e.op = "reread" ->
         IF e.i \notin 1..Len(desk.log) THEN { "witness-unknown-answer" }
         ELSE Fail("answer-given-has-changed-" \o e.what, desk.log[e.i].own \/ SameAnswer(e.r, desk.log[e.i].r, 12))
    [] OTHER -> { "witness-unknown-request" }
=============================================================================
