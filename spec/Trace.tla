------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: every recorded call of the real code is one step; the *)
(* specification decides which answers are allowed in the current abstract *)
(* state (heap, mem: Objects; desk: Asking).  Verdicts are total: failing  *)
(* clauses are collected in `bad` (and printed), and the rest of the trace *)
(* is still checked.                                                       *)
(***************************************************************************)
EXTENDS Asking, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.VTRACE)

VARIABLES l, bad, heap, mem, desk
vars == << l, bad, heap, mem, desk >>

Verdict(e) ==
  CASE e.ev = "begin" -> {}
    [] e.ev = "obj"  -> ObjVerdict(heap, e)
    [] e.ev = "call" -> Fail("call-no-answer-" \o e.op, e.r.k = "ok")
    [] e.ev = "refuse" -> Fail("malformed-request-accepted-" \o e.kind, e.r.k = "exc")
    [] e.ev = "again" -> AgainVerdict(e)
    [] e.ev = "req"  -> ReqVerdict(desk, e)
    [] e.ev = "lp"   -> LPVerdict(e)
    [] e.ev = "qp"   -> QPVerdict(e)
    [] e.ev = "miqp" -> MIQPVerdict(e)
    [] e.ev = "empty"   -> EmptyVerdict(e)
    [] e.ev = "bounded" -> BoundedVerdict(e)
    [] e.ev = "incl"    -> InclVerdict(e)
    [] e.ev = "ball"    -> BallVerdict(e)
    [] e.ev = "vertices" -> VerticesVerdict(e)
    [] e.ev = "setop"   -> SetOpVerdict(e)
    [] e.ev = "proj"    -> ProjVerdict(e)
    [] e.ev = "normalize" -> NormalizeVerdict(e)
    [] e.ev = "minimal" -> MinimalVerdict(e)
    [] e.ev = "died" -> { "call-does-not-return-" \o e.how }
    [] e.ev = "helper" -> HelperVerdict(e)
    [] OTHER -> DrawVerdict(e)

Init == l = 1 /\ bad = 0 /\ heap = << >> /\ mem = << >> /\ desk = Desk0
Next ==
  /\ l <= Len(Events)
  /\ LET e == Events[l]
         f == Verdict(e) \cup FrameFail(mem, e)
     IN /\ \A c \in f : PrintT(<< "BAD", e.id, l, c >>)
        /\ bad' = bad + Cardinality(f)
        /\ heap' = HeapAfter(heap, e)
        /\ mem' = MemAfter(mem, e)
        /\ desk' = DeskAfter(desk, e)
  /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
