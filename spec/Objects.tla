------------------------------ MODULE Objects ------------------------------
(***************************************************************************)
(* Histories of live polyhedra (P01, P02, P03, P25).                       *)
(*                                                                         *)
(* heap : object name -> the set it denotes, as the constraints given so   *)
(*        far (a record of Polyhedra.tla), with the fields                 *)
(*          fp    the stored numbers are results of floating-point work    *)
(*                (normalised, redundant rows removed, projected)          *)
(*          lax   its vertex list may contain further boundary points      *)
(*                (result of a projection)                                 *)
(* mem  : name of a live array, list or object -> digest of its contents   *)
(*                                                                         *)
(* HeapAfter is the transition function on the abstract state, ObjVerdict  *)
(* says which answers are allowed in it.                                   *)
(***************************************************************************)
EXTENDS Sets, Symbolic

(***************************************************************************)
(* Meaning of the operations that build and extend a set.                  *)
(***************************************************************************)
Obj(n, A, b, C, d) == [n |-> n, A |-> A, b |-> b, C |-> C, d |-> d, fp |-> FALSE, lax |-> FALSE]
Mark(P, fp, lax) == [n |-> P.n, A |-> P.A, b |-> P.b, C |-> P.C, d |-> P.d, fp |-> fp, lax |-> lax]
Plain(P) == [n |-> P.n, A |-> P.A, b |-> P.b, C |-> P.C, d |-> P.d]

\* the row r over the coordinates idx, as a row over all n coordinates
Spread(r, idx, n) == [j \in 1..n |-> Sum([k \in 1..Len(idx) |-> IF idx[k] = j THEN r[k] ELSE R0])]
SpreadM(M, idx, n) == [i \in 1..Len(M) |-> Spread(M[i], idx, n)]
AllIdx(n) == [j \in 1..n |-> j]
Idx(e, n) == IF e.all THEN AllIdx(n) ELSE e.idx

LowerRows(idx, n) == [k \in 1..Len(idx) |-> VNeg(UnitV(n, idx[k]))]
UpperRows(idx, n) == [k \in 1..Len(idx) |-> UnitV(n, idx[k])]

Meet(P, A, b, C, d) == [n |-> P.n, A |-> P.A \o A, b |-> P.b \o b, C |-> P.C \o C, d |-> P.d \o d, fp |-> P.fp, lax |-> FALSE]

\* constraints of an addition: << A, b, C, d >>
Addition(e, n) ==
  LET i == Idx(e, n)
  IN CASE e.what = "ineq"  -> << SpreadM(e.M, i, n), e.v, << >>, << >> >>
       [] e.what = "eq"    -> << << >>, << >>, SpreadM(e.M, i, n), e.v >>
       [] e.what = "lower" -> << LowerRows(i, n), VNeg(e.lo), << >>, << >> >>
       [] e.what = "upper" -> << UpperRows(i, n), e.hi, << >>, << >> >>
       [] e.what = "bounds" -> << LowerRows(i, n) \o UpperRows(i, n), VNeg(e.lo) \o e.hi, << >>, << >> >>
       [] e.what = "sym-ineq" -> << ExprRows(e.x, n), ExprRhs(e.x, n), << >>, << >> >>
       [] e.what = "sym-eq"   -> << << >>, << >>, ExprRows(e.x, n), ExprRhs(e.x, n) >>
       [] e.what = "sym"   -> << ExprRows(e.x, n), ExprRhs(e.x, n), ExprRows(e.xe, n), ExprRhs(e.xe, n) >>
       [] e.what = "data"  -> << e.p.A, e.p.b, e.p.C, e.p.d >>
Space(n) == Obj(n, << >>, << >>, << >>, << >>)
Extend(P, e) == LET a == Addition(e, P.n) IN Meet(P, a[1], a[2], a[3], a[4])

(***************************************************************************)
(* The transition function.                                                *)
(***************************************************************************)
Put(heap, o, P) == [x \in DOMAIN heap \cup { o } |-> IF x = o THEN P ELSE heap[x]]
HeapAfter(heap, e) ==
  IF e.ev # "obj" THEN IF e.ev = "begin" THEN << >> ELSE heap
  ELSE IF e.r.k # "ok" THEN heap                       \* a refused request changes nothing
  ELSE CASE e.op = "new"  -> Put(heap, e.o, Extend(Space(e.n), e))
         [] e.op = "add"  -> Put(heap, e.o, Extend(heap[e.o], e))
         [] e.op = "copy" -> Put(heap, e.o, heap[e.src])
         [] e.op = "intersection" ->
              LET a == heap[e.a]  b == heap[e.b] IN Put(heap, e.o, Mark(Intersect(b, a), a.fp \/ b.fp, FALSE))
         [] e.op = "product" ->
              LET a == heap[e.a]  b == heap[e.b] IN Put(heap, e.o, Mark(Product(a, b), a.fp \/ b.fp, FALSE))
         [] e.op = "project" -> Put(heap, e.o, Mark(e.h, TRUE, TRUE))
         [] e.op \in { "normalize", "remove" } -> Put(heap, e.o, Mark(heap[e.o], TRUE, heap[e.o].lax))
         [] OTHER -> heap

(***************************************************************************)
(* P01: membership.  A probe is [x, tol, r].  The tolerance may be meant   *)
(* relative to a row's norm or not, hence the two thresholds.              *)
(***************************************************************************)
Norm1(v) == Sum([i \in 1..Len(v) |-> RAbs(v[i])])
SmallNorm(v) == RMin(R1, MaxAbs(v))
LargeNorm(v) == RMax(R1, Norm1(v))
MustContain(P, x, t) ==
  LET lim(a) == RMul(RMul(RHalf, t), SmallNorm(a))
  IN /\ \A i \in 1..NIneq(P) : RLeq(Res(P, i, x), lim(P.A[i]))
     /\ \A i \in 1..NEq(P) : RLeq(RAbs(ResEq(P, i, x)), lim(P.C[i]))
MustExclude(P, x, t) ==
  LET lim(a) == RMul(IF P.fp THEN RTenTo(3) ELSE RMul(R2, t), LargeNorm(a))
  IN \/ \E i \in 1..NIneq(P) : RLeq(lim(P.A[i]), Res(P, i, x))
     \/ \E i \in 1..NEq(P) : RLeq(lim(P.C[i]), RAbs(ResEq(P, i, x)))
ProbeFail(P, q) ==
  IF q.r.k # "ok" THEN { "contains-no-answer" }
  ELSE IF q.r.v THEN Fail("contains-accepts-excluded-point", ~ MustExclude(P, q.x, q.tol))
  ELSE Fail("contains-rejects-member", ~ MustContain(P, q.x, q.tol))

(***************************************************************************)
(* Verdicts.                                                               *)
(***************************************************************************)
\* additions whose shape is right have to be accepted
Known(heap, e) ==
  CASE e.op = "new" -> TRUE
    [] e.op = "copy" -> e.src \in DOMAIN heap
    [] e.op \in { "intersection", "product" } -> e.a \in DOMAIN heap /\ e.b \in DOMAIN heap
    [] e.op = "project" -> e.a \in DOMAIN heap
    [] OTHER -> e.o \in DOMAIN heap

\* names of the objects and arrays an operation may change
MayChange(e) == IF e.ev = "obj" /\ e.op \in { "add", "normalize", "remove" } /\ e.r.k = "ok" THEN { e.o }
                ELSE IF e.ev = "call" THEN { e.edits[i] : i \in 1..Len(e.edits) }
                ELSE {}
\* frame condition on the contents of everything that is alive: e.mem is the sequence of [n, g] after the step, e.pre the
\* contents of the arrays and objects that became known in this step (arguments: as they were given)
MemOf(s) == [x \in { s[i].n : i \in 1..Len(s) } |-> LET i == CHOOSE i \in 1..Len(s) : s[i].n = x IN s[i].g]
MemBefore(mem, e) == mem @@ MemOf(e.pre)
MemAfter(mem, e) ==
  IF e.ev = "begin" \/ ("mem" \notin DOMAIN e) THEN IF e.ev = "begin" THEN << >> ELSE mem
  ELSE MemOf(e.mem)
FrameFail(mem, e) ==
  IF e.ev = "begin" \/ "mem" \notin DOMAIN e THEN {}
  ELSE LET new == MemAfter(mem, e)  old == MemBefore(mem, e)
       IN { "disturbed-" \o x : x \in { x \in DOMAIN old \cap DOMAIN new : old[x] # new[x] /\ x \notin MayChange(e) } }
          \cup { "lost-" \o x : x \in DOMAIN old \ DOMAIN new }

\* P25: a question asked again (nothing was changed in between) gets the same answer
AgainVerdict(e) ==
  Fail("answer-changed-" \o e.op,
    /\ e.a.k = e.r.k
    /\ e.a.k = "ok" => /\ e.a.t = e.r.t /\ Len(e.a.v) = Len(e.r.v)
                       /\ \A i \in 1..Len(e.a.v) : RNearRel(e.r.v[i], e.a.v[i], RTenTo(6)))

On(e, P) == e @@ [p |-> P]
ObjVerdict(heap, e) ==
  IF ~ Known(heap, e) THEN { "witness-unknown-object" }
  ELSE CASE e.op \in { "new", "add", "copy", "intersection", "product", "normalize" } ->
              Fail(e.op \o "-no-answer", e.r.k = "ok")
         [] e.op = "project" -> ProjVerdict(On(e, Plain(heap[e.a])))
         [] e.op = "remove" ->
              LET P == Plain(heap[e.o])
              IN IF ~ FeasWitOK(P, e.wf) THEN { "witness-remove" }
                 ELSE IF e.wf.k = "farkas" THEN Fail("redundancy-removal-not-refused", e.r.k = "exc")
                 ELSE Fail("redundancy-removal-no-answer", e.r.k = "ok")
         [] e.op = "contains" -> UNION { ProbeFail(heap[e.o], e.q[i]) : i \in 1..Len(e.q) }
         [] e.op = "describe" -> IF e.r.k # "ok" THEN { "describe-no-answer" }
                                 ELSE SameSetFail(e.r.p, Plain(heap[e.o]), e.box, Tol6, e.w)
         [] e.op = "empty"   -> EmptyVerdict(On(e, Plain(heap[e.o])))
         [] e.op = "bounded" -> BoundedVerdict(On(e, Plain(heap[e.o])))
         [] e.op = "ball"    -> BallVerdict(On(e, Plain(heap[e.o])))
         [] e.op = "vertices" ->
              IF heap[e.o].lax
              THEN LET P == Plain(heap[e.o])
                   IN IF ~ BoundedWitOK(P, e.w) THEN { "witness-vertices" }
                      ELSE IF e.r.k # "ok" THEN { "vertices-no-answer" }
                      ELSE Fail("point-listed-is-outside", \A i \in 1..Len(e.r.v) : InTol(P, e.r.v[i], RMul(Tol6, RAdd(R1, MaxAbs(P.b)))))
                           \cup Fail("vertex-missing", \A v \in VertexSet(P) : \E i \in 1..Len(e.r.v) : Near(e.r.v[i], v, Tol6))
              ELSE VerticesVerdict(On(e, Plain(heap[e.o])))
         [] e.op = "facets"  ->
              LET P == Plain(heap[e.o])
              IN IF ~ FeasWitOK(P, e.wf) THEN { "witness-facets" }
                 ELSE IF e.wf.k = "farkas" THEN Fail("facets-of-empty-set", e.r.k = "none")
                 ELSE Fail("facets-no-answer", e.r.k = "ok")
         [] e.op = "incl"    -> InclVerdict(On(e, Plain(heap[e.o])) @@ [q |-> Plain(heap[e.other])])
         \* P25: a request that violates a documented precondition
         [] e.op = "refuse"  -> Fail("malformed-request-accepted-" \o e.kind, e.r.k = "exc")
         [] OTHER -> { "witness-unknown-operation" }
=============================================================================
