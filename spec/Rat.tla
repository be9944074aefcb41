-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational numbers of unbounded size.                               *)
(*                                                                         *)
(* TLC's integers are 32 bits wide, so a rational is a tuple of limbs:     *)
(*                                                                         *)
(*     << sign, k, n_1, ..., n_k, d_1, ..., d_l >>                         *)
(*                                                                         *)
(* with sign in {-1, 0, 1}, numerator |N| = n_1 + n_2*Base + ... and       *)
(* denominator D = d_1 + d_2*Base + ... .  The encoding is canonical       *)
(* (N/D in lowest terms, D > 0, no leading zero limb, 0 = <<0,1,0,1>>), so *)
(* equality of rationals is equality of tuples.                            *)
(*                                                                         *)
(* The definitions below are the meaning of every operator.  Rat.class (see*)
(* Rat.java) overrides them with java.math.BigInteger, which only lifts    *)
(* TLC's 32-bit limit; SelfTest.tla compares the two on a finite domain.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base == 1073741824  \* 2^30

RECURSIVE LimbVal(_)
LimbVal(s) == IF s = << >> THEN 0 ELSE Head(s) + Base * LimbVal(Tail(s))

RECURSIVE Limbs(_)
Limbs(n) == IF n < Base THEN << n >> ELSE << n % Base >> \o Limbs(n \div Base)

RNum(r) == r[1] * LimbVal(SubSeq(r, 3, 2 + r[2]))
RDen(r) == LimbVal(SubSeq(r, 3 + r[2], Len(r)))

IAbs(i) == IF i < 0 THEN -i ELSE i
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

\* canonical rational n/d, d # 0
MkRat(n, d) ==
  IF n = 0 THEN << 0, 1, 0, 1 >>
  ELSE LET g  == Gcd(IAbs(n), IAbs(d))
           nn == Limbs(IAbs(n) \div g)
           dd == Limbs(IAbs(d) \div g)
           sg == IF (n > 0) = (d > 0) THEN 1 ELSE -1
       IN << sg, Len(nn) >> \o nn \o dd

RFrac(n, d) == MkRat(n, d)                    \* n, d : Int
RInt(n)     == MkRat(n, 1)
RAdd(a, b)  == MkRat(RNum(a) * RDen(b) + RNum(b) * RDen(a), RDen(a) * RDen(b))
RSub(a, b)  == MkRat(RNum(a) * RDen(b) - RNum(b) * RDen(a), RDen(a) * RDen(b))
RMul(a, b)  == MkRat(RNum(a) * RNum(b), RDen(a) * RDen(b))
RDiv(a, b)  == MkRat(RNum(a) * RDen(b), RDen(a) * RNum(b))
RNeg(a)     == MkRat(-RNum(a), RDen(a))
RAbs(a)     == MkRat(IAbs(RNum(a)), RDen(a))
RSgn(a)     == a[1]
RLeq(a, b)  == RNum(a) * RDen(b) <= RNum(b) * RDen(a)
RLt(a, b)   == RNum(a) * RDen(b) < RNum(b) * RDen(a)
RMax(a, b)  == IF RLeq(a, b) THEN b ELSE a
RMin(a, b)  == IF RLeq(a, b) THEN a ELSE b
\* human-readable form, for messages only
RStr(a)     == a

R0 == << 0, 1, 0, 1 >>
R1 == << 1, 1, 1, 1 >>
R2 == << 1, 1, 2, 1 >>
RHalf == << 1, 1, 1, 2 >>
RPos(a) == RSgn(a) = 1
RNonNeg(a) == RSgn(a) >= 0
\* 10^-k
RECURSIVE RTenTo(_)
RTenTo(k) == IF k = 0 THEN R1 ELSE RDiv(RTenTo(k - 1), RInt(10))
\* |a - b| <= t
RNear(a, b, t) == RLeq(RAbs(RSub(a, b)), t)
\* |a - b| <= t * (1 + |b|)
RNearRel(a, b, t) == RLeq(RAbs(RSub(a, b)), RMul(t, RAdd(R1, RAbs(b))))
=============================================================================
