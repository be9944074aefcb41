------------------------------ MODULE SelfTest ------------------------------
(***************************************************************************)
(* Prints the value of every overridden operator on a finite domain.  The  *)
(* harness runs it twice, with and without the Java classes on the class   *)
(* path, and requires identical output.                                    *)
(***************************************************************************)
EXTENDS LinAlg, Json
Ns == -3..3
Ds == {1, 2, 3}
Rs == { RFrac(n, d) : n \in Ns, d \in Ds }
Vs == { << RFrac(a, 2), RInt(b) >> : a \in -2..2, b \in -1..1 }
Ms == { << u, v >> : u \in { << RFrac(1,2), RInt(0) >>, << RInt(-1), RInt(2) >>, << R0, R0 >> },
                     v \in { << RInt(1), RFrac(-3,2) >>, << RInt(2), RInt(-4) >>, << R0, R1 >> } }
Out ==
  << { << a, b, RAdd(a, b), RSub(a, b), RMul(a, b), RLeq(a, b), RLt(a, b), RMax(a, b), RMin(a, b) >> : a \in Rs, b \in Rs },
     { << a, b, RDiv(a, b) >> : a \in Rs, b \in Rs \ { R0 } },
     { << a, RNeg(a), RAbs(a), RSgn(a) >> : a \in Rs },
     { << u, v, Dot(u, v), VAdd(u, v), VSub(u, v), VNeg(u), Sum(u), MaxAbs(u), VScale(u[1], v) >> : u \in Vs, v \in Vs },
     { << M, u, MatVec(M, u), MatTVec(M, u, 2), Transp(M, 2), Rref(M, 2), SolveSq(M, u), MScale(u[1], M) >> : M \in Ms, u \in Vs },
     { << M, N, MatMul(M, N, 2), MAdd(M, N), MSub(M, N) >> : M \in Ms, N \in Ms },
     RTenTo(4), RInt(1073741823), RMul(RInt(32767), RInt(32767)) >>
ASSUME PrintT(<< "SELFTEST", ToJson(Out) >>)
=============================================================================
