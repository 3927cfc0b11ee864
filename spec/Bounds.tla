------------------------------- MODULE Bounds -------------------------------
(* Ends of the spectrum of a symmetric matrix (C22).  A case records numbers  *)
(* an implementation claims to be the smallest and the largest eigenvalue, or *)
(* absolute eigenvalue, of A, up to tol.  Inertia decides this without        *)
(* eigenvalues: x is below the spectrum iff A - x I is positive definite.     *)
EXTENDS Mat, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Emit(x) == PrintT("@@" \o ToJson(x))
Rt(p) == RMake(p[1], p[2])

VARIABLES ci, phase
vars == <<ci, phase>>
K == Cases[ci]
N == Len(K.A)
A == TLCEval([i \in 1..N |-> [j \in 1..N |-> RInt(K.A[i][j])]])
\* squares of the absolute eigenvalues are the eigenvalues of the square
S == IF K.abs THEN TLCEval(MMul(A, A)) ELSE A
Sq(x) == IF ~K.abs THEN x ELSE IF RSign(x) > 0 THEN RMul(x, x) ELSE RZero
Shift(x) == TLCEval(MSub(S, MScale(Sq(x), MEye(N))))
Neg(M) == MScale(RInt(-1), M)

Tol == Rt(K.tol)
\* all eigenvalues are at least x - tol, and one is at most x + tol
Smallest(x) == /\ MPsd(Shift(RSub(x, Tol)))
               /\ ~MPsd(Shift(RAdd(x, Tol)))
Largest(x) == /\ MPsd(Neg(Shift(RAdd(x, Tol))))
              /\ ~MPsd(Neg(Shift(RSub(x, Tol))))

Init == ci \in 1..Len(Cases) /\ phase = "run"
Done == /\ phase = "run" /\ phase' = "done"
        /\ Emit([case |-> K.id,
                 lo |-> IF K.given \in {"lo", "both"} THEN REq(Rt(K.lo), Rt(K.glo)) ELSE Smallest(Rt(K.lo)),
                 hi |-> IF K.given \in {"hi", "both"} THEN REq(Rt(K.hi), Rt(K.ghi)) ELSE Largest(Rt(K.hi))])
        /\ UNCHANGED ci
Spec == Init /\ [][Done]_vars
=============================================================================
