------------------------------- MODULE Outer -------------------------------
(* Low-rank operators sum_i c_i a_i a_i^T and projectors (C24).  The machine  *)
(* accumulates the matrix term by term, in any order of the columns; a        *)
(* product with a vector takes coefficients first.  Cases flagged ortho have  *)
(* orthonormal columns and unit coefficients.                                 *)
EXTENDS Mat, Json, IOUtils, FiniteSets

Cases == JsonDeserialize(IOEnv.CASES)
Emit(x) == PrintT("@@" \o ToJson(x))

VARIABLES ci, todo, acc, phase
vars == <<ci, todo, acc, phase>>
K == Cases[ci]
Rt(r) == RMake(r[1], r[2])
D == Len(K.A)
N == Len(K.c)
A == TLCEval([i \in 1..D |-> [j \in 1..N |-> Rt(K.A[i][j])]])
Col(j) == [i \in 1..D |-> A[i][j]]
X == TLCEval([i \in 1..D |-> [j \in 1..Len(K.X[i]) |-> Rt(K.X[i][j])]])

Init == /\ ci \in 1..Len(Cases) /\ todo = 1..Len(Cases[ci].c) /\ acc = MZero(Len(Cases[ci].A), Len(Cases[ci].A))
        /\ phase = "run"
Term == /\ phase = "run"
        /\ \E j \in todo : /\ todo' = todo \ {j}
                           /\ acc' = MAdd(acc, MScale(Rt(K.c[j]), MOuter(Col(j), Col(j))))
        /\ UNCHANGED <<ci, phase>>
Done == /\ phase = "run" /\ todo = {} /\ phase' = "done"
        /\ Emit([case |-> K.id, M |-> acc, MX |-> MMul(acc, X)])
        /\ UNCHANGED <<ci, todo, acc>>
Spec == Init /\ [][Term \/ Done]_vars

\* independent of the order of the terms, equals A diag(c) A^T, symmetric
Definition == (phase = "run" /\ todo = {}) =>
    /\ MEq(acc, MMul(MMul(A, MDiag([j \in 1..N |-> Rt(K.c[j])])), MTr(A, N)))
    /\ MSym(acc)
\* coefficients-first evaluation of a product: A (c * (A^T x))
Products == (phase = "run" /\ todo = {}) =>
    LET T == MMul(MTr(A, N), X)
    IN  MEq(MMul(acc, X), MMul(A, [j \in 1..N |-> VScale(Rt(K.c[j]), T[j])]))
Projects == (phase = "run" /\ todo = {} /\ K.ortho) =>
    LET Pc == MSub(MEye(D), acc)
    IN  /\ MEq(MMul(acc, acc), acc)
        /\ MEq(MMul(acc, A), A)
        /\ MEq(MMul(acc, Pc), MZero(D, D))
        /\ REq(MTrace(acc), RInt(N))
=============================================================================
