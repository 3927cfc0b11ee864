------------------------------ MODULE HutchDef ------------------------------
(* Randomised estimators (C20, C21) as functions of the vectors they draw.    *)
(*   tr    v . (A v)         diag  v * (A v)         fro  (A v) . (A v)       *)
(*   pp    trace on the subspace spanned by A s_1 .. A s_m plus the trace     *)
(*         sample on its orthogonal complement                                *)
EXTENDS Mat

\* ---------------------------------------------------------- sign vectors
Bit(k, i) == (k \div (2 ^ (i - 1))) % 2
SignVec(n, k) == [i \in 1..n |-> IF Bit(k, i) = 1 THEN <<-1, 1>> ELSE <<1, 1>>]
AllSigns(n) == [k \in 1..(2 ^ n) |-> SignVec(n, k - 1)]
IsSign(v) == \A i \in 1..Len(v) : REq(RMul(v[i], v[i]), ROne)

\* ------------------------- projector onto the span of a list of vectors
RECURSIVE Ortho(_, _)     \* Gram-Schmidt without normalisation; drops dependent vectors
Ortho(vs, us) ==
    IF vs = <<>> THEN us
    ELSE LET v == Head(vs)
             RECURSIVE Strip(_, _)
             Strip(w, k) == IF k > Len(us) THEN w
                            ELSE Strip(VSub(w, VScale(RDiv(RDot(us[k], v), RDot(us[k], us[k])), us[k])), k + 1)
             w == Strip(v, 1)
         IN  Ortho(Tail(vs), IF RSign(RDot(w, w)) = 0 THEN us ELSE Append(us, w))
Basis(A, S) == Ortho([k \in 1..Len(S) |-> MVec(A, S[k])], <<>>)
RECURSIVE ProjOf(_, _)
ProjOf(us, n) == IF us = <<>> THEN MZero(n, n)
                 ELSE MAdd(MScale(RDiv(ROne, RDot(Head(us), Head(us))), MOuter(Head(us), Head(us))),
                           ProjOf(Tail(us), n))
\* everything a sample needs to know about a sketch
Sketch(A, S) == LET n == Len(A) us == TLCEval(Basis(A, S)) P == TLCEval(ProjOf(us, n))
                IN  TLCEval([rank |-> Len(us), P |-> P, C |-> MSub(MEye(n), P), tr |-> MTrace(MMul(P, A))])
\* the span determines the subspace unless sketched vectors are dependent
Unique(sk, m) == sk.rank = m
Captured(A, sk) == LET n == Len(A) IN
    /\ MSym(A) /\ MEq(MMul(sk.C, A), MZero(n, n))

\* ---------------------------------------------------------------- values
SampleTr(A, v) == RDot(v, MVec(A, v))
SampleDiag(A, v) == LET w == MVec(A, v) IN [i \in 1..Len(v) |-> RMul(v[i], w[i])]
SampleFro(A, v) == LET w == MVec(A, v) IN RDot(w, w)
SamplePP(A, sk, w) == RAdd(sk.tr, RDot(w, MVec(A, w)))      \* w = projected vector
=============================================================================
