-------------------------------- MODULE Mat --------------------------------
(* Matrices of rationals as sequences of rows.                                *)
EXTENDS Rat, TLC

Rows(A) == Len(A)
Cols(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
MInt(A) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> RInt(A[i][j])]])   \* from integers
VInt(v) == TLCEval([i \in 1..Len(v) |-> RInt(v[i])])
MZero(m, n) == TLCEval([i \in 1..m |-> [j \in 1..n |-> RZero]])
MEye(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN ROne ELSE RZero]])
MTr(A, n) == TLCEval([j \in 1..n |-> [i \in 1..Len(A) |-> A[i][j]]])      \* n = number of columns
MAdd(A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> RAdd(A[i][j], B[i][j])]])
MSub(A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> RSub(A[i][j], B[i][j])]])
MScale(r, A) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> RMul(r, A[i][j])]])
MVec(A, v) == TLCEval([i \in 1..Len(A) |-> RDot(A[i], v)])
MMul(A, B) == LET n == Cols(B)
                  Bt == MTr(B, n)
              IN  TLCEval([i \in 1..Len(A) |-> [j \in 1..n |-> RDot(A[i], Bt[j])]])
MEq(A, B) == /\ Len(A) = Len(B)
             /\ \A i \in 1..Len(A) : /\ Len(A[i]) = Len(B[i])
                                     /\ \A j \in 1..Len(A[i]) : REq(A[i][j], B[i][j])
VEq(u, v) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : REq(u[i], v[i])
VAdd(u, v) == TLCEval([i \in 1..Len(u) |-> RAdd(u[i], v[i])])
VSub(u, v) == TLCEval([i \in 1..Len(u) |-> RSub(u[i], v[i])])
VScale(r, v) == TLCEval([i \in 1..Len(v) |-> RMul(r, v[i])])
MOuter(u, v) == TLCEval([i \in 1..Len(u) |-> [j \in 1..Len(v) |-> RMul(u[i], v[j])]])
MTrace(A) == RSum([i \in 1..Len(A) |-> A[i][i]])
MFrob2(A) == RSum([i \in 1..Len(A) |-> RDot(A[i], A[i])])
MSym(A) == \A i, j \in 1..Len(A) : REq(A[i][j], A[j][i])
MSub2(A, r, c) == TLCEval([i \in 1..Len(r) |-> [j \in 1..Len(c) |-> A[r[i]][c[j]]]])   \* A[r, :][:, c]
MDiag(v) == TLCEval([i \in 1..Len(v) |-> [j \in 1..Len(v) |-> IF i = j THEN v[i] ELSE RZero]])

\* Kronecker product
MKron(A, B) ==
    LET p == Len(B) q == Cols(B)
    IN  TLCEval([i \in 1..(Len(A) * p) |-> [j \in 1..(Cols(A) * q) |->
            RMul(A[(i - 1) \div p + 1][(j - 1) \div q + 1], B[((i - 1) % p) + 1][((j - 1) % q) + 1])]])

\* Gauss elimination of [A | B] with A square: <<det A, A^-1 B>> (<<0, ...>> if singular)
RECURSIVE Elim(_, _, _)
Elim(M, k, det) ==
    LET n == Len(M)
    IN  IF k > n THEN <<det, M>>
        ELSE LET piv == {i \in k..n : RSign(M[i][k]) # 0}
             IN  IF piv = {} THEN <<RZero, M>>
                 ELSE LET p == CHOOSE i \in piv : \A j \in piv : i <= j
                          S == [i \in 1..n |-> IF i = k THEN M[p] ELSE IF i = p THEN M[k] ELSE M[i]]
                          d == S[k][k]
                          rk == TLCEval([j \in 1..Len(S[k]) |-> RDiv(S[k][j], d)])
                          R == TLCEval([i \in 1..n |->
                                  IF i = k THEN rk
                                  ELSE LET f == S[i][k]
                                       IN  IF RSign(f) = 0 THEN S[i]
                                           ELSE [j \in 1..Len(S[i]) |-> RSub(S[i][j], RMul(f, rk[j]))]])
                      IN  Elim(R, k + 1, RMul(IF p = k THEN det ELSE RNeg(det), d))
MAppend(A, B) == TLCEval([i \in 1..Len(A) |-> A[i] \o B[i]])
MDet(A) == Elim(A, 1, ROne)[1]
MSolve(A, B) == LET E == Elim(MAppend(A, B), 1, ROne)[2] n == Len(A)
                IN  TLCEval([i \in 1..n |-> SubSeq(E[i], n + 1, Len(E[i]))])
MInv(A) == MSolve(A, MEye(Len(A)))

\* positive semi-definite <=> all pivots of symmetric elimination without row
\* exchange are >= 0 and a zero pivot has a zero row
RECURSIVE PsdFrom(_, _)
PsdFrom(M, k) ==
    IF k > Len(M) THEN TRUE
    ELSE LET d == M[k][k]
         IN  IF RSign(d) < 0 THEN FALSE
             ELSE IF RSign(d) = 0 THEN (\A j \in k..Len(M) : RSign(M[k][j]) = 0) /\ PsdFrom(M, k + 1)
             ELSE PsdFrom(TLCEval([i \in 1..Len(M) |->
                      IF i <= k THEN M[i]
                      ELSE [j \in 1..Len(M) |-> RSub(M[i][j], RDiv(RMul(M[i][k], M[k][j]), d))]]), k + 1)
MPsd(A) == PsdFrom(A, 1)
=============================================================================
