------------------------------ MODULE IterInv ------------------------------
(* Iterative inverses of a small linear operator A (C19) over exact           *)
(* rationals, with histories of hyper-parameter changes and products.         *)
(* A case has A (integers), vectors bs, kind "cg" | "lsmr" | "neumann" and a  *)
(* pool of hyper-parameter settings hps; setting 1 is the default.            *)
(*   cg       [tol, atol, maxiter, x0, M]  (M: diagonal preconditioner or <<>>)*)
(*   lsmr     [damp, maxiter, x0]          (maxiter < 0: until converged)      *)
(*   neumann  [terms, scale, nan, blow]    (blow: the scale overflows floats)  *)
(* Rationals in cases are pairs.                                              *)
EXTENDS Mat, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Emit(x) == PrintT("@@" \o ToJson(x))

VARIABLES ci, hp, hist, phase
vars == <<ci, hp, hist, phase>>
K == Cases[ci]
Rt(p) == RMake(p[1], p[2])
N == Len(K.A)
A == MInt(K.A)
B(j) == VInt(K.bs[j])
VZero == [i \in 1..N |-> RZero]
Norm2(v) == RDot(v, v)

\* -------------------------------------------------- conjugate gradients
\* start: solution, residual; every iteration is one state of the recurrence
CGPre(h, r) == IF h.M = <<>> THEN r ELSE TLCEval([i \in 1..N |-> RMul(Rt(h.M[i]), r[i])])
CGThr2(h, b) == LET t == RMul(Rt(h.tol), Rt(h.tol)) a == RMul(Rt(h.atol), Rt(h.atol))
                IN  RMax(a, RMul(t, Norm2(b)))
RECURSIVE CGRun(_, _, _, _, _, _, _, _)
\* returns [x, its, r2]: first iterate whose residual is below the threshold, or maxiter
CGRun(h, x, r, p, rho, k, thr2, lim) ==
    IF k >= lim \/ RLt(Norm2(r), thr2) THEN [x |-> x, its |-> k, r2 |-> Norm2(r)]
    ELSE LET z == CGPre(h, r)
             rc == RDot(r, z)
             pn == IF k = 0 THEN z ELSE VAdd(z, VScale(RDiv(rc, rho), p))
             q == MVec(A, pn)
             al == RDiv(rc, RDot(pn, q))
         IN  CGRun(h, VAdd(x, VScale(al, pn)), VSub(r, VScale(al, q)), pn, rc, k + 1, thr2, lim)
CG(h, b) ==
    IF RSign(Norm2(b)) = 0 THEN [x |-> VZero, its |-> 0, r2 |-> RZero]
    ELSE LET x0 == IF h.x0 = <<>> THEN VZero ELSE VInt(h.x0)
         IN  CGRun(h, x0, VSub(b, MVec(A, x0)), VZero, ROne, 0, CGThr2(h, b),
                   IF h.maxiter < 0 THEN 10 * N ELSE h.maxiter)

\* ----------------------------------------------------------------- LSMR
\* k-th iterate: minimal normal-equation residual over the Krylov space of order k
At == MTr(A, N)
RECURSIVE Krylov(_, _, _)
Krylov(S, v, k) == IF k = 0 THEN <<>> ELSE <<v>> \o Krylov(S, MVec(S, v), k - 1)
LSMRAt(h, b, k) ==
    LET x0 == IF h.x0 = <<>> THEN VZero ELSE VInt(h.x0)
        d2 == RMul(Rt(h.damp), Rt(h.damp))
        S == MAdd(MMul(At, A), MScale(d2, MEye(N)))
        c == MVec(At, VSub(b, MVec(A, x0)))
        RECURSIVE Best(_)
        Best(m) == IF m = 0 THEN x0
                   ELSE LET V == Krylov(S, c, m)                       \* rows span the space
                            SV == [i \in 1..m |-> MVec(S, V[i])]
                            G == TLCEval([i \in 1..m |-> [j \in 1..m |-> RDot(SV[i], SV[j])]])
                        IN  IF RSign(MDet(G)) = 0 THEN Best(m - 1)
                            ELSE LET y == MSolve(G, [i \in 1..m |-> <<RDot(SV[i], c)>>])
                                     Vt == MTr(V, N)
                                 IN  VAdd(x0, MVec(Vt, [i \in 1..m |-> y[i][1]]))
    IN  Best(k)
LSMR(h, b) == [x |-> LSMRAt(h, b, IF h.maxiter < 0 \/ h.maxiter > N THEN N ELSE h.maxiter),
               its |-> h.maxiter, r2 |-> RZero]

\* -------------------------------------------------------------- Neumann
RECURSIVE NeuRun(_, _, _, _)
NeuRun(s, res, v, k) == IF k = 0 THEN res
                        ELSE LET w == VSub(v, VScale(s, MVec(A, v))) IN NeuRun(s, VAdd(res, w), w, k - 1)
Neumann(h, b) == IF h.blow THEN [x |-> <<>>, its |-> -1, r2 |-> RZero]
                 ELSE [x |-> VScale(Rt(h.scale), NeuRun(Rt(h.scale), b, b, h.terms)), its |-> h.terms, r2 |-> RZero]

Apply(h, b) == CASE K.kind = "cg" -> CG(h, b) [] K.kind = "lsmr" -> LSMR(h, b) [] K.kind = "neumann" -> Neumann(h, b)

\* -------------------------------------------------------------- machine
Forms == {"vec", "col", "mat", "info"}
Init == ci \in 1..Len(Cases) /\ hp = 1 /\ hist = <<>> /\ phase = "run"
Set == /\ \E s \in 1..Len(K.hps) : hp' = s /\ hist' = Append(hist, [e |-> "set", h |-> s])
       /\ UNCHANGED <<ci, phase>>
Use == /\ \E f \in Forms, j \in 1..Len(K.bs) :
            /\ (f = "info" => K.kind = "lsmr")
            /\ LET cols == IF f = "mat" THEN <<j, (j % Len(K.bs)) + 1>> ELSE <<j>>
               IN  hist' = Append(hist, [e |-> "use", f |-> f, h |-> hp, cols |-> cols])
       /\ UNCHANGED <<ci, hp, phase>>
Step == phase = "run" /\ Len(hist) < K.depth /\ (Set \/ Use)
\* values of all (setting, vector) pairs of the case; printed once per case
Table == [s \in 1..Len(K.hps) |-> [j \in 1..Len(K.bs) |-> Apply(K.hps[s], B(j))]]
Done == /\ phase = "run" /\ K.depth > 0 /\ Len(hist) = K.depth /\ phase' = "done"
        /\ Emit([case |-> K.id, hist |-> hist])
        /\ UNCHANGED <<ci, hp, hist>>
Values == /\ phase = "run" /\ hist = <<>> /\ K.depth = 0
          /\ phase' = "values"
          /\ Emit([case |-> K.id, table |-> Table,
                   solution |-> [j \in 1..Len(K.bs) |-> MSolve(A, [i \in 1..N |-> <<B(j)[i]>>])]])
          /\ UNCHANGED <<ci, hp, hist>>
Spec == Init /\ [][Step \/ Done \/ Values]_vars

\* ----------------------------------------------------------- invariants
\* with enough iterations the methods solve the (damped) system exactly
Solves ==
    phase = "values" =>
        \A s \in 1..Len(K.hps), j \in 1..Len(K.bs) :
            LET h == K.hps[s] v == Apply(h, B(j)) IN
            /\ (K.kind = "cg" /\ h.maxiter < 0) =>
                  /\ REq(v.r2, Norm2(VSub(B(j), MVec(A, v.x))))
                  /\ v.its <= N /\ (RSign(v.r2) = 0 \/ RLt(v.r2, CGThr2(h, B(j))))
            /\ (K.kind = "lsmr" /\ h.maxiter < 0) =>
                  VEq(MVec(At, VSub(B(j), MVec(A, v.x))),
                      IF h.x0 = <<>> THEN VScale(RMul(Rt(h.damp), Rt(h.damp)), v.x) ELSE VZero)
\* A times the Neumann sum telescopes: A s sum_k (I - sA)^k = I - (I - sA)^(terms+1)
RECURSIVE Pow(_, _, _)
Pow(s, v, k) == IF k = 0 THEN v ELSE Pow(s, VSub(v, VScale(s, MVec(A, v))), k - 1)
Telescopes ==
    (phase = "values" /\ K.kind = "neumann") =>
        \A s \in 1..Len(K.hps), j \in 1..Len(K.bs) :
            LET h == K.hps[s] IN
            (~ h.blow) => VEq(MVec(A, Neumann(h, B(j)).x), VSub(B(j), Pow(Rt(h.scale), B(j), h.terms + 1)))
=============================================================================
