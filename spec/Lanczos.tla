------------------------------- MODULE Lanczos -------------------------------
(* Spectral density estimation (C22).                                         *)
(*                                                                            *)
(* Part 1, request machine.  A (cached) estimator keeps Lanczos runs; a       *)
(* request with R repeats runs the missing ones and averages the first R.     *)
(* A product that raises aborts the request; completed runs stay.             *)
(* Part 2, quadrature.  The exact Jacobi matrix of (A, v) with monic          *)
(* polynomials: alpha_k and beta_k^2 are rational.                            *)
(* Part 3, map between the spectrum and [-1, 1].  With L, H the ends of the   *)
(* spectrum (of log(|A| + eps) for log densities), grid points, centre and    *)
(* half width are linear combinations of L and H with rational coefficients.  *)
EXTENDS Mat, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Emit(x) == PrintT("@@" \o ToJson(x))
Rt(p) == RMake(p[1], p[2])

VARIABLES ci, runs, hist, phase
vars == <<ci, runs, hist, phase>>
K == Cases[ci]

\* -------------------------------------------------------- 1. requests
\* K.reqs: settings [repeats, points, margin, ...]; K.cached; K.depth
Init == ci \in 1..Len(Cases) /\ runs = 0 /\ hist = <<>> /\ phase = "run"
Have == IF K.cached THEN runs ELSE 0
Request == \E s \in 1..Len(K.reqs) :
    LET r == K.reqs[s].repeats
        new == IF r > Have THEN r - Have ELSE 0
    IN  /\ runs' = IF K.cached THEN Have + new ELSE runs + new
        \* first: number (counted over the estimator's life) of the first run averaged
        /\ hist' = Append(hist, [e |-> "ask", s |-> s, new |-> new,
                                 uses |-> [i \in 1..r |-> IF K.cached THEN i ELSE runs + i]])
\* the product number j of the missing ones raises (j-th product after the start)
Broken == \E s \in 1..Len(K.reqs) : \E f \in 1..Len(K.fails) :
    LET j == K.fails[f]
        r == K.reqs[s].repeats
        new == IF r > Have THEN r - Have ELSE 0
        done == j \div K.ncv                           \* complete runs before the failure
    IN  /\ new > 0 /\ j < new * K.ncv
        /\ runs' = runs + done
        /\ hist' = Append(hist, [e |-> "break", s |-> s, at |-> j, new |-> done])
Step == /\ phase = "run" /\ K.depth > 0 /\ Len(hist) < K.depth
        /\ (Request \/ Broken) /\ UNCHANGED <<ci, phase>>
Done == /\ phase = "run" /\ K.depth > 0 /\ Len(hist) = K.depth
        /\ phase' = "done" /\ Emit([case |-> K.id, hist |-> hist])
        /\ UNCHANGED <<ci, runs, hist>>

\* the runs used by a cached request do not depend on what was asked before
OrderFree == \A i, j \in 1..Len(hist) :
    (K.cached /\ hist[i].e = "ask" /\ hist[j].e = "ask" /\ K.reqs[hist[i].s].repeats = K.reqs[hist[j].s].repeats)
        => hist[i].uses = hist[j].uses
\* a request leaves at least the runs it uses
Enough == \A i \in 1..Len(hist) : hist[i].e = "ask" =>
    \A u \in 1..Len(hist[i].uses) : hist[i].uses[u] <= runs

\* ------------------------------------------------------- 2. quadrature
A == TLCEval([i \in 1..Len(K.A) |-> [j \in 1..Len(K.A) |-> RInt(K.A[i][j])]])
RECURSIVE Jacobi(_, _, _, _)
Jacobi(p, q, qq, k) ==   \* p: current monic vector, q: previous, qq = <q, q> (0 at the start)
    IF k = 0 THEN <<>>
    ELSE LET pp == RDot(p, p)
             Ap == MVec(A, p)
             al == RDiv(RDot(p, Ap), pp)
             b2 == IF RSign(qq) = 0 THEN RZero ELSE RDiv(pp, qq)
             nx == VSub(VSub(Ap, VScale(al, p)), VScale(b2, q))
         IN  <<[alpha |-> al, b2 |-> b2]>> \o (IF RSign(pp) = 0 THEN <<>> ELSE Jacobi(nx, p, pp, k - 1))
JacobiOf(v) == TLCEval(Jacobi(v, [i \in 1..Len(v) |-> RZero], RZero, K.ncv))
RECURSIVE Moments(_, _, _)
Moments(v, w, k) == IF k = 0 THEN <<>> ELSE <<RDiv(RDot(v, w), RDot(v, v))>> \o Moments(v, MVec(A, w), k - 1)
MomentsOf(v) == Moments(v, v, 2 * K.ncv)
\* similar to the symmetric tridiagonal matrix: ones below, beta^2 above
THat(J) == TLCEval([i \in 1..Len(J) |-> [j \in 1..Len(J) |->
              IF i = j THEN J[i].alpha ELSE IF i = j + 1 THEN ROne ELSE IF j = i + 1 THEN J[j].b2 ELSE RZero]])
RECURSIVE TMoments(_, _, _)
TMoments(T, w, k) == IF k = 0 THEN <<>> ELSE <<w[1]>> \o TMoments(T, MVec(T, w), k - 1)
E1 == [i \in 1..K.ncv |-> IF i = 1 THEN ROne ELSE RZero]

Starts == [s \in 1..Len(K.starts) |-> [i \in 1..Len(K.starts[s]) |-> Rt(K.starts[s][i])]]
Quadrature ==
    /\ phase = "run" /\ K.depth = 0 /\ phase' = "quad"
    /\ \A s \in 1..Len(K.starts) :
          LET v == TLCEval(Starts[s]) J == JacobiOf(v) m == MomentsOf(v) IN
          /\ Assert(Len(J) = K.ncv, <<"breakdown", s>>)
          /\ Assert(VEq(TMoments(THat(J), E1, 2 * K.ncv), m), <<"moments", s>>)
          /\ Emit([case |-> K.id, start |-> s, alpha |-> [i \in 1..K.ncv |-> J[i].alpha],
                   b2 |-> [i \in 1..(K.ncv - 1) |-> J[i + 1].b2], moments |-> m])
    /\ UNCHANGED <<ci, runs, hist>>

\* -------------------------------------------------------------- 3. map
Half == <<1, 2>>
\* coefficients of (L, H): centre, half width of the padded interval, grid points
Centre == <<Half, Half>>
HalfWidth(mg) == LET s == RAdd(Half, mg) IN <<RNeg(s), s>>
T01(i, np) == RSub(RDiv(RInt(2 * (i - 1)), RInt(np - 1)), ROne)
Grid(i, np, mg) == LET t == T01(i, np) h == HalfWidth(mg)
                   IN  <<RAdd(Half, RMul(t, h[1])), RAdd(Half, RMul(t, h[2]))>>
Maps == /\ phase = "run" /\ K.depth < 0 /\ phase' = "maps"
        /\ Emit([case |-> K.id, maps |-> [s \in 1..Len(K.reqs) |->
               [centre |-> Centre, half |-> HalfWidth(Rt(K.reqs[s].margin)),
                norm |-> [i \in 1..K.reqs[s].points |-> T01(i, K.reqs[s].points)],
                grid |-> [i \in 1..K.reqs[s].points |-> Grid(i, K.reqs[s].points, Rt(K.reqs[s].margin))]]]])
        /\ UNCHANGED <<ci, runs, hist>>
\* the grid runs over the interval padded by the margin relative to its width
GridEnds == phase = "maps" => \A s \in 1..Len(K.reqs) :
    LET q == K.reqs[s] mg == Rt(q.margin) IN
    /\ VEq(Grid(1, q.points, mg), <<RAdd(ROne, mg), RNeg(mg)>>)
    /\ VEq(Grid(q.points, q.points, mg), <<RNeg(mg), RAdd(ROne, mg)>>)

Spec == Init /\ [][Step \/ Done \/ Quadrature \/ Maps]_vars
=============================================================================
