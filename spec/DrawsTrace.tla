----------------------------- MODULE DrawsTrace -----------------------------
(* Recorded histories of products with sampled Fisher operators.  Whatever    *)
(* was drawn, all products of one key (seed, order of the data, parameter     *)
(* values) must be explained by one outcome of the draws.                     *)
(*   [e |-> "prod", key, ver, X, Y]   Y = F X (columns; Y without the losses' *)
(*        powers of ln 2); ver: which of the parameter values K.pv            *)
(*   [e |-> "fail"]                   a product raised                        *)
(* Cross-entropies: "cands" is the set of outcomes still possible.            *)
(* MSE: the first product of a key must be with the identity; it must be      *)
(* norm/M sum_n J^T G_n J for positive semi-definite G_n per loss term (of    *)
(* rank one for a single draw), and later products must use the same matrix.  *)
EXTENDS DrawDef, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Emit(x) == PrintT("@@" \o ToJson(x))

VARIABLES ci, k, tab, cands, phase
vars == <<ci, k, tab, cands, phase>>
K == Cases[ci]
Rt(p) == RMake(p[1], p[2])
Ev == K.events[k]
NN == IF K.nd > 0 THEN K.nd ELSE NData(K)
At(v) == [K EXCEPT !.params = K.pv[v]]
D == tab.D
Tol(s) == RMul(Rt(K.tol), RAdd(ROne, s))
Near(a, b, s) == RLe(RAbs(RSub(a, b)), Tol(s))
YCol(j) == [i \in 1..D |-> Rt(Ev.Y[j][i])]
XCol(j) == [i \in 1..D |-> RInt(Ev.X[j][i])]

Known(c, key) == \E i \in 1..Len(c) : c[i][1] = key
Lookup(c, key) == (CHOOSE i \in 1..Len(c) : c[i][1] = key)

\* --- finitely many outcomes -------------------------------------------------
RECURSIVE Outcomes(_, _)
Outcomes(n, m) == IF n = 0 THEN {<<>>} ELSE {Append(o, q) : o \in Outcomes(n - 1, m), q \in 1..m}
Finite == K.loss # "mse"
VTab(v, kc) == LET c == At(v)
               IN  TLCEval([n \in 1..NData(c) |-> LET d == DrawDatum(c, n)
                                                  IN  TLCEval([q \in 1..Len(kc) |-> CountsMatrix(d.A, kc[q], c.M)])])
Tables == LET kc == IF Finite THEN TLCEval(Counts(Len(Options(K)), K.M)) ELSE <<>>
          IN  [D |-> Len(SelSeeds(K)), m |-> Len(kc),
               v |-> IF Finite THEN TLCEval([v \in 1..Len(K.pv) |-> VTab(v, kc)]) ELSE <<>>]
Size(w) == RSum([i \in 1..Len(w) |-> RAbs(w[i])])
\* images of column j: contribution of every datum for every outcome of its draws
Parts(j) == LET x == TLCEval(XCol(j)) t == tab.v[Ev.ver] nrm == Norm(K, NN)
            IN  TLCEval([n \in 1..Len(t) |-> TLCEval([q \in 1..tab.m |-> VScale(nrm, MVec(t[n][q], x))])])
RECURSIVE SumV(_, _, _)
SumV(P, o, n) == IF n = 1 THEN P[1][o[1]] ELSE VAdd(SumV(P, o, n - 1), P[n][o[n]])
NewCands ==
    LET P == TLCEval([j \in 1..Len(Ev.X) |-> Parts(j)])
        Yc == TLCEval([j \in 1..Len(Ev.X) |-> TLCEval(YCol(j))])
        dim == D
        fits(o) == \A j \in 1..Len(Yc) :
                      LET w == SumV(P[j], o, Len(o)) tol == Tol(Size(w))
                      IN  \A i \in 1..dim : RLe(RAbs(RSub(Yc[j][i], w[i])), tol)
    IN  {o \in (IF Known(cands, Ev.key) THEN cands[Lookup(cands, Ev.key)][2] ELSE Outcomes(NData(K), tab.m)) : fits(o)}

\* --- normal draws -------------------------------------------------------------
\* rows of the Jacobian, one per output component of every loss term
JRows(v) == LET c == At(v)
                d == TLCEval([n \in 1..NData(c) |-> DatumAt(c, n, SelSeeds(c), FALSE)])
                row(i) == LET n == ((i - 1) \div (c.R * c.C)) + 1
                              r == (((i - 1) \div c.C) % c.R) + 1
                              m == ((i - 1) % c.C) + 1
                          IN  d[n].terms[r].J[m]
            IN  TLCEval([i \in 1..(NData(c) * c.R * c.C) |-> row(i)])
Decode(v, F) ==
    LET J == TLCEval(JRows(v))
        dim == Len(J[1])
        n == Len(J)
        Jt == TLCEval(MTr(J, dim))
        P == TLCEval(MSolve(MMul(J, Jt), J))                          \* (J J^T)^-1 J
        Pt == TLCEval(MTr(P, dim))
        G == TLCEval(MScale(RDiv(RInt(K.M), Norm(K, NN)), MMul(MMul(P, F), Pt)))
        back == TLCEval(MScale(RDiv(Norm(K, NN), RInt(K.M)), MMul(MMul(Jt, G), J)))
        big == TLCEval(RSum([i \in 1..n |-> RAbs(G[i][i])]))
        tolF == TLCEval(Tol(RSum([i \in 1..dim |-> Size(F[i])])))
        tolG == TLCEval(Tol(big))
        tol2 == TLCEval(Tol(RMul(big, big)))
        C == K.C
        blk(i) == (i - 1) \div C
        block(b) == [i \in 1..C |-> [j \in 1..C |-> RAdd(G[(b * C) + i][(b * C) + j], IF i = j THEN tolG ELSE RZero)]]
        near(x, y, t) == RLe(RAbs(RSub(x, y)), t)
    IN  /\ \A i, j \in 1..dim : near(back[i][j], F[i][j], tolF)
        /\ \A i, j \in 1..n : near(G[i][j], G[j][i], tolG) /\ (blk(i) # blk(j) => near(G[i][j], RZero, tolG))
        /\ \A b \in 0..(n \div C - 1) : MPsd(TLCEval(block(b)))
        /\ K.M = 1 => \A i, j \in 1..n :
              blk(i) = blk(j) => near(RMul(G[i][j], G[i][j]), RMul(G[i][i], G[j][j]), tol2)
\* the matrix of a product with the identity
AsMatrix == TLCEval([i \in 1..D |-> [j \in 1..D |-> Rt(Ev.Y[j][i])]])
SameMatrix(F) == \A j \in 1..Len(Ev.X) :
    LET y == TLCEval(YCol(j)) w == TLCEval(MVec(F, XCol(j))) t == TLCEval(Tol(Size(w)))
    IN  \A i \in 1..Len(y) : RLe(RAbs(RSub(y[i], w[i])), t)

\* what is known about the key after the event; <<>> if nothing explains it
After ==
    IF Finite THEN LET new == NewCands IN IF new = {} THEN <<>> ELSE <<new>>
    ELSE IF Known(cands, Ev.key)
         THEN LET F == cands[Lookup(cands, Ev.key)][2] IN IF SameMatrix(F) THEN <<F>> ELSE <<>>
         ELSE LET F == AsMatrix IN IF Decode(Ev.ver, F) THEN <<F>> ELSE <<>>
Put(val) == IF Known(cands, Ev.key) THEN [cands EXCEPT ![Lookup(cands, Ev.key)] = <<Ev.key, val>>]
            ELSE Append(cands, <<Ev.key, val>>)

Init == ci \in 1..Len(Cases) /\ k = 1 /\ tab = <<>> /\ cands = <<>> /\ phase = "start"
Begin == /\ phase = "start" /\ phase' = "run"
         /\ tab' = TLCEval(Tables)
         /\ UNCHANGED <<ci, k, cands>>
More == phase = "run" /\ k <= Len(K.events)
Fail == More /\ Ev.e = "fail" /\ k' = k + 1 /\ UNCHANGED <<ci, tab, cands, phase>>
Prod == /\ More /\ Ev.e = "prod"
        /\ LET a == TLCEval(After)
           IN  IF a # <<>>
               THEN cands' = Put(a[1]) /\ k' = k + 1 /\ UNCHANGED <<ci, tab, phase>>
               ELSE /\ phase' = "stuck" /\ Emit([case |-> K.id, stuck |-> k])
                    /\ UNCHANGED <<ci, k, tab, cands>>
Accept == /\ phase = "run" /\ k = Len(K.events) + 1
          /\ phase' = "accepted" /\ Emit([case |-> K.id, accepted |-> TRUE])
          /\ UNCHANGED <<ci, k, tab, cands>>
Spec == Init /\ [][Begin \/ Fail \/ Prod \/ Accept]_vars
=============================================================================
