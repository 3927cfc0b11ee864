-------------------------------- MODULE Curv -------------------------------
(* Definitions of the data-set quantities curvlinops represents, for a case   *)
(* record c with fields                                                       *)
(*   layers, params, x, y    network, flat parameters, flat inputs, targets   *)
(*   loss ("mse"/"ce"/"bce"), red ("mean"/"sum"), R, C                        *)
(*       loss terms per datum and components per loss term                    *)
(*   sel                     positions of the listed parameters, in order     *)
(* For "ce" and "bce" the network's outputs are multiplied by ln 2 by a final *)
(* fixed layer (so that probabilities are rational): a derivative of order k  *)
(* of the loss is the rational number given here times (ln 2)^k.              *)
EXTENDS Net, Mat

NData(c) == Len(c.x)

SelSeeds(c) ==
    LET RECURSIVE cat(_)
        cat(m) == IF m > Len(c.sel) THEN <<>>
                  ELSE [e \in 1..Len(c.params[c.sel[m]]) |-> <<"p", c.sel[m], e>>] \o cat(m + 1)
    IN  TLCEval(cat(1))

OutIdx(c, r, k) == IF c.loss = "ce" THEN (k - 1) * c.R + r ELSE (r - 1) * c.C + k

\* --- loss terms: value, gradient and Hessian in the C components f ----------
Pow2s(f) == [k \in 1..Len(f) |-> RPow2(f[k][1])]                 \* f integer valued
Softmax(f) == LET e == Pow2s(f) S == RSum(e) IN [k \in 1..Len(f) |-> RDiv(e[k], S)]
Sigmoid(f) == [k \in 1..Len(f) |-> RDiv(RPow2(f[k][1]), RAdd(ROne, RPow2(f[k][1])))]

TermGrad(c, f, y) ==
    CASE c.loss = "mse" -> [k \in 1..c.C |-> RMul(RInt(2), RSub(f[k], RInt(y[k])))]
      [] c.loss = "ce" -> LET p == Softmax(f) IN [k \in 1..c.C |-> IF k = y[1] THEN RSub(p[k], ROne) ELSE p[k]]
      [] c.loss = "bce" -> LET p == Sigmoid(f) IN [k \in 1..c.C |-> RSub(p[k], RInt(y[k]))]

TermHess(c, f) ==
    CASE c.loss = "mse" -> [k \in 1..c.C |-> [l \in 1..c.C |-> IF k = l THEN RInt(2) ELSE RZero]]
      [] c.loss = "ce" -> LET p == Softmax(f)
                          IN  [k \in 1..c.C |-> [l \in 1..c.C |->
                                 RSub(IF k = l THEN p[k] ELSE RZero, RMul(p[k], p[l]))]]
      [] c.loss = "bce" -> LET p == Sigmoid(f)
                           IN  [k \in 1..c.C |-> [l \in 1..c.C |->
                                  IF k = l THEN RMul(p[k], RSub(ROne, p[k])) ELSE RZero]]

\* mse: the value; ce, bce: the rational whose natural logarithm is the value
TermLoss(c, f, y) ==
    CASE c.loss = "mse" -> RSum([k \in 1..c.C |-> LET d == RSub(f[k], RInt(y[k])) IN RMul(d, d)])
      [] c.loss = "ce" -> RDiv(RSum(Pow2s(f)), RPow2(f[y[1]][1]))
      [] c.loss = "bce" -> LET RECURSIVE prod(_)
                               prod(k) == IF k > c.C THEN ROne
                                          ELSE RMul(RDiv(RAdd(ROne, RPow2(f[k][1])),
                                                         IF y[k] = 1 THEN RPow2(f[k][1]) ELSE ROne), prod(k + 1))
                           IN  prod(1)
LossUnit(c) == IF c.loss = "mse" THEN RZero ELSE ROne
LossAcc(c, a, b) == IF c.loss = "mse" THEN RAdd(a, b) ELSE RMul(a, b)

\* target of term r of a datum's targets y
TermTarget(c, y, r) == IF c.loss = "ce" THEN <<y[r]>> ELSE SubSeq(y, (r - 1) * c.C + 1, r * c.C)

\* --- everything about one datum --------------------------------------------
\* z: outputs; J[q][i]: derivative of output q in seed i; H[i][j][q]: second
\* derivatives; per loss term r: f, g, hess; sums over the datum's terms:
\*   gn = sum J^T hess J, rs = sum g . H, ef = sum (J^T g)(J^T g)^T,
\*   gr = sum J^T g, ls = loss
DatumAt(c, n, seeds, second) ==
    LET D == Len(seeds)
        E == TLCEval([i \in 1..D |-> TLCEval([j \in 1..D |->
                IF j > i \/ (~ second /\ j # i) THEN <<>>
                ELSE NetOut(c.layers, c.params, c.x[n], seeds[i], seeds[j])])])
        out == NetOut(c.layers, c.params, c.x[n], NoSeed, NoSeed)
        z == TLCEval([q \in 1..Len(out) |-> out[q][1]])
        J == TLCEval([q \in 1..Len(z) |-> [i \in 1..D |-> E[i][i][q][2]]])
        H2(i, j) == IF j > i THEN E[j][i] ELSE E[i][j]
        f(r) == [k \in 1..c.C |-> z[OutIdx(c, r, k)]]
        Jr(r) == [k \in 1..c.C |-> J[OutIdx(c, r, k)]]
        terms == TLCEval([r \in 1..c.R |->
                    LET fr == TLCEval(f(r)) yr == TermTarget(c, c.y[n], r)
                    IN  [f |-> fr, g |-> TLCEval(TermGrad(c, fr, yr)), h |-> TLCEval(TermHess(c, fr)),
                         ls |-> TermLoss(c, fr, yr), J |-> TLCEval(Jr(r))]])
        gterm == TLCEval([r \in 1..c.R |->                       \* J^T g of every loss term
                    LET Jt == MTr(terms[r].J, D) IN [i \in 1..D |-> RDot(Jt[i], terms[r].g)]])
        hj == TLCEval([r \in 1..c.R |-> MMul(terms[r].h, terms[r].J)])
        RECURSIVE accl(_)
        accl(r) == IF r = 0 THEN LossUnit(c) ELSE LossAcc(c, accl(r - 1), terms[r].ls)
        jt == TLCEval([r \in 1..c.R |-> MTr(terms[r].J, D)])
        hjt == TLCEval([r \in 1..c.R |-> MTr(hj[r], D)])
    IN  [z |-> z, J |-> J, terms |-> terms,
         gn |-> TLCEval([i \in 1..D |-> [j \in 1..D |-> RSum([r \in 1..c.R |-> RDot(jt[r][i], hjt[r][j])])]]),
         rs |-> IF ~ second THEN MZero(D, D)
                ELSE TLCEval([i \in 1..D |-> [j \in 1..D |->
                        RSum([r \in 1..c.R |-> RSum([k \in 1..c.C |->
                            RMul(terms[r].g[k], H2(i, j)[OutIdx(c, r, k)][4])])])]]),
         ef |-> TLCEval([i \in 1..D |-> [j \in 1..D |->
                        RSum([r \in 1..c.R |-> RMul(gterm[r][i], gterm[r][j])])]]),
         gr |-> TLCEval([i \in 1..D |-> RSum([r \in 1..c.R |-> gterm[r][i]])]),
         ls |-> accl(c.R)]

\* --- normalisation of a sum over the loss terms of N data --------------------
Norm(c, N) == IF c.red = "sum" THEN ROne
              ELSE RMake(1, N * c.R * (IF c.loss = "ce" THEN 1 ELSE c.C))
=============================================================================
