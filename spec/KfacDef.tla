------------------------------ MODULE KfacDef ------------------------------
(* KFAC's Kronecker factors for a case c (see Curv) and a configuration g:    *)
(*   sel      listed parameters, in order                                     *)
(*   fisher   "type2", "empirical", "forward" (sampled labels: KfacMC.tla)    *)
(*   approx   "expand" or "reduce"                                            *)
(*   sep      weights and biases treated separately                           *)
(*   nd       given data-set size (0: counted)                                *)
(* Positions: places where a layer is applied within one datum (sequence      *)
(* positions, output pixels).                                                 *)
EXTENDS Curv, KronBlocks, FiniteSets

Weight(ly) == IF ly.k = "conv" THEN ly.wt ELSE ly.w
HasParams(ly) == ly.k \in {"lin", "conv"}
PosOf(sel, k) == IF k # 0 /\ \E m \in 1..Len(sel) : sel[m] = k
                 THEN CHOOSE m \in 1..Len(sel) : sel[m] = k ELSE 0
\* layers with at least one listed parameter
Mapped(c, g) == {l \in 1..Len(c.layers) : HasParams(c.layers[l]) /\
                    (PosOf(g.sel, Weight(c.layers[l])) # 0 \/ PosOf(g.sel, c.layers[l].b) # 0)}
Joint(c, g, l) == /\ ~ g.sep /\ PosOf(g.sel, Weight(c.layers[l])) # 0 /\ PosOf(g.sel, c.layers[l].b) # 0

NumPos(ly, outLen) == IF ly.k = "lin" THEN outLen \div ly.o ELSE outLen \div ly.co
OutDim(ly) == IF ly.k = "lin" THEN ly.o ELSE ly.co
\* flat output entry of component k at position t
OutEntry(ly, T, t, k) == IF ly.k = "lin" THEN (t - 1) * ly.o + k ELSE (k - 1) * T + t

VMean(rows) == LET n == Len(rows)
               IN  TLCEval([j \in 1..Len(rows[1]) |->
                       RDiv(RSum([i \in 1..n |-> rows[i][j]]), RInt(n))])

\* the layer's inputs, one row per position; patches of a convolution are
\* averaged over channel groups
InputRows(ly, x, T) ==
    IF ly.k = "lin" THEN TLCEval([t \in 1..T |-> [k \in 1..ly.i |-> x[(t - 1) * ly.i + k][1]]])
    ELSE LET O == ConvOut(ly)
             patch(t, grp) == LET p == ConvPatch(ly, x, (t - 1) \div O[2] + 1, ((t - 1) % O[2]) + 1, grp, JConst(RZero))
                              IN  [e \in 1..Len(p) |-> p[e][1]]
         IN  TLCEval([t \in 1..T |-> VMean([grp \in 1..ly.g |-> patch(t, grp)])])

\* everything needed about datum n at layer l: inputs and derivatives of the
\* network's outputs in the layer's output, plus the loss terms
LayerDatum(c, n, l, acts) ==
    LET ly == c.layers[l]
        outLen == Len(acts[l + 1])
        T == NumPos(ly, outLen)
        Jo == TLCEval([e \in 1..outLen |->
                  LET o == NetOut(c.layers, c.params, c.x[n], <<"o", l, e>>, NoSeed)
                  IN  TLCEval([q \in 1..Len(o) |-> o[q][2]])])
    IN  [rows |-> InputRows(ly, acts[l], T), T |-> T,
         J |-> TLCEval([t \in 1..T |-> [k \in 1..OutDim(ly) |-> Jo[OutEntry(ly, T, t, k)]]])]  \* J[t][k][q]

DatumTerms(c, n, z) ==
    TLCEval([r \in 1..c.R |->
        LET fr == [k \in 1..c.C |-> z[OutIdx(c, r, k)]]
        IN  [g |-> TLCEval(TermGrad(c, fr, TermTarget(c, c.y[n], r))), h |-> TLCEval(TermHess(c, fr))]])

\* positions as used by the approximation: all (expand), or their sum (reduce)
Jpos(g, d) ==
    IF g.approx = "expand" THEN d.J
    ELSE << TLCEval([k \in 1..Len(d.J[1]) |-> [q \in 1..Len(d.J[1][1]) |->
               RSum([t \in 1..d.T |-> d.J[t][k][q]])]]) >>

\* sum over positions of outer products of back-propagated loss gradients
EmpiricalB(c, g, d, terms) ==
    LET P == Jpos(g, d)
        v(t) == TLCEval([k \in 1..Len(P[t]) |->
                   RSum([r \in 1..c.R |-> RSum([m \in 1..c.C |-> RMul(P[t][k][OutIdx(c, r, m)], terms[r].g[m])])])])
        RECURSIVE acc(_)
        acc(t) == LET vt == v(t) IN IF t = 1 THEN MOuter(vt, vt) ELSE MAdd(acc(t - 1), MOuter(vt, vt))
    IN  acc(Len(P))

\* the same with the columns of the loss Hessian's square root; columns of
\* different loss terms are back-propagated together, which only has a rational
\* value if they do not meet or the square root is a multiple of the identity
Separable(c, P) == \A t \in 1..Len(P) :
    Cardinality({r \in 1..c.R : \E k \in 1..Len(P[t]), m \in 1..c.C : RSign(P[t][k][OutIdx(c, r, m)]) # 0}) <= 1
Type2B(c, g, d, terms) ==
    LET P == Jpos(g, d)
        o == Len(P[1])
        \* mse: S = sqrt(2) I
        u(t, m) == TLCEval([k \in 1..o |-> RSum([r \in 1..c.R |-> P[t][k][OutIdx(c, r, m)]])])
        RECURSIVE mse(_, _)
        mse(t, m) == IF t = 0 THEN MZero(o, o)
                     ELSE IF m = 0 THEN mse(t - 1, c.C)
                     ELSE LET w == u(t, m) IN MAdd(mse(t, m - 1), MScale(RInt(2), MOuter(w, w)))
        jr(t, r) == TLCEval([k \in 1..o |-> [m \in 1..c.C |-> P[t][k][OutIdx(c, r, m)]]])       \* o x C
        RECURSIVE sep(_, _)
        sep(t, r) == IF t = 0 THEN MZero(o, o)
                     ELSE IF r = 0 THEN sep(t - 1, c.R)
                     ELSE LET Q == jr(t, r)
                          IN  MAdd(sep(t, r - 1), MMul(MMul(Q, terms[r].h), MTr(Q, c.C)))
    IN  IF c.loss = "mse" THEN mse(Len(P), c.C)
        ELSE IF Assert(Separable(c, P), <<"loss terms meet", c.id>>) THEN sep(Len(P), c.R) ELSE <<>>

\* sum over positions (expand: scaled by their number; reduce: of the mean) of
\* outer products of inputs, extended by one for joint treatment
InputA(g, d, joint) ==
    LET ext(row) == IF joint THEN Append(row, ROne) ELSE row
        rows == IF g.approx = "expand" THEN d.rows ELSE << VMean(d.rows) >>
        RECURSIVE acc(_)
        acc(t) == LET e == ext(rows[t]) IN IF t = 1 THEN MOuter(e, e) ELSE MAdd(acc(t - 1), MOuter(e, e))
    IN  MScale(RMake(1, Len(rows)), acc(Len(rows)))

\* per-datum contributions of layer l, before data-set normalisation
Contribution(c, g, l, d, terms) ==
    LET wl == PosOf(g.sel, Weight(c.layers[l]))
    IN  [A |-> IF wl = 0 THEN <<>> ELSE InputA(g, d, Joint(c, g, l)),
         B |-> CASE g.fisher = "empirical" -> EmpiricalB(c, g, d, terms)
                 [] g.fisher = "type2" -> Type2B(c, g, d, terms)
                 [] g.fisher = "forward" -> MZero(OutDim(c.layers[l]), OutDim(c.layers[l]))]

\* powers of ln 2 carried by B (losses with scaled logits)
ScaleB(c, g) == IF g.fisher = "forward" \/ c.loss = "mse" THEN 0 ELSE 2
=============================================================================
