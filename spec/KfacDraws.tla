----------------------------- MODULE KfacDraws -----------------------------
(* KFAC with sampled labels.  Every datum draws its M labels from the model's *)
(* predictive distribution, and every layer's gradient covariance is the      *)
(* average over the draws of what the empirical one would be if the drawn     *)
(* labels were the targets - the same draws for all layers.  TLC enumerates   *)
(* all outcomes; invariants: factors are positive semi-definite, outcome      *)
(* probabilities are a distribution, and the expected gradient covariance is  *)
(* that of Fisher type "type2" wherever that one has a rational value.  The   *)
(* matrices of all outcomes are printed (C12).                                *)
EXTENDS KfacDef, DrawDef, Json, IOUtils, SequencesExt

Cases == JsonDeserialize(IOEnv.CASES)
Emit(x) == PrintT("@@" \o ToJson(x))

VARIABLES ci, gi, phase, tab, n, prob, pick, Bs
vars == <<ci, gi, phase, tab, n, prob, pick, Bs>>
K == Cases[ci]
G == K.cfgs[gi]
NN == IF G.nd > 0 THEN G.nd ELSE NData(K)
CFac == IF K.loss = "ce" THEN 1 ELSE K.C
NormB == IF K.red = "sum" THEN ROne ELSE RMake(1, NN * K.R * CFac)
Sizes == [m \in 1..Len(G.sel) |-> Len(K.params[G.sel[m]])]

TermsAt(c, z, y) ==
    TLCEval([r \in 1..c.R |->
        LET fr == [k \in 1..c.C |-> z[OutIdx(c, r, k)]]
        IN  [g |-> TLCEval(TermGrad(c, fr, TermTarget(c, y, r))), h |-> TLCEval(TermHess(c, fr))]])
Tables ==
    LET c == K g == G
        layers == SetToSortSeq(Mapped(c, g), <)
        opt == Options(c)
        kc == TLCEval(Counts(Len(opt), c.M))
        base == TLCEval([i \in 1..NData(c) |->
                   TLCEval(Activations(c.layers, c.params, c.x[i], NoSeed, NoSeed))])
        z(i) == LET o == base[i][Len(base[i])] IN TLCEval([q \in 1..Len(o) |-> o[q][1]])
        fs(i) == LET zi == z(i) IN [r \in 1..c.R |-> [k \in 1..c.C |-> zi[OutIdx(c, r, k)]]]
        po == TLCEval([i \in 1..NData(c) |-> LET f == TLCEval(fs(i)) IN TLCEval([o \in 1..Len(opt) |-> OptProb(c, f, opt[o])])])
        ld == TLCEval([l \in 1..Len(layers) |-> TLCEval([i \in 1..NData(c) |-> TLCEval(LayerDatum(c, i, layers[l], base[i]))])])
        emp(l, i) == LET zi == z(i) IN TLCEval([o \in 1..Len(opt) |-> EmpiricalB(c, g, ld[l][i], TermsAt(c, zi, opt[o]))])
        con(l, i) == Contribution(c, [g EXCEPT !.fisher = "forward"], layers[l], ld[l][i], <<>>)
        RECURSIVE sumA(_, _)
        sumA(l, i) == LET a == con(l, i).A IN IF a = <<>> THEN <<>> ELSE IF i = 1 THEN a ELSE MAdd(sumA(l, i - 1), a)
    IN  [kc |-> kc, layers |-> layers,
         po |-> po,
         p |-> TLCEval([i \in 1..NData(c) |-> TLCEval([k \in 1..Len(kc) |-> CountsProb(po[i], kc[k], c.M)])]),
         B |-> TLCEval([l \in 1..Len(layers) |-> TLCEval([i \in 1..NData(c) |->
                  LET e == emp(l, i) IN TLCEval([k \in 1..Len(kc) |-> MScale(NormB, CountsMatrix(e, kc[k], c.M))])])]),
         t2 |-> TLCEval([l \in 1..Len(layers) |-> TLCEval([i \in 1..NData(c) |->
                  IF c.R = 1 THEN MScale(NormB, Type2B(c, g, ld[l][i], TermsAt(c, z(i), opt[1]))) ELSE <<>>])]),
         A |-> TLCEval([l \in 1..Len(layers) |->
                  LET a == sumA(l, NData(c)) IN IF a = <<>> THEN <<>> ELSE MScale(RMake(1, NN), a)])]

Init == /\ ci \in 1..Len(Cases) /\ gi \in 1..Len(Cases[ci].cfgs)
        /\ phase = "start" /\ tab = <<>> /\ n = 0 /\ prob = ROne /\ pick = <<>> /\ Bs = <<>>
Begin == /\ phase = "start" /\ phase' = "draw"
         /\ tab' = TLCEval(Tables)
         /\ UNCHANGED <<ci, gi, n, prob, pick, Bs>>
Draw == /\ phase = "draw" /\ n < NData(K)
        /\ \E k \in 1..Len(tab.kc) :
              /\ prob' = RMul(prob, tab.p[n + 1][k])
              /\ pick' = Append(pick, k)
              /\ Bs' = TLCEval([l \in 1..Len(tab.layers) |->
                          IF n = 0 THEN tab.B[l][1][k] ELSE MAdd(Bs[l], tab.B[l][n + 1][k])])
        /\ n' = n + 1 /\ UNCHANGED <<ci, gi, phase, tab>>
Blocks == [i \in 1..Len(tab.layers) |->
             [w |-> PosOf(G.sel, Weight(K.layers[tab.layers[i]])), b |-> PosOf(G.sel, K.layers[tab.layers[i]].b),
              joint |-> ~ G.sep, A |-> tab.A[i], B |-> Bs[i]]]
Done == /\ phase = "draw" /\ n = NData(K) /\ phase' = "done"
        /\ LET bl == TLCEval(Blocks)
           IN  Emit([case |-> K.id, kind |-> "outcome", cfg |-> gi, pick |-> pick, prob |-> prob,
                     M |-> Dense(bl, Sizes)])
        /\ tab' = <<>> /\ Bs' = <<>>
        /\ UNCHANGED <<ci, gi, n, prob, pick>>
Spec == Init /\ [][Begin \/ Draw \/ Done]_vars
--------------------------------------------------------------------------
Psd == (phase = "draw" /\ n = NData(K)) => RSign(prob) > 0 /\ \A l \in DOMAIN Bs : MSym(Bs[l]) /\ MPsd(Bs[l])
Law == (phase = "draw" /\ n = 0) =>
    /\ \A i \in 1..NData(K) : REq(RSum(tab.p[i]), ROne)
    /\ (K.R = 1) => \A l \in 1..Len(tab.layers) : \A i \in 1..NData(K) :
          LET B == tab.B[l][i] t == tab.t2[l][i]
          IN  \A a, b \in 1..Len(t) : REq(RDot(tab.p[i], [k \in 1..Len(B) |-> B[k][a][b]]), t[a][b])
=============================================================================
