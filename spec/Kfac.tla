-------------------------------- MODULE Kfac -------------------------------
(* The KFAC machine: a pass over the data accumulates, per mapped layer, the  *)
(* input covariance and the gradient covariance.  A batch of b data with R    *)
(* loss terms each is back-propagated with its own mean or sum reduction; the *)
(* "mean" covariance is corrected by (b R)^2 / (N R).  TLC explores all       *)
(* ordered partitions of the data and all configurations; the invariants say  *)
(* that the factors do not depend on the partition, are positive semi-        *)
(* definite, and that trace, determinant and Frobenius norm computed from the *)
(* factors are those of the represented matrix.  Values and behaviours are    *)
(* printed and replayed (C06 C07 C12 C13).                                    *)
EXTENDS KfacDef, Json, IOUtils, SequencesExt, FiniteSets

Cases == JsonDeserialize(IOEnv.CASES)
Emit(x) == PrintT("@@" \o ToJson(x))

VARIABLES ci, gi, phase, con, rest, hist, fac
vars == <<ci, gi, phase, con, rest, hist, fac>>

K == Cases[ci]
G == K.cfgs[gi]
NN == IF G.nd > 0 THEN G.nd ELSE NData(K)
Layers == SetToSortSeq(Mapped(K, G), <)
Sizes == [m \in 1..Len(G.sel) |-> Len(K.params[G.sel[m]])]

Init == /\ ci \in 1..Len(Cases)
        /\ gi \in 1..Len(Cases[ci].cfgs)
        /\ phase = "start" /\ con = <<>> /\ rest = {} /\ hist = <<>> /\ fac = <<>>

\* contributions of all data to all mapped layers
Begin == /\ phase = "start"
         /\ phase' = "run"
         /\ con' = LET c == K g == G
                       base == TLCEval([n \in 1..NData(c) |->
                                  TLCEval(Activations(c.layers, c.params, c.x[n], NoSeed, NoSeed))])
                       z(n) == LET o == base[n][Len(base[n])] IN [q \in 1..Len(o) |-> o[q][1]]
                       terms == TLCEval([n \in 1..NData(c) |-> DatumTerms(c, n, z(n))])
                   IN  TLCEval([i \in 1..Len(Layers) |-> TLCEval([n \in 1..NData(c) |->
                           TLCEval(Contribution(c, g, Layers[i], LayerDatum(c, n, Layers[i], base[n]), terms[n]))])])
         /\ rest' = 1..NData(K)
         /\ fac' = <<>>
         /\ UNCHANGED <<ci, gi, hist>>

RECURSIVE SumB(_, _)
SumB(cs, S) == LET n == CHOOSE n \in S : TRUE
               IN  IF S = {n} THEN cs[n].B ELSE MAdd(cs[n].B, SumB(cs, S \ {n}))
RECURSIVE SumA(_, _)
SumA(cs, S) == LET n == CHOOSE n \in S : TRUE
               IN  IF cs[n].A = <<>> THEN <<>>
                   ELSE IF S = {n} THEN cs[n].A ELSE MAdd(cs[n].A, SumA(cs, S \ {n}))

\* gradients of a batch of size b carry the batch loss's own normalisation
CFac == IF K.loss = "ce" THEN 1 ELSE K.C
BatchB(cs, S) ==
    LET b == Cardinality(S)
        grad2 == IF K.red = "sum" THEN ROne ELSE RMake(1, (b * K.R) * (b * K.R) * CFac)
        corr == IF K.red = "sum" THEN ROne ELSE RMake((b * K.R) * (b * K.R), NN * K.R)
    IN  MScale(RMul(grad2, corr), SumB(cs, S))
BatchA(cs, S) == LET a == SumA(cs, S) IN IF a = <<>> THEN <<>> ELSE MScale(RMake(1, NN), a)

AddFac(old, i, S) ==
    LET A == BatchA(con[i], S)
        B == IF G.fisher = "forward" THEN MEye(Len(con[i][1].B)) ELSE BatchB(con[i], S)
    IN  IF old = <<>> THEN [A |-> A, B |-> B]
        ELSE [A |-> IF A = <<>> THEN <<>> ELSE MAdd(old[i].A, A),
              B |-> IF G.fisher = "forward" THEN B ELSE MAdd(old[i].B, B)]

Batch == /\ phase = "run" /\ rest # {}
         /\ \E S \in SUBSET rest :
               /\ S # {}
               /\ \A b \in S : K.contig => (b - 1 \in S \/ \A r \in rest : b <= r)
               /\ rest' = rest \ S
               /\ hist' = Append(hist, SetToSortSeq(S, <))
               /\ fac' = TLCEval([i \in 1..Len(Layers) |-> AddFac(fac, i, S)])
         /\ UNCHANGED <<ci, gi, phase, con>>

Blocks == [i \in 1..Len(Layers) |->
             [w |-> PosOf(G.sel, Weight(K.layers[Layers[i]])), b |-> PosOf(G.sel, K.layers[Layers[i]].b),
              joint |-> ~ G.sep, A |-> fac[i].A, B |-> fac[i].B]]

Done == /\ phase = "run" /\ rest = {}
        /\ phase' = "done"
        /\ IF Len(hist) = 1
           THEN Emit([case |-> K.id, kind |-> "values", cfg |-> gi, sb |-> ScaleB(K, G),
                      layers |-> Layers, blocks |-> Blocks, sizes |-> Sizes,
                      M |-> Dense(Blocks, Sizes),
                      trace |-> FacTrace(Blocks), frob2 |-> FacFrob2(Blocks),
                      det |-> IF K.dets THEN FacDet(Blocks) ELSE RZero])
           ELSE TRUE
        /\ (gi = 1) => Emit([case |-> K.id, kind |-> "split", batches |-> hist])
        /\ con' = <<>> /\ fac' = <<>>
        /\ UNCHANGED <<ci, gi, rest, hist>>

Next == Begin \/ Batch \/ Done
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
Ended == phase = "run" /\ rest = {}
\* C06, C12: the factors are the data-set averages, however the data are split
Definition ==
    [i \in 1..Len(Layers) |->
        [A |-> LET a == SumA(con[i], 1..NData(K)) IN IF a = <<>> THEN <<>> ELSE MScale(RMake(1, NN), a),
         B |-> IF G.fisher = "forward" THEN MEye(Len(con[i][1].B))
               ELSE MScale(IF K.red = "sum" THEN ROne ELSE RMake(1, NN * K.R * CFac), SumB(con[i], 1..NData(K)))]]
SplitInvariance == Ended => LET d == Definition IN
    \A i \in 1..Len(Layers) : MEq(fac[i].A, d[i].A) /\ MEq(fac[i].B, d[i].B)
FactorsPsd == (Ended /\ Len(hist) = 1) =>
    \A i \in 1..Len(Layers) : MPsd(fac[i].B) /\ MSym(fac[i].B) /\ (fac[i].A # <<>> => MPsd(fac[i].A) /\ MSym(fac[i].A))
\* C13: properties computed from the factors are those of the dense matrix
MatrixProperties == (Ended /\ Len(hist) = 1) =>
    LET M == Dense(Blocks, Sizes)
    IN  /\ REq(FacTrace(Blocks), MTrace(M)) /\ REq(FacFrob2(Blocks), MFrob2(M))
        /\ K.dets => REq(FacDet(Blocks), MDet(M))
=============================================================================
