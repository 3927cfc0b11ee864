-------------------------------- MODULE Risk -------------------------------
(* The empirical-risk machine: an operator consumes a data set batch by batch *)
(* and accumulates batch quantities (computed with the batch's own mean or    *)
(* sum, then rescaled by batch size over data-set size for "mean").  TLC      *)
(* explores every ordered partition of every case's data into batches; the    *)
(* invariants say that the accumulated quantities equal the definitions over  *)
(* the whole data set, however it was split.  Complete behaviours and the     *)
(* expected values are printed and replayed on the real operators             *)
(* (C01 C02 C03 C05 C06 C07 C23 C25).                                         *)
EXTENDS Curv, Json, IOUtils, FiniteSets, SequencesExt

Cases == JsonDeserialize(IOEnv.CASES)
Emit(x) == PrintT("@@" \o ToJson(x))

VARIABLES ci, phase, tab, rest, hist, acc
vars == <<ci, phase, tab, rest, hist, acc>>

C == Cases[ci]
\* data-set size used for normalisation: given explicitly (nd > 0) or counted
NN == IF C.nd > 0 THEN C.nd ELSE NData(C)

Full(c) == [c EXCEPT !.sel = [k \in 1..Len(c.params) |-> k]]   \* all parameters, model order

Zero(D) == [gn |-> MZero(D, D), rs |-> MZero(D, D), ef |-> MZero(D, D),
            gr |-> TLCEval([i \in 1..D |-> RZero])]
Plus(a, b) == [gn |-> MAdd(a.gn, b.gn), rs |-> MAdd(a.rs, b.rs), ef |-> MAdd(a.ef, b.ef), gr |-> VAdd(a.gr, b.gr)]
Times(r, a) == [gn |-> MScale(r, a.gn), rs |-> MScale(r, a.rs), ef |-> MScale(r, a.ef), gr |-> VScale(r, a.gr)]
RECURSIVE SumOver(_, _, _)
SumOver(t, S, D) == IF S = {} THEN Zero(D)
                    ELSE LET n == CHOOSE n \in S : TRUE IN Plus(t[n], SumOver(t, S \ {n}, D))

Dim == Len(tab[1].gr)
\* the definition over the whole data set
Definition == Times(Norm(C, NN), SumOver(tab, 1..NData(C), Dim))

\* what one batch contributes
BatchTerm(B) ==
    LET b == Cardinality(B)
        factor == IF C.red = "sum" THEN ROne ELSE RMake(b, NN)
    IN  Times(factor, Times(Norm(C, b), SumOver(tab, B, Dim)))

\* positions of the entries of the listed parameters in the full flat vector
Offsets == [k \in 1..Len(C.params) |-> LET RECURSIVE o(_)
                                           o(m) == IF m = 0 THEN 0 ELSE o(m - 1) + Len(C.params[m])
                                       IN  o(k - 1)]
SelIdx(sel) == LET RECURSIVE cat(_)
                   cat(m) == IF m > Len(sel) THEN <<>>
                             ELSE [e \in 1..Len(C.params[sel[m]]) |-> Offsets[sel[m]] + e] \o cat(m + 1)
               IN  cat(1)
\* block number of every entry if the listed parameters form consecutive blocks
BlockOf(sel, sizes) ==
    LET RECURSIVE blk(_, _)
        blk(m, b) == IF m <= 0 THEN b ELSE blk(m - sizes[b], b + 1)   \* block of the m-th parameter
        RECURSIVE cat(_)
        cat(m) == IF m > Len(sel) THEN <<>>
                  ELSE [e \in 1..Len(C.params[sel[m]]) |-> blk(m, 1) - 1] \o cat(m + 1)
    IN  cat(1)

Log(t) == LET RECURSIVE l(_)
              l(n) == IF n = 0 THEN LossUnit(C) ELSE LossAcc(C, l(n - 1), t[n].ls)
          IN  l(NData(C))

Report ==
    Emit([case |-> C.id, kind |-> "values", D |-> Dim, norm |-> Norm(C, NN),
          ggn |-> Definition.gn, res |-> Definition.rs, ef |-> Definition.ef, gr |-> Definition.gr,
          ls |-> Log(tab), z |-> [n \in 1..NData(C) |-> tab[n].z], J |-> [n \in 1..NData(C) |-> tab[n].J],
          sels |-> [s \in 1..Len(C.sels) |-> SelIdx(C.sels[s])],
          blocks |-> [s \in 1..Len(C.blocks) |-> BlockOf(C.sels[1], C.blocks[s])]])

Init == /\ ci \in 1..Len(Cases)
        /\ phase = "start" /\ tab = <<>> /\ rest = {} /\ hist = <<>> /\ acc = <<>>

Begin == /\ phase = "start"
         /\ phase' = "run"
         /\ tab' = LET c == Full(C) seeds == SelSeeds(c)
                   IN  TLCEval([n \in 1..NData(c) |-> DatumAt(c, n, seeds, c.second)])
         /\ rest' = 1..NData(C)
         /\ acc' = Zero(Len(SelSeeds(Full(C))))
         /\ UNCHANGED <<ci, hist>>

Batch == /\ phase = "run" /\ rest # {}
         /\ \E B \in SUBSET rest :
               /\ B # {}
               /\ \A b \in B : C.contig => (b - 1 \in B \/ \A r \in rest : b <= r)  \* only contiguous splits
               /\ rest' = rest \ B
               /\ hist' = Append(hist, SetToSortSeq(B, <))
               /\ acc' = TLCEval(Plus(acc, BatchTerm(B)))
         /\ UNCHANGED <<ci, phase, tab>>

Done == /\ phase = "run" /\ rest = {}
        /\ phase' = "done"
        /\ IF Len(hist) = 1 THEN Report ELSE TRUE
        /\ Emit([case |-> C.id, kind |-> "split", batches |-> hist])
        /\ tab' = <<>> /\ acc' = <<>>
        /\ UNCHANGED <<ci, rest, hist>>

Next == Begin \/ Batch \/ Done
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
\* C06: however the data are split, the accumulated quantity is the definition
SplitInvariance ==
    (phase = "run" /\ rest = {}) =>
        LET d == Definition
        IN  /\ MEq(acc.gn, d.gn) /\ MEq(acc.rs, d.rs) /\ MEq(acc.ef, d.ef) /\ VEq(acc.gr, d.gr)
\* C02: the GGN is symmetric positive semi-definite and the Hessian if the
\* network is linear in the parameters; C03: so is the empirical Fisher
GgnPsd == (phase = "run" /\ hist = <<>>) =>
    \A n \in DOMAIN tab : /\ MSym(tab[n].gn) /\ MPsd(tab[n].gn)
                          /\ MSym(tab[n].ef) /\ MPsd(tab[n].ef)
                          /\ MSym(tab[n].rs)
LinearCase == (phase = "run" /\ hist = <<>> /\ C.linear) =>
    \A n \in DOMAIN tab : MEq(tab[n].rs, MZero(Dim, Dim))
=============================================================================
