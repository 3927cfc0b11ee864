------------------------------ MODULE DrawDef ------------------------------
(* Labels drawn from a network's predictive distribution.  For cross-entropy  *)
(* and binary cross-entropy a datum's possible labels ("options") are finite  *)
(* and have rational probabilities; c.M labels are drawn per datum, and only  *)
(* how often every option was drawn matters ("counts", one per option).       *)
(* A sampled curvature matrix is the average over the M draws of what the     *)
(* empirical matrix would be if the drawn labels were the targets.            *)
EXTENDS Curv, FiniteSets

RECURSIVE Tuples(_, _)
Tuples(vals, n) == IF n = 0 THEN << <<>> >>
                   ELSE LET t == Tuples(vals, n - 1)
                            RECURSIVE cat(_)
                            cat(i) == IF i > Len(t) THEN <<>>
                                      ELSE [v \in 1..Len(vals) |-> Append(t[i], vals[v])] \o cat(i + 1)
                        IN  cat(1)
Options(c) == TLCEval(IF c.loss = "ce" THEN Tuples([k \in 1..c.C |-> k], c.R)
                      ELSE Tuples(<<0, 1>>, c.R * c.C))

TermProb(c, f, y) ==
    IF c.loss = "ce" THEN Softmax(f)[y[1]]
    ELSE LET p == Sigmoid(f)
             RECURSIVE prod(_)
             prod(k) == IF k > c.C THEN ROne ELSE RMul(IF y[k] = 1 THEN p[k] ELSE RSub(ROne, p[k]), prod(k + 1))
         IN  prod(1)
OptProb(c, fs, o) == LET RECURSIVE prod(_)
                         prod(r) == IF r > c.R THEN ROne ELSE RMul(TermProb(c, fs[r], TermTarget(c, o, r)), prod(r + 1))
                     IN  prod(1)

\* all ways of drawing M times from n options
RECURSIVE Counts(_, _)
Counts(n, M) == IF n = 1 THEN << <<M>> >>
                ELSE LET RECURSIVE cat(_)
                         cat(k) == IF k > M THEN <<>>
                                   ELSE LET t == Counts(n - 1, M - k)
                                        IN  [i \in 1..Len(t) |-> <<k>> \o t[i]] \o cat(k + 1)
                     IN  cat(0)
RECURSIVE RPow(_, _)
RPow(r, k) == IF k = 0 THEN ROne ELSE RMul(r, RPow(r, k - 1))
RECURSIVE Fact(_)
Fact(k) == IF k = 0 THEN 1 ELSE k * Fact(k - 1)
RECURSIVE ProdFrom(_, _, _)
ProdFrom(p, k, i) == IF i > Len(k) THEN ROne ELSE RMul(RDiv(RPow(p[i], k[i]), RInt(Fact(k[i]))), ProdFrom(p, k, i + 1))
\* probability of the counts k if options have probabilities p
CountsProb(p, k, M) == RMul(RInt(Fact(M)), ProdFrom(p, k, 1))

\* average of option matrices
CountsMatrix(A, k, M) ==
    LET D == Len(A[1])
    IN  TLCEval([i \in 1..D |-> [j \in 1..D |->
            RMul(RMake(1, M), RSum([o \in 1..Len(k) |-> RMul(RInt(k[o]), A[o][i][j])]))]])

\* sum over a datum's loss terms of (J^T g)(J^T g)^T for the targets y
TargetEf(c, terms, D, y) ==
    LET gt == TLCEval([r \in 1..c.R |->
                 LET Jt == MTr(terms[r].J, D) g == TermGrad(c, terms[r].f, TermTarget(c, y, r))
                 IN  [i \in 1..D |-> RDot(Jt[i], g)]])
    IN  TLCEval([i \in 1..D |-> [j \in 1..D |-> RSum([r \in 1..c.R |-> RMul(gt[r][i], gt[r][j])])]])

\* everything about one datum: option probabilities and matrices, the GGN term
DrawDatum(c, n) ==
    LET seeds == SelSeeds(c)
        d == DatumAt(c, n, seeds, FALSE)
        D == Len(seeds)
        opt == Options(c)
        fs == [r \in 1..c.R |-> d.terms[r].f]
    IN  [p |-> TLCEval([o \in 1..Len(opt) |-> OptProb(c, fs, opt[o])]),
         A |-> TLCEval([o \in 1..Len(opt) |-> TargetEf(c, d.terms, D, opt[o])]),
         gn |-> d.gn, J |-> d.J]
=============================================================================
