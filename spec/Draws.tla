------------------------------- MODULE Draws -------------------------------
(* The sampled Fisher: every datum draws its M labels independently, and the  *)
(* operator represents norm * sum_n (average over the draws of the empirical  *)
(* matrix at the drawn labels).  TLC enumerates all outcomes of all data;     *)
(* invariants: the outcome's matrix is positive semi-definite, probabilities  *)
(* are a distribution, the expectation is the GGN and the variance of every   *)
(* entry is that of a single draw divided by M (C04).                         *)
EXTENDS DrawDef, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Emit(x) == PrintT("@@" \o ToJson(x))

VARIABLES ci, phase, tab, n, prob, mat
vars == <<ci, phase, tab, n, prob, mat>>
K == Cases[ci]
Kc == tab.kc
NN == IF K.nd > 0 THEN K.nd ELSE NData(K)
Dim == Len(tab.d[1].gn)

Init == ci \in 1..Len(Cases) /\ phase = "start" /\ tab = <<>> /\ n = 0 /\ prob = ROne /\ mat = <<>>
Tables ==
    LET c == K
        kc == TLCEval(Counts(Len(Options(c)), c.M))
        d == TLCEval([i \in 1..NData(c) |-> DrawDatum(c, i)])
    IN  [kc |-> kc, d |-> d,
         p |-> TLCEval([i \in 1..NData(c) |-> TLCEval([k \in 1..Len(kc) |-> CountsProb(d[i].p, kc[k], c.M)])]),
         A |-> TLCEval([i \in 1..NData(c) |-> TLCEval([k \in 1..Len(kc) |-> CountsMatrix(d[i].A, kc[k], c.M)])])]
Begin == /\ phase = "start" /\ phase' = "draw"
         /\ tab' = TLCEval(Tables)
         /\ mat' = MZero(Len(SelSeeds(K)), Len(SelSeeds(K)))
         /\ Emit([case |-> K.id, kind |-> "tables", norm |-> Norm(K, NN), counts |-> tab'.kc,
                  p |-> tab'.p, A |-> tab'.A, ggn |-> [i \in 1..NData(K) |-> tab'.d[i].gn]])
         /\ UNCHANGED <<ci, n, prob>>
\* the next datum draws its labels
Draw == /\ phase = "draw" /\ n < NData(K)
        /\ \E k \in 1..Len(Kc) :
              /\ prob' = RMul(prob, tab.p[n + 1][k])
              /\ mat' = MAdd(mat, tab.A[n + 1][k])
        /\ n' = n + 1 /\ UNCHANGED <<ci, phase, tab>>
Spec == Init /\ [][Begin \/ Draw]_vars
--------------------------------------------------------------------------
Psd == (phase = "draw" /\ n = NData(K)) => MSym(mat) /\ MPsd(mat) /\ RSign(prob) > 0
Law == (phase = "draw" /\ n = 0) =>
    \A i \in 1..NData(K) :
        LET p == tab.p[i] A == tab.A[i] d == tab.d[i] nk == Len(p) no == Len(d.p)
        IN  /\ REq(RSum(p), ROne)
            /\ \A a, b \in 1..Dim : a <= b =>
                 LET g == d.gn[a][b]
                     sq(r) == LET q == RSub(r, g) IN RMul(q, q)
                 IN  /\ REq(RDot(p, [k \in 1..nk |-> A[k][a][b]]), g)
                     /\ REq(RMul(RInt(K.M), RDot(p, [k \in 1..nk |-> sq(A[k][a][b])])),
                            RDot(d.p, [o \in 1..no |-> sq(d.A[o][a][b])]))
=============================================================================
