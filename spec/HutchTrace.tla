----------------------------- MODULE HutchTrace -----------------------------
(* Recorded histories of one estimator: what was applied to the operator in   *)
(* each call and what came back.  A history is accepted if some assignment of *)
(* the sketch explains every result.  Events                                  *)
(*   [e |-> "sample", dist, seen, out]  a sample; seen: vectors applied to A  *)
(*   [e |-> "prepare", seen]            subspace computed ahead (pp)          *)
(*   [e |-> "fail", seen]               a product raised; nothing was returned*)
(* Numbers are the exact values of the floating point numbers of the run.     *)
EXTENDS HutchDef, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Emit(x) == PrintT("@@" \o ToJson(x))

VARIABLES ci, k, sketch, settled, phase
vars == <<ci, k, sketch, settled, phase>>
K == Cases[ci]
Rt(p) == RMake(p[1], p[2])
Vec(x) == [i \in 1..Len(x) |-> Rt(x[i])]
A == [i \in 1..Len(K.A) |-> [j \in 1..Len(K.A[i]) |-> RInt(K.A[i][j])]]
N == Len(K.A[1])
Ev == K.events[k]
Tol(s) == RMul(Rt(K.tol), RAdd(ROne, s))
Near(a, b, s) == RLe(RAbs(RSub(a, b)), Tol(s))
VNear(u, w, s) == Len(u) = Len(w) /\ \A i \in 1..Len(u) : Near(u[i], w[i], s)
Size == RSum([i \in 1..Len(A) |-> RSum([j \in 1..N |-> RAbs(A[i][j])])])

Init == ci \in 1..Len(Cases) /\ k = 1 /\ sketch = <<>> /\ settled = FALSE /\ phase = "run"

Drawn(dist, x) == dist = "rademacher" => IsSign(x)
Seen == TLCEval([i \in 1..Len(Ev.seen) |-> Vec(Ev.seen[i])])
\* the sketch after the event: the one already there, or the first vectors applied now
NewSketch == IF sketch # <<>> THEN sketch
             ELSE IF Len(Seen) >= K.m /\ \A i \in 1..K.m : Drawn(K.basis, Seen[i])
                  THEN SubSeq(Seen, 1, K.m) ELSE <<>>
\* is the result explained by a subspace and an admissible drawn vector?
ExplainsPP(S) ==
    LET sk == Sketch(A, S) w == Seen[Len(Seen)] r == Rt(Ev.out[1]) sz == RMul(Size, RAdd(ROne, RDot(w, w)))
    IN  IF ~ Unique(sk, K.m) \/ K.m >= N
        THEN (Captured(A, sk) \/ K.m >= N) => Near(r, MTrace(A), sz)
        ELSE /\ Near(r, SamplePP(A, sk, w), sz)
             /\ IF Ev.dist = "rademacher"
                THEN \E j \in 0..(2 ^ N - 1) : VNear(w, MVec(sk.C, SignVec(N, j)), RZero)
                ELSE VNear(MVec(sk.P, w), [i \in 1..N |-> RZero], RDot(w, w))
Explains ==
    CASE K.est = "pp" -> NewSketch # <<>> /\ ExplainsPP(NewSketch)
      [] OTHER ->
           LET x == Seen[1] out == Vec(Ev.out) sz == RMul(RMul(Size, Size), RAdd(ROne, RDot(x, x)))
           IN  /\ Drawn(Ev.dist, x)
               /\ VNear(out, CASE K.est = "tr" -> <<SampleTr(A, x)>>
                               [] K.est = "diag" -> SampleDiag(A, x)
                               [] K.est = "fro" -> <<SampleFro(A, x)>>, sz)
Sample == /\ Ev.e = "sample" /\ Explains
          /\ sketch' = NewSketch /\ settled' = TRUE
Prepare == /\ Ev.e = "prepare" /\ sketch' = NewSketch
           /\ NewSketch # <<>>
           /\ settled => Len(Seen) = 0          \* computed once
           /\ settled' = TRUE
\* a failed call may have settled the subspace or not
Fail == /\ Ev.e = "fail"
        /\ \/ sketch' = sketch
           \/ Len(Seen) >= K.m /\ K.est = "pp" /\ sketch' = NewSketch
        /\ settled' = settled
Step == /\ phase = "run" /\ k <= Len(K.events)
        /\ (Sample \/ Prepare \/ Fail)
        /\ k' = k + 1 /\ UNCHANGED <<ci, phase>>
Accept == /\ phase = "run" /\ k = Len(K.events) + 1
          /\ phase' = "accepted" /\ Emit([case |-> K.id, accepted |-> TRUE])
          /\ UNCHANGED <<ci, k, sketch, settled>>
Progress == /\ phase = "run" /\ k <= Len(K.events) /\ ~ ENABLED Step
            /\ phase' = "stuck" /\ Emit([case |-> K.id, stuck |-> k])
            /\ UNCHANGED <<ci, k, sketch, settled>>
Spec == Init /\ [][Step \/ Accept \/ Progress]_vars
=============================================================================
