-------------------------------- MODULE Hutch --------------------------------
(* All outcomes of the estimators when every drawn vector is a sign vector:   *)
(* the machine draws sketch vectors one by one, then the sample's vector.     *)
(* Every path has the same probability, so the law of an estimate is the      *)
(* multiset of values over the outcomes.                                      *)
EXTENDS HutchDef, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Emit(x) == PrintT("@@" \o ToJson(x))

VARIABLES ci, S, v
vars == <<ci, S, v>>
K == Cases[ci]
A == MInt(K.A)
N == IF Len(K.A) = 0 THEN 0 ELSE Len(K.A[1])      \* columns
M == K.m                                          \* sketch size (0: none)

Init == ci \in 1..Len(Cases) /\ S = <<>> /\ v = <<>>
Draw == /\ Len(S) < M /\ v = <<>>
        /\ \E k \in 0..(2 ^ N - 1) : S' = Append(S, SignVec(N, k))
        /\ UNCHANGED <<ci, v>>
Sample == /\ Len(S) = M /\ v = <<>>
          /\ \E k \in 0..(2 ^ N - 1) : v' = SignVec(N, k)
          /\ UNCHANGED <<ci, S>>
Spec == Init /\ [][Draw \/ Sample]_vars

Value(sk, x) == CASE K.est = "tr" -> <<SampleTr(A, x)>>
                  [] K.est = "diag" -> SampleDiag(A, x)
                  [] K.est = "fro" -> <<SampleFro(A, x)>>
                  [] K.est = "pp" -> <<SamplePP(A, sk, MVec(sk.C, x))>>
Target == CASE K.est \in {"tr", "pp"} -> <<MTrace(A)>>
            [] K.est = "diag" -> [i \in 1..N |-> A[i][i]]
            [] K.est = "fro" -> <<MFrob2(A)>>
Sk == IF K.est = "pp" THEN Sketch(A, S) ELSE [rank |-> 0]

\* the law of a sample, given the sketch
Law == LET sk == Sk IN [k \in 1..(2 ^ N) |-> Value(sk, SignVec(N, k - 1))]
Mean(law) == [i \in 1..Len(law[1]) |-> RDiv(RSum([k \in 1..Len(law) |-> law[k][i]]), RInt(Len(law)))]
AtLaw == Len(S) = M /\ v = <<>>

Unbiased == AtLaw => LET law == Law sk == Sk IN
    /\ VEq(Mean(law), Target)
    /\ K.est = "pp" =>
          /\ MEq(MMul(sk.P, sk.P), sk.P) /\ MSym(sk.P)
          \* the range of a symmetric matrix, or the whole space, captured: every sample is exact
          /\ (Captured(A, sk) \/ sk.rank = N) => \A k \in 1..Len(law) : VEq(law[k], Target)
    /\ Emit([case |-> K.id, S |-> S, law |-> law, unique |-> (K.est # "pp" \/ Unique(sk, M)),
             exact |-> (K.est = "pp" /\ (Captured(A, sk) \/ M >= N)), target |-> Target])
=============================================================================
