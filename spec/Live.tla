-------------------------------- MODULE Live -------------------------------
(* Operators that compute anew follow what they are built on: an answer       *)
(* belongs to the parameter values, the data and the partition of the data    *)
(* at the time of the product, not at the time of construction, of an earlier *)
(* product or of another operator on the same model.  Histories of making     *)
(* operators, asking them, overwriting parameters or data in place and        *)
(* re-partitioning the data are generated here and replayed on the real       *)
(* operators; the matrices of each version come from Risk.tla (C01-C07, C23). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Emit(x) == PrintT("@@" \o ToJson(x))

VARIABLES ci, pv, dv, sv, born, hist, phase
vars == <<ci, pv, dv, sv, born, hist, phase>>
\* ops: number of operators; qs: queries; np, nd, ns: versions of parameters, data, partition
K == Cases[ci]

Init == /\ ci \in 1..Len(Cases) /\ pv = 1 /\ dv = 1 /\ sv = 1 /\ born = {} /\ hist = <<>> /\ phase = "run"

Note(e) == hist' = Append(hist, e)
Going == phase = "run" /\ Len(hist) < K.depth
Make == /\ Going
        /\ \E o \in 1..K.ops : o \notin born /\ born' = born \cup {o} /\ Note([a |-> "make", o |-> o])
        /\ UNCHANGED <<ci, pv, dv, sv, phase>>
Ask == /\ Going
       /\ \E o \in born, q \in 1..K.qs : Note([a |-> "ask", o |-> o, q |-> q, pv |-> pv, dv |-> dv, sv |-> sv])
       /\ UNCHANGED <<ci, pv, dv, sv, born, phase>>
Params == /\ Going /\ born # {}
          /\ \E v \in 1..K.np : v # pv /\ pv' = v /\ Note([a |-> "params", v |-> v])
          /\ UNCHANGED <<ci, dv, sv, born, phase>>
Data == /\ Going /\ born # {}
        /\ \E v \in 1..K.nd : v # dv /\ dv' = v /\ Note([a |-> "data", v |-> v])
        /\ UNCHANGED <<ci, pv, sv, born, phase>>
Split == /\ Going /\ born # {}
         /\ \E v \in 1..K.ns : v # sv /\ sv' = v /\ Note([a |-> "split", v |-> v])
         /\ UNCHANGED <<ci, pv, dv, born, phase>>
\* the user runs the model, takes a step back and forth, toggles train/eval
User == /\ Going /\ born # {}
        /\ \E x \in {"forward", "backward", "mode"} : Note([a |-> x])
        /\ UNCHANGED <<ci, pv, dv, sv, born, phase>>
Done == /\ phase = "run" /\ Len(hist) = K.depth /\ phase' = "done"
        /\ Emit([case |-> K.id, hist |-> hist])
        /\ UNCHANGED <<ci, pv, dv, sv, born, hist>>
Ask2 == Ask
Next == Make \/ Ask \/ Ask2 \/ Params \/ Data \/ Split \/ User \/ Done
Spec == Init /\ [][Next]_vars

\* the last version set before event i (the first if none)
Last(a, i) == LET S == {j \in 1..(i - 1) : hist[j].a = a}
              IN  IF S = {} THEN 1 ELSE hist[CHOOSE j \in S : \A k \in S : k <= j].v
IsAsk(i) == hist[i].a = "ask"
\* an answer belongs to the latest versions ...
Current == \A i \in 1..Len(hist) : IsAsk(i) =>
    /\ hist[i].pv = Last("params", i) /\ hist[i].dv = Last("data", i) /\ hist[i].sv = Last("split", i)
\* ... hence two answers with no change in between, of any operators, belong together,
\* and so do answers before and after a change that was taken back
Together == \A i, j \in 1..Len(hist) :
    (/\ i < j /\ IsAsk(i) /\ IsAsk(j)
     /\ Last("params", i) = Last("params", j) /\ Last("data", i) = Last("data", j))
    => hist[i].pv = hist[j].pv /\ hist[i].dv = hist[j].dv
Born == \A i \in 1..Len(hist) : IsAsk(i) => \E j \in 1..(i - 1) : hist[j].a = "make" /\ hist[j].o = hist[i].o
=============================================================================
