----------------------------- MODULE Submatrix -----------------------------
(* A sub-matrix operator of a fixed matrix A with re-definable row and column *)
(* index lists (C18).  Index lists come from pools; an entry is a record      *)
(* [t |-> "int", v |-> i] (0-based) or [t |-> anything else].                 *)
(*   set      definition attempt: rejected (state unchanged) or accepted      *)
(*   mutate   the caller overwrites the lists passed before: no effect        *)
(*   use      products with the current sub-matrix or its adjoint/transpose   *)
(*   keep     an adjoint taken now keeps representing the present sub-matrix  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Emit(x) == PrintT("@@" \o ToJson(x))

VARIABLES ci, rows, cols, kept, hist, phase
vars == <<ci, rows, cols, kept, hist, phase>>
K == Cases[ci]
NR(A) == Len(A)
NC(A) == Len(A[1])

Valid(l, n) == /\ \A i \in 1..Len(l) : l[i].t = "int" /\ l[i].v \in 0..(n - 1)
               /\ \A i, j \in 1..Len(l) : i # j => l[i].v # l[j].v
Plain(l) == [i \in 1..Len(l) |-> l[i].v]
Sub(A, r, c) == [i \in 1..Len(r) |-> [j \in 1..Len(c) |-> A[r[i] + 1][c[j] + 1]]]
Tr(A, n) == [j \in 1..n |-> [i \in 1..Len(A) |-> A[i][j]]]

UseKinds == {"matvec", "matmat", "column", "rmatvec", "rmatmat", "transpose", "adjoint2", "dot"}

Init == /\ ci \in 1..Len(Cases)
        /\ \E a \in 1..Len(Cases[ci].rpool), b \in 1..Len(Cases[ci].cpool) :
              /\ Valid(Cases[ci].rpool[a], NR(Cases[ci].A)) /\ Valid(Cases[ci].cpool[b], NC(Cases[ci].A))
              /\ rows = Plain(Cases[ci].rpool[a]) /\ cols = Plain(Cases[ci].cpool[b])
              /\ hist = <<[e |-> "make", r |-> a, c |-> b]>>
        /\ kept = <<>> /\ phase = "run"
Set == \E a \in 1..Len(K.rpool), b \in 1..Len(K.cpool) :
          LET ok == Valid(K.rpool[a], NR(K.A)) /\ Valid(K.cpool[b], NC(K.A))
          IN  /\ rows' = IF ok THEN Plain(K.rpool[a]) ELSE rows
              /\ cols' = IF ok THEN Plain(K.cpool[b]) ELSE cols
              /\ hist' = Append(hist, [e |-> "set", r |-> a, c |-> b, ok |-> ok])
              /\ UNCHANGED kept
Mutate == hist' = Append(hist, [e |-> "mutate"]) /\ UNCHANGED <<rows, cols, kept>>
Use == \E k \in UseKinds : /\ hist' = Append(hist, [e |-> "use", k |-> k, M |-> Sub(K.A, rows, cols)])
                           /\ UNCHANGED <<rows, cols, kept>>
Keep == /\ kept' = <<Sub(K.A, rows, cols)>>
        /\ hist' = Append(hist, [e |-> "keep"]) /\ UNCHANGED <<rows, cols>>
UseKept == /\ kept # <<>>
           /\ hist' = Append(hist, [e |-> "usekept", M |-> kept[1]]) /\ UNCHANGED <<rows, cols, kept>>
Step == /\ phase = "run" /\ Len(hist) < K.depth
        /\ (Set \/ Mutate \/ Use \/ Keep \/ UseKept)
        /\ UNCHANGED <<ci, phase>>
Done == /\ phase = "run" /\ Len(hist) = K.depth /\ phase' = "done"
        /\ Emit([case |-> K.id, hist |-> hist])
        /\ UNCHANGED <<ci, rows, cols, kept, hist>>
Spec == Init /\ [][Step \/ Done]_vars

\* the sub-matrix always has valid index lists: those of the last accepted definition
Defined ==
    /\ \A i \in 1..Len(rows) : rows[i] \in 0..(NR(K.A) - 1)
    /\ \A i \in 1..Len(cols) : cols[i] \in 0..(NC(K.A) - 1)
    /\ Cardinality({rows[i] : i \in 1..Len(rows)}) = Len(rows)
    /\ Cardinality({cols[i] : i \in 1..Len(cols)}) = Len(cols)
\* adjoint of the sub-matrix = sub-matrix of the adjoint with swapped lists
AdjointCommutes == Tr(Sub(K.A, rows, cols), Len(cols)) = Sub(Tr(K.A, NC(K.A)), cols, rows)
RejectedKeeps == [][(hist' # hist /\ hist'[Len(hist')].e = "set" /\ ~ hist'[Len(hist')].ok)
                        => rows' = rows /\ cols' = cols]_vars
=============================================================================
