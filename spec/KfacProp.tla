------------------------------ MODULE KfacProp ------------------------------
(* Requests of matrix properties of a KFAC operator in any order, with caches *)
(* (C13).  The factors are those of the case; what a request returns is the   *)
(* cached value or computed from the factors; the invariant compares it with  *)
(* the represented dense matrix.                                              *)
EXTENDS KronBlocks, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Emit(x) == PrintT("@@" \o ToJson(x))

VARIABLES ci, cache, hist, phase
vars == <<ci, cache, hist, phase>>
K == Cases[ci]
Rt(r) == RMake(r[1], r[2])
RM(A) == TLCEval([r \in 1..Len(A) |-> [c \in 1..Len(A[r]) |-> Rt(A[r][c])]])
Blocks == TLCEval([i \in 1..Len(K.blocks) |-> [K.blocks[i] EXCEPT !.A = RM(K.blocks[i].A), !.B = RM(K.blocks[i].B)]])

Props == {"trace", "det", "frob2"}
FromFactors(p) == CASE p = "trace" -> FacTrace(Blocks) [] p = "det" -> FacDet(Blocks) [] p = "frob2" -> FacFrob2(Blocks)
FromMatrix(p, M) == CASE p = "trace" -> MTrace(M) [] p = "det" -> MDet(M) [] p = "frob2" -> MFrob2(M)

Init == /\ ci \in 1..Len(Cases) /\ phase = "run" /\ hist = <<>>
        /\ cache = [p \in Props |-> <<>>]
\* logdet is the logarithm of det (own cache in the code, same value here)
Request == /\ phase = "run" /\ Len(hist) < K.depth
           /\ \E p \in Props \cup {"logdet", "product"} :
                 /\ p = "logdet" => K.semidef  \* minus infinity if singular
                 /\ hist' = Append(hist, p)
                 /\ LET q == IF p = "logdet" THEN "det" ELSE p
                    IN  cache' = IF p = "product" \/ cache[q] # <<>> THEN cache
                                 ELSE [cache EXCEPT ![q] = FromFactors(q)]
           /\ UNCHANGED <<ci, phase>>
\* a request that fails somewhere on the way leaves no value behind (or all of it: it
\* may fail after the value was complete)
Failing == /\ phase = "run" /\ Len(hist) < K.depth - 1
           /\ \E p \in Props \cup {"logdet", "product"} :
                 /\ p = "logdet" => K.semidef  \* minus infinity if singular
                 /\ hist' = Append(hist, "failing " \o p)
                 /\ LET q == IF p = "logdet" THEN "det" ELSE p
                    IN  \/ UNCHANGED cache
                        \/ /\ p # "product" /\ cache[q] = <<>>
                           /\ cache' = [cache EXCEPT ![q] = FromFactors(q)]
           /\ UNCHANGED <<ci, phase>>
Done == /\ phase = "run" /\ Len(hist) = K.depth
        /\ phase' = "done"
        /\ Emit([case |-> K.id, kind |-> "requests", hist |-> hist])
        /\ (\A i \in 1..Len(hist) : hist[i] = "product") =>
              LET M == Dense(Blocks, K.sizes)
              IN  Emit([case |-> K.id, kind |-> "values", M |-> M, trace |-> MTrace(M),
                        det |-> MDet(M), frob2 |-> MFrob2(M)])
        /\ UNCHANGED <<ci, cache, hist>>
Spec == Init /\ [][Request \/ Failing \/ Done]_vars

\* checked in the states right after a value enters the cache
MatrixProperties == Len(hist) = 1 => LET M == Dense(Blocks, K.sizes) IN
    \A p \in Props : cache[p] # <<>> => REq(cache[p], FromMatrix(p, M))
\* a cached value never changes
Stable == [][\A p \in Props : cache[p] # <<>> => cache'[p] = cache[p]]_vars
=============================================================================
