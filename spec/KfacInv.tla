------------------------------ MODULE KfacInv ------------------------------
(* Inverse of the damped KFAC matrix (C16, C17).  A case lists layer blocks   *)
(* with rational factors (see KronBlocks) and damping modes:                  *)
(*   [kind |-> "pair",  dA, dB]   dampings added to the factors               *)
(*   [kind |-> "heur",  sq, min]  sq = square root of the damping; pi-scaled  *)
(*   [kind |-> "exact", d]        d added to the diagonal of the block        *)
(* The machine damps and inverts layer after layer; the invariant says that   *)
(* the assembled inverse times the assembled damped matrix is the identity.   *)
EXTENDS KronBlocks, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Emit(x) == PrintT("@@" \o ToJson(x))

VARIABLES ci, mi, l, damped, inverse, phase
vars == <<ci, mi, l, damped, inverse, phase>>
K == Cases[ci]
Mode == K.modes[mi]
Rt(r) == RMake(r[1], r[2])

Damp(M, d) == MAdd(M, MScale(d, MEye(Len(M))))
MEANTR(M) == RDiv(MTrace(M), RInt(Len(M)))

\* dampings of the input and gradient factor of a layer
Dampings(L) ==
    IF Mode.kind = "pair" THEN <<Rt(Mode.dA), Rt(Mode.dB)>>
    ELSE LET d == RMul(Rt(Mode.sq), Rt(Mode.sq))
         IN  IF L.w = 0 \/ RSign(MTrace(L.B)) <= 0 \/ RSign(MTrace(L.A)) <= 0 THEN <<d, d>>
             ELSE LET pi == RSqrt(RDiv(MEANTR(L.A), MEANTR(L.B)))
                  IN  <<RMax(RMul(Rt(Mode.sq), pi), Rt(Mode.min)), RMax(RDiv(Rt(Mode.sq), pi), Rt(Mode.min))>>

\* a layer's diagonal blocks with damping, and with damped factors inverted
DampedBlocks(L) ==
    IF Mode.kind = "exact"
    THEN LET bs == LayerBlocks(L, K.sizes)
         IN  [i \in 1..Len(bs) |-> [idx |-> bs[i].idx, M |-> Damp(bs[i].M, Rt(Mode.d))]]
    ELSE LET d == Dampings(L)
         IN  LayerBlocks([L EXCEPT !.A = IF L.w = 0 THEN <<>> ELSE Damp(L.A, d[1]), !.B = Damp(L.B, d[2])], K.sizes)
InvertedBlocks(L) ==
    IF Mode.kind = "exact"
    THEN LET bs == DampedBlocks(L) IN [i \in 1..Len(bs) |-> [idx |-> bs[i].idx, M |-> MInv(bs[i].M)]]
    ELSE LET d == Dampings(L)
         IN  LayerBlocks([L EXCEPT !.A = IF L.w = 0 THEN <<>> ELSE MInv(Damp(L.A, d[1])),
                                   !.B = MInv(Damp(L.B, d[2]))], K.sizes)

Init == /\ ci \in 1..Len(Cases)
        /\ mi \in 1..Len(Cases[ci].modes)
        /\ l = 1 /\ damped = <<>> /\ inverse = <<>> /\ phase = "run"
Layer(i) == LET L == K.blocks[i]
                M(A) == [r \in 1..Len(A) |-> [c \in 1..Len(A[r]) |-> Rt(A[r][c])]]
            IN  [L EXCEPT !.A = TLCEval(M(L.A)), !.B = TLCEval(M(L.B))]
Step == /\ phase = "run" /\ l <= Len(K.blocks)
        /\ l' = l + 1
        /\ damped' = damped \o TLCEval(DampedBlocks(Layer(l)))
        /\ inverse' = inverse \o TLCEval(InvertedBlocks(Layer(l)))
        /\ UNCHANGED <<ci, mi, phase>>
Done == /\ phase = "run" /\ l > Len(K.blocks)
        /\ phase' = "done"
        /\ Emit([case |-> K.id, mode |-> mi, damped |-> Assemble(damped, TotalSize(K.sizes)),
                 inverse |-> Assemble(inverse, TotalSize(K.sizes))])
        /\ UNCHANGED <<ci, mi, l, damped, inverse>>
Spec == Init /\ [][Step \/ Done]_vars

Inverts == (phase = "run" /\ l > Len(K.blocks)) =>
    LET D == Assemble(damped, TotalSize(K.sizes)) I == Assemble(inverse, TotalSize(K.sizes))
    IN  /\ MEq(MMul(I, D), MEye(TotalSize(K.sizes)))
        /\ MSym(I) /\ MPsd(I)
=============================================================================
