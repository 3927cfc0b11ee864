----------------------------- MODULE KronBlocks -----------------------------
(* The matrix represented by per-layer Kronecker factors.  A layer block is a *)
(* record [w, b, joint, A, B] with w, b the positions of the layer's weight   *)
(* and bias in the parameter list (0: not listed), joint whether weight and   *)
(* bias are treated together (only meaningful if both are listed), A the      *)
(* input covariance (extended by one row and column if joint; <<>> without a  *)
(* weight), B the gradient covariance.  sizes[k] is the number of entries of  *)
(* the k-th listed parameter.                                                 *)
EXTENDS Mat

\* first entry (minus one) of every listed parameter in the flat vector
RECURSIVE Offset(_, _)
Offset(sizes, k) == IF k = 1 THEN 0 ELSE Offset(sizes, k - 1) + sizes[k - 1]
TotalSize(sizes) == IF Len(sizes) = 0 THEN 0 ELSE Offset(sizes, Len(sizes)) + sizes[Len(sizes)]

IsJoint(L) == L.joint /\ L.w # 0 /\ L.b # 0

\* diagonal blocks of a layer: sequence of [idx, M], idx the flat positions
LayerBlocks(L, sizes) ==
    IF IsJoint(L)
    THEN LET o == Len(L.B)
             i1 == Len(L.A)
             ow == Offset(sizes, L.w)
             ob == Offset(sizes, L.b)
             pos(e) == LET r == (e - 1) \div i1
                           k == ((e - 1) % i1) + 1
                       IN  IF k = i1 THEN ob + r + 1 ELSE ow + r * (i1 - 1) + k
         IN  << [idx |-> TLCEval([e \in 1..(o * i1) |-> pos(e)]), M |-> MKron(L.B, L.A)] >>
    ELSE (IF L.w # 0
          THEN << [idx |-> TLCEval([e \in 1..sizes[L.w] |-> Offset(sizes, L.w) + e]), M |-> MKron(L.B, L.A)] >>
          ELSE <<>>)
         \o
         (IF L.b # 0
          THEN << [idx |-> TLCEval([e \in 1..sizes[L.b] |-> Offset(sizes, L.b) + e]), M |-> L.B] >>
          ELSE <<>>)

RECURSIVE AllBlocks(_, _)
AllBlocks(Ls, sizes) == IF Ls = <<>> THEN <<>>
                        ELSE LayerBlocks(Head(Ls), sizes) \o AllBlocks(Tail(Ls), sizes)

\* the dense matrix with the given diagonal blocks (every position in one block)
Assemble(blocks, D) ==
    LET where == TLCEval([p \in 1..D |->
                    CHOOSE q \in UNION {{<<b, e>> : e \in 1..Len(blocks[b].idx)} : b \in 1..Len(blocks)} :
                        blocks[q[1]].idx[q[2]] = p])
    IN  TLCEval([i \in 1..D |-> TLCEval([j \in 1..D |->
            IF where[i][1] = where[j][1] THEN blocks[where[i][1]].M[where[i][2]][where[j][2]] ELSE RZero])])

Dense(Ls, sizes) == Assemble(AllBlocks(Ls, sizes), TotalSize(sizes))

RECURSIVE RPowN(_, _)
RPowN(r, n) == IF n = 0 THEN ROne ELSE RMul(r, RPowN(r, n - 1))
RECURSIVE RProd(_)
RProd(s) == IF s = <<>> THEN ROne ELSE RMul(Head(s), RProd(Tail(s)))

\* matrix properties from the factors (C13)
FacTrace(Ls) == RSum([l \in 1..Len(Ls) |->
    LET L == Ls[l] t == MTrace(L.B)
    IN  IF IsJoint(L) THEN RMul(t, MTrace(L.A))
        ELSE RAdd(IF L.w # 0 THEN RMul(t, MTrace(L.A)) ELSE RZero, IF L.b # 0 THEN t ELSE RZero)])
FacFrob2(Ls) == RSum([l \in 1..Len(Ls) |->
    LET L == Ls[l] t == MFrob2(L.B)
    IN  IF IsJoint(L) THEN RMul(t, MFrob2(L.A))
        ELSE RAdd(IF L.w # 0 THEN RMul(t, MFrob2(L.A)) ELSE RZero, IF L.b # 0 THEN t ELSE RZero)])
FacDet(Ls) == RProd([l \in 1..Len(Ls) |->
    LET L == Ls[l] d == MDet(L.B) m == Len(L.B)
        kron == RMul(RPowN(d, Len(L.A)), RPowN(MDet(L.A), m))
    IN  IF IsJoint(L) THEN kron
        ELSE RMul(IF L.w # 0 THEN kron ELSE ROne, IF L.b # 0 THEN d ELSE ROne)])
=============================================================================
