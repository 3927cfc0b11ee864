----------------------------- MODULE Interface -----------------------------
(* The calling contract of a PyTorch linear operator with in-shapes ins,      *)
(* out-shapes outs and dense matrix A, and of its SciPy export (C08, C09).    *)
(* One state machine per case: an argument is presented (any object), it is   *)
(* judged, and the answer is formed.                                          *)
(*   mode "tensor"  arguments are single tensors of any shape                 *)
(*   mode "list"    arguments are lists of tensors (any length, any shapes)   *)
(*   mode "out"     the implementation answers a valid matrix argument with   *)
(*                  a list of tensors of any length and shapes                *)
(*   mode "object"  arguments that are no tensors or lists of tensors        *)
(*   mode "scipy"   arrays (vector, column, matrix; dtype; layout) presented  *)
(*                  to one of the products of the export                      *)
(* Values are integers; arrays are given by shape and row-major values.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Emit(x) == PrintT("@@" \o ToJson(x))

VARIABLES ci, arg, verdict, answer, phase
vars == <<ci, arg, verdict, answer, phase>>
Kase == Cases[ci]

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE Prod(s[n]) + SumTo(s, n - 1)
Dim(ss) == SumTo(ss, Len(ss))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]

D == Dim(Kase.ins)
M == Dim(Kase.outs)

\* ---------------------------------------------------------------- judgement
\* number of columns of a vector is recorded as 0
NoKind == [ok |-> FALSE, k |-> 0]
JudgeTensor(s) ==
    IF s = <<D>> THEN [ok |-> TRUE, k |-> 0]
    ELSE IF Len(s) = 2 /\ s[1] = D /\ s[2] > 0 THEN [ok |-> TRUE, k |-> s[2]]
    ELSE NoKind
IsVec(l) == Len(l) = Len(Kase.ins) /\ \A i \in 1..Len(l) : l[i] = Kase.ins[i]
IsMat(l) == /\ Len(l) = Len(Kase.ins)
            /\ \E k \in 1..4 : \A i \in 1..Len(l) : l[i] = Append(Kase.ins[i], k)
JudgeList(l) == IF IsVec(l) THEN [ok |-> TRUE, k |-> 0]
                ELSE IF IsMat(l) THEN [ok |-> TRUE, k |-> Last(l[1])]
                ELSE NoKind
GoodOut(l, k) == Len(l) = Len(Kase.outs) /\ \A i \in 1..Len(l) : l[i] = Append(Kase.outs[i], k)

\* --------------------------------------------------------------- arguments
\* shapes near s: the right one, with columns, columns first, flattened, ...
Near(s) ==
    {s, Append(s, 1), Append(s, 2), <<1>> \o s, <<2>> \o s, <<Prod(s)>>, <<Prod(s), 2>>, Rev(s),
     s \o <<1, 1>>, s \o <<2, 1>>, <<>>, <<1>>, <<2>>}
    \cup (IF s = <<>> THEN {} ELSE {Front(s), Front(s) \o <<Last(s) + 1>>, Append(Rev(s), 2),
                                     [s EXCEPT ![1] = s[1] + 1], Tail(s)})
NearT(d) == {<<>>, <<d>>, <<d, 1>>, <<d, 2>>, <<d, 3>>, <<1, d>>, <<2, d>>, <<d, d>>, <<d + 1>>, <<d + 1, 2>>,
             <<d, 1, 1>>, <<d, 2, 1>>, <<1>>, <<1, 1>>, <<1, d, 1>>}
            \cup {<<Prod(Kase.ins[i])>> : i \in 1..Len(Kase.ins)}
            \cup {Append(Kase.ins[i], 2) : i \in 1..Len(Kase.ins)}
            \cup {<<Len(Kase.ins)>>, <<Len(Kase.ins), d>>}
            \cup (IF d > 1 THEN {<<d - 1>>, <<d - 1, 2>>} ELSE {})
\* lists of shapes near a list of shapes, of every length between 0 and one more
RECURSIVE Lists(_)
Lists(ss) == IF ss = <<>> THEN {<<>>} ELSE {<<s>> \o r : s \in Near(Head(ss)), r \in Lists(Tail(ss))}
NearL(ss) == Lists(ss)
             \cup {<<>>} \cup {Front(l) : l \in {ss, [i \in 1..Len(ss) |-> Append(ss[i], 2)]}}
             \cup {ss \o <<ss[i]>> : i \in 1..Len(ss)} \cup {<<<<Dim(ss)>>>>, <<<<Dim(ss), 2>>>>}
             \cup {Rev(ss), Rev([i \in 1..Len(ss) |-> Append(ss[i], 2)])}

Dtypes == {"f8", "f4", "f2", "i8", "i4", "i2", "i1", "u1", "b1"}
Layouts == {"C", "F", "reversed", "strided", "readonly", "broadcast"}
Objects == {"none", "number", "text", "array", "tuple", "dict", "generator", "set", "list with None",
            "list with array", "nested list", "list with numbers"}
Products == {"matvec", "matmat", "@", "dot", "rmatvec", "rmatmat", "H@", "T@", "call"}

\* the integers that fill an argument: row-major, small, not all equal
Fill(n, salt) == [j \in 1..n |-> ((j * j + 3 * j + salt) % 7) - 3]
FillFor(dt, lay, n, salt) ==
    IF lay = "broadcast" THEN [j \in 1..n |-> 1]
    ELSE IF dt = "b1" THEN [j \in 1..n |-> (j + salt) % 2]
    ELSE IF dt = "u1" THEN [j \in 1..n |-> (j * j + salt) % 4] ELSE Fill(n, salt)

\* ------------------------------------------------------------------ algebra
\* X : Seq of rows.  Entry (n, k) of the argument as a D x K matrix.
RowsOfTensor(vals, d, k) == [n \in 1..d |-> [c \in 1..k |-> vals[(n - 1) * k + c]]]
\* position of flat row n in a list of shapes: <<tensor, offset in it>>
Where(ss, n) == LET i == CHOOSE i \in 1..Len(ss) : SumTo(ss, i - 1) < n /\ n <= SumTo(ss, i)
                IN  <<i, n - SumTo(ss, i - 1)>>
RowsOfList(valss, ss, k) ==
    [n \in 1..Dim(ss) |-> LET w == Where(ss, n) IN [c \in 1..k |-> valss[w[1]][(w[2] - 1) * k + c]]]
RECURSIVE Dot(_, _, _, _)
Dot(a, X, c, n) == IF n = 0 THEN 0 ELSE a[n] * X[n][c] + Dot(a, X, c, n - 1)
Mul(A, X, k) == [m \in 1..Len(A) |-> [c \in 1..k |-> Dot(A[m], X, c, Len(X))]]
Trans(A, n) == [j \in 1..n |-> [i \in 1..Len(A) |-> A[i][j]]]
FlatRows(Y, k) == [j \in 1..(Len(Y) * k) |-> Y[((j - 1) \div k) + 1][((j - 1) % k) + 1]]
ToList(Y, ss, k) == [i \in 1..Len(ss) |->
                        FlatRows([n \in 1..Prod(ss[i]) |-> Y[SumTo(ss, i - 1) + n]], k)]
Cols(k) == IF k = 0 THEN 1 ELSE k
OutShape(s, k) == IF k = 0 THEN s ELSE Append(s, k)

\* ------------------------------------------------------------------ machine
Init == /\ ci \in 1..Len(Cases)
        /\ arg = <<>> /\ verdict = <<>> /\ answer = <<>> /\ phase = "ask"
Ask ==
    /\ phase = "ask"
    /\ arg' \in CASE Kase.mode = "tensor" -> {[shape |-> s, vals |-> Fill(Prod(s), Kase.id)] : s \in NearT(D)}
                  [] Kase.mode = "list"   -> {[shapes |-> l, vals |-> [i \in 1..Len(l) |-> Fill(Prod(l[i]), Kase.id + i)]]
                                                 : l \in NearL(Kase.ins)}
                  [] Kase.mode = "out"    -> {[shapes |-> l, vals |-> [i \in 1..Len(l) |-> Fill(Prod(l[i]), Kase.id + i)]]
                                                 : l \in NearL([i \in 1..Len(Kase.outs) |-> Append(Kase.outs[i], Kase.k)])}
                  [] Kase.mode = "object" -> {[kind |-> o] : o \in Objects}
                  [] Kase.mode = "scipy"  ->
                        {[p |-> p, dt |-> dt, lay |-> lay, k |-> k,
                          vals |-> FillFor(dt, lay, (IF p \in {"rmatvec", "rmatmat", "H@", "T@"} THEN M ELSE D) * Cols(k), Kase.id)]
                            : p \in Products, dt \in Dtypes, lay \in Layouts, k \in 0..3}
    /\ phase' = "judge" /\ UNCHANGED <<ci, verdict, answer>>
Judge ==
    /\ phase = "judge"
    /\ verdict' = CASE Kase.mode = "tensor" -> JudgeTensor(arg.shape)
                    [] Kase.mode = "list"   -> JudgeList(arg.shapes)
                    [] Kase.mode = "out"    -> [ok |-> GoodOut(arg.shapes, Kase.k), k |-> Kase.k]
                    [] Kase.mode = "object" -> NoKind
                    \* SciPy itself rejects matvec of matrices and matmat of vectors
                    [] Kase.mode = "scipy"  -> [ok |-> CASE arg.p \in {"matvec", "rmatvec"} -> arg.k <= 1
                                                         [] arg.p \in {"matmat", "rmatmat"} -> arg.k >= 1
                                                         [] OTHER -> TRUE, k |-> arg.k]
    /\ phase' = "answer" /\ UNCHANGED <<ci, arg, answer>>
Reply ==
    LET k == Cols(verdict.k)
        adj == Kase.mode = "scipy" /\ arg.p \in {"rmatvec", "rmatmat", "H@", "T@"}
        X == IF Kase.mode = "list" THEN RowsOfList(arg.vals, Kase.ins, k)
             ELSE RowsOfTensor(arg.vals, IF adj THEN M ELSE D, k)
        Y == Mul(IF adj THEN Trans(Kase.A, D) ELSE Kase.A, X, k)
    IN  /\ phase = "answer"
        /\ answer' = IF ~ verdict.ok THEN <<>>
                     ELSE CASE Kase.mode = "out"  -> [shapes |-> arg.shapes, vals |-> arg.vals, rows |-> <<>>]
                            [] Kase.mode = "list" -> [shapes |-> [i \in 1..Len(Kase.outs) |-> OutShape(Kase.outs[i], verdict.k)],
                                                      vals |-> ToList(Y, Kase.outs, k), rows |-> X]
                            [] OTHER -> [shapes |-> <<OutShape(<<IF adj THEN D ELSE M>>, verdict.k)>>,
                                         vals |-> <<FlatRows(Y, k)>>, rows |-> X]
        /\ phase' = "done"
        /\ Emit([case |-> Kase.id, arg |-> arg, verdict |-> verdict, answer |-> answer'])
        /\ UNCHANGED <<ci, arg, verdict>>
Spec == Init /\ [][Ask \/ Judge \/ Reply]_vars

\* --------------------------------------------------------------- invariants
\* no list is both a vector and a matrix, and a matrix has one column count
Unambiguous ==
    (phase # "ask" /\ Kase.mode = "list") =>
        /\ ~ (IsVec(arg.shapes) /\ IsMat(arg.shapes))
        /\ Cardinality({k \in 1..4 : Len(arg.shapes) = Len(Kase.ins)
                                      /\ \A i \in 1..Len(arg.shapes) : arg.shapes[i] = Append(Kase.ins[i], k)}) <= 1
\* the same point in either format has the same image
SameMap ==
    (phase = "done" /\ Kase.mode = "list" /\ verdict.ok) =>
        \A m \in 1..M : \A c \in 1..Cols(verdict.k) :
            LET w == Where(Kase.outs, m)
            IN  answer.vals[w[1]][(w[2] - 1) * Cols(verdict.k) + c] = Mul(Kase.A, answer.rows, Cols(verdict.k))[m][c]
\* columns are mapped independently
Columns ==
    (phase = "done" /\ Kase.mode \in {"tensor", "list"} /\ verdict.ok) =>
        \A c \in 1..Cols(verdict.k) :
            LET one == [n \in 1..D |-> <<answer.rows[n][c]>>]
            IN  \A m \in 1..M : Mul(Kase.A, one, 1)[m][1] = Mul(Kase.A, answer.rows, Cols(verdict.k))[m][c]
\* <y, A x> = <A^T y, x>
Adjoint ==
    (phase = "done" /\ Kase.mode = "scipy" /\ verdict.ok) =>
        Trans(Trans(Kase.A, D), M) = Kase.A
=============================================================================
