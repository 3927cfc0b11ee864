------------------------------- MODULE Loader -------------------------------
(* The determinism check of curvature operators (C11).                        *)
(*                                                                            *)
(* A data source presents, in every pass, a sequence of mini-batches; a batch *)
(* is [pts |-> <<<<x, y>>, ...>>, mode |-> m, aux |-> a] where m says how the *)
(* model behaves on it:                                                       *)
(*    plain   f(x) = w x + b                                                  *)
(*    shift   f(x) = w x + b + 1                                              *)
(*    gw, gb  the value of plain, but twice the derivative by w (by b)        *)
(*    neg     f(x) = - w x - b                                                *)
(* and a are further entries <<key, value, shape>> of dictionary-like inputs   *)
(* (in any order).                                                            *)
(* The loss is the sum (or mean) of squares.  Passes 1 and 2 are traversed    *)
(* concurrently for losses and gradients, 3 and 4 for two products.           *)
(* The environment (data source) chooses every pass freely from a pool.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Emit(x) == PrintT("@@" \o ToJson(x))

VARIABLES ci, pick, pos, acc, mism, prod, verdict, phase
vars == <<ci, pick, pos, acc, mism, prod, verdict, phase>>
K == Cases[ci]
Pool == K.pool
Pass(n) == Pool[pick[n]]

\* ---------------------------------------------------- one mini-batch's values
Fix == K.op \in {"mc", "jac", "jact"}
HasLoss == K.op \notin {"jac", "jact"}
Gw(m) == IF m = "gw" THEN 2 ELSE IF m = "neg" THEN -1 ELSE 1
Gb(m) == IF m = "gb" THEN 2 ELSE IF m = "neg" THEN -1 ELSE 1
F(p, m) == (IF m = "neg" THEN -1 ELSE 1) * (K.w * p[1] + K.b) + (IF m = "shift" THEN 1 ELSE 0)
Res(p, m) == F(p, m) - p[2]
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Map(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]
Loss(b) == SumSeq(Map(b.pts, LAMBDA p : Res(p, b.mode) * Res(p, b.mode)))
GradW(b) == SumSeq(Map(b.pts, LAMBDA p : 2 * Res(p, b.mode) * p[1] * Gw(b.mode)))
GradB(b) == SumSeq(Map(b.pts, LAMBDA p : 2 * Res(p, b.mode) * Gb(b.mode)))
Quantities(b) ==
    [x |-> Map(b.pts, LAMBDA p : p[1]), y |-> Map(b.pts, LAMBDA p : p[2]), aux |-> {b.aux[i] : i \in 1..Len(b.aux)},
     f |-> Map(b.pts, LAMBDA p : F(p, b.mode))]
    @@ (IF HasLoss THEN [loss |-> Loss(b), gw |-> GradW(b), gb |-> GradB(b)] ELSE [loss |-> 0, gw |-> 0, gb |-> 0])

\* ------------------------------------------------------------------ products
\* what a product with a generic vector reveals about the pass
Row(p, m) == <<Gw(m) * p[1], Gb(m)>>
Outer(p, m, c) == <<c * Row(p, m)[1] * Row(p, m)[1], c * Row(p, m)[1] * Row(p, m)[2], c * Row(p, m)[2] * Row(p, m)[2]>>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Items(ps, Op(_, _)) == Flat([i \in 1..Len(ps) |-> [j \in 1..Len(ps[i].pts) |-> Op(ps[i].pts[j], ps[i].mode)]])
Plus3(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
RECURSIVE Sum3(_)
Sum3(s) == IF s = <<>> THEN <<0, 0, 0>> ELSE Plus3(Head(s), Sum3(Tail(s)))
RECURSIVE DropZeros(_)
DropZeros(s) == IF s # <<>> /\ \A i \in 1..Len(s[Len(s)]) : s[Len(s)][i] = 0
                THEN DropZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
Points(ps) == SumSeq(Map(ps, LAMBDA b : Len(b.pts)))
Product(ps) ==
    CASE K.op \in {"hess", "ggn"} -> Sum3(Items(ps, LAMBDA p, m : Outer(p, m, 2)))
      [] K.op = "ef"              -> Sum3(Items(ps, LAMBDA p, m : Outer(p, m, 4 * Res(p, m) * Res(p, m))))
      [] K.op = "kfac"            -> <<>>      \* Kronecker factors are computed once
      [] K.op = "mc"              -> DropZeros(Items(ps, LAMBDA p, m : Outer(p, m, 1)))
      [] K.op = "jac"             -> Items(ps, Row)
      [] K.op = "jact"            -> DropZeros(Items(ps, Row))
Sizes(ps) == Map(ps, LAMBDA b : Len(b.pts))
\* a product is impossible if the pass does not have the announced number of points
Impossible(ps) == \/ K.op = "jac" /\ Points(ps) # K.n
                  \/ K.op = "jact" /\ Points(ps) > K.n
\* sampled labels are not comparable across different splits
Open(p, q) == K.op = "mc" /\ Sizes(p) # Sizes(q)

\* ------------------------------------------------------------------ machine
Zero == [loss |-> 0, gw |-> 0, gb |-> 0]
Add(t, q) == [loss |-> t.loss + q.loss, gw |-> t.gw + q.gw, gb |-> t.gb + q.gb]
Init == /\ ci \in 1..Len(Cases)
        /\ pick \in [1..4 -> 1..Len(Cases[ci].pool)]
        /\ (Cases[ci].op = "kfac" => pick[3] = pick[4])
        /\ pos = 1 /\ acc = <<Zero, Zero>> /\ mism = {} /\ prod = <<>> /\ verdict = "none" /\ phase = "losses"
PairStep ==
    /\ phase = "losses" /\ (pos <= Len(Pass(1)) \/ pos <= Len(Pass(2)))
    /\ LET q(n) == IF pos <= Len(Pass(n)) THEN Quantities(Pass(n)[pos]) ELSE <<>>
       IN  /\ acc' = <<IF q(1) = <<>> THEN acc[1] ELSE Add(acc[1], q(1)), IF q(2) = <<>> THEN acc[2] ELSE Add(acc[2], q(2))>>
           /\ mism' = mism \cup (IF q(1) = <<>> \/ q(2) = <<>>
                                THEN IF q(1) = q(2) THEN {} ELSE {"missing"}
                                ELSE {k \in DOMAIN q(1) : q(1)[k] # q(2)[k]})
    /\ pos' = pos + 1
    /\ UNCHANGED <<ci, pick, prod, verdict, phase>>
PairEnd == /\ phase = "losses" /\ pos > Len(Pass(1)) /\ pos > Len(Pass(2))
           /\ phase' = "products" /\ UNCHANGED <<ci, pick, pos, acc, mism, prod, verdict>>
Products == /\ phase = "products"
            /\ prod' = <<Product(Pass(3)), Product(Pass(4))>>
            /\ phase' = "judge" /\ UNCHANGED <<ci, pick, pos, acc, mism, verdict>>
Judge ==
    /\ phase = "judge"
    /\ verdict' = IF (Fix /\ mism # {}) \/ acc[1] # acc[2] THEN "reject"
                  ELSE IF Impossible(Pass(3)) \/ Impossible(Pass(4)) THEN "error"
                  ELSE IF Open(Pass(3), Pass(4)) THEN "open"
                  ELSE IF prod[1] # prod[2] THEN "reject" ELSE "accept"
    /\ phase' = "done"
    /\ Emit([case |-> K.id, pick |-> pick, verdict |-> verdict',
             why |-> [batch |-> IF Fix THEN mism ELSE {}, loss |-> acc[1].loss # acc[2].loss,
                      grad |-> acc[1].gw # acc[2].gw \/ acc[1].gb # acc[2].gb, prod |-> prod[1] # prod[2]]])
    /\ UNCHANGED <<ci, pick, pos, acc, mism, prod>>
Spec == Init /\ [][PairStep \/ PairEnd \/ Products \/ Judge]_vars

\* --------------------------------------------------------------- invariants
Bag(ps) == LET its == Items(ps, LAMBDA p, m : <<p, m>>)
           IN  [v \in {its[i] : i \in 1..Len(its)} |-> Cardinality({i \in 1..Len(its) : its[i] = v})]
Constant == \A n \in 2..4 : pick[n] = pick[1]
\* a deterministic set-up is never rejected
AcceptsDeterministic == (phase = "done" /\ Constant /\ ~ Impossible(Pass(1))) => verdict = "accept"
\* re-ordering and re-splitting never leads to rejection without a fixed order
AcceptsReordering ==
    (phase = "done" /\ ~ Fix /\ Bag(Pass(1)) = Bag(Pass(2)) /\ Bag(Pass(3)) = Bag(Pass(4))) => verdict = "accept"
\* concurrent traversal accumulates the totals of the two data sets
Totals ==
    (phase # "losses" /\ HasLoss) =>
        \A n \in 1..2 : acc[n] = [loss |-> SumSeq(Map(Pass(n), Loss)), gw |-> SumSeq(Map(Pass(n), GradW)),
                                   gb |-> SumSeq(Map(Pass(n), GradB))]
=============================================================================
