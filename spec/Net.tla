-------------------------------- MODULE Net --------------------------------
(* Semantics of small neural networks on flat, row-major tensors of jets.     *)
(* A network is a sequence of layers, a datum is a flat input; parameters are *)
(* flat tensors.  A seed names one scalar variable:                           *)
(*    <<"p", k, e>>  entry e of parameter k                                   *)
(*    <<"o", l, e>>  entry e of the output of layer l (l = 0: network input)  *)
(*    <<"n", 0, 0>>  none                                                     *)
(* "o" seeds perturb the layer's output additively, which differentiates the  *)
(* rest of the network with respect to that feature.                          *)
EXTENDS Jet, TLC

NoSeed == <<"n", 0, 0>>

\* lift a flat tensor of integers to jets
LiftParam(vals, k, sa, sb) ==
    TLCEval([e \in 1..Len(vals) |-> JVar(RInt(vals[e]), sa = <<"p", k, e>>, sb = <<"p", k, e>>)])

\* source index of padded coordinate i of a dimension of size n; 0: zero padding
PadIndex(i, n, mode) ==
    IF i >= 1 /\ i <= n THEN i
    ELSE CASE mode = "zeros" -> 0
           [] mode = "replicate" -> IF i < 1 THEN 1 ELSE n
           [] mode = "reflect" -> IF i < 1 THEN 2 - i ELSE 2 * n - i
           [] mode = "circular" -> IF i < 1 THEN i + n ELSE i - n

ConvOut(ly) == <<((ly.h + 2 * ly.ph - ly.dh * (ly.kh - 1) - 1) \div ly.sh) + 1,
                 ((ly.w + 2 * ly.pw - ly.dw * (ly.kw - 1) - 1) \div ly.sw) + 1>>

\* flat input index read by a convolution at output (u, v), kernel offset (p, q)
\* and input channel c; 0 if it lies in the zero padding (all 1-based)
ConvSrc(ly, u, v, p, q, c) ==
    LET i == PadIndex((u - 1) * ly.sh - ly.ph + (p - 1) * ly.dh + 1, ly.h, ly.mode)
        j == PadIndex((v - 1) * ly.sw - ly.pw + (q - 1) * ly.dw + 1, ly.w, ly.mode)
    IN  IF i = 0 \/ j = 0 THEN 0 ELSE (c - 1) * ly.h * ly.w + (i - 1) * ly.w + j

\* the patch (input entries, channel-major) that group g sees at output (u, v)
ConvPatch(ly, x, u, v, g, zero) ==
    LET cg == ly.ci \div ly.g
        src(e) == LET c == (e - 1) \div (ly.kh * ly.kw)
                      p == ((e - 1) % (ly.kh * ly.kw)) \div ly.kw
                      q == (e - 1) % ly.kw
                  IN  ConvSrc(ly, u, v, p + 1, q + 1, (g - 1) * cg + c + 1)
    IN  TLCEval([e \in 1..(cg * ly.kh * ly.kw) |-> LET s == src(e) IN IF s = 0 THEN zero ELSE x[s]])

ApplyLayer(ly, x, P, prev) ==
    CASE ly.k = "lin" ->
           LET T == Len(x) \div ly.i
               row(c) == SubSeq(P[ly.w], (c - 1) * ly.i + 1, c * ly.i)
               out(q) == LET t == (q - 1) \div ly.o
                             c == ((q - 1) % ly.o) + 1
                             y == JDot(row(c), SubSeq(x, t * ly.i + 1, (t + 1) * ly.i))
                         IN  IF ly.b = 0 THEN y ELSE JAdd(y, P[ly.b][c])
           IN  [q \in 1..(T * ly.o) |-> out(q)]
      [] ly.k = "conv" ->
           LET O == ConvOut(ly)
               n == (ly.ci \div ly.g) * ly.kh * ly.kw
               out(e) == LET c == (e - 1) \div (O[1] * O[2]) + 1
                             u == (((e - 1) % (O[1] * O[2])) \div O[2]) + 1
                             v == ((e - 1) % O[2]) + 1
                             grp == (c - 1) \div (ly.co \div ly.g) + 1
                             y == JDot(SubSeq(P[ly.wt], (c - 1) * n + 1, c * n),
                                       ConvPatch(ly, x, u, v, grp, JConst(RZero)))
                         IN  IF ly.b = 0 THEN y ELSE JAdd(y, P[ly.b][c])
           IN  [e \in 1..(ly.co * O[1] * O[2]) |-> out(e)]
      [] ly.k = "sq" -> [e \in 1..Len(x) |-> JMul(x[e], x[e])]
      [] ly.k = "cube" -> [e \in 1..Len(x) |-> JMul(x[e], JMul(x[e], x[e]))]
      [] ly.k = "relu" -> [e \in 1..Len(x) |-> JRelu(x[e])]
      [] ly.k = "gain" -> [e \in 1..Len(x) |-> JMul(P[ly.w][1], x[e])]      \* scalar parameter
      [] ly.k = "shift" -> [e \in 1..Len(x) |-> JAdd(P[ly.w][e], x[e])]     \* tensor parameter
      [] ly.k = "cum" ->                                                    \* running sums over positions
           [e \in 1..Len(x) |-> JSum([t \in 1..((e - 1) \div ly.c + 1) |-> x[(t - 1) * ly.c + ((e - 1) % ly.c) + 1]])]
      [] ly.k = "sumT" ->                                                   \* sum over positions
           [c \in 1..ly.c |-> JSum([t \in 1..(Len(x) \div ly.c) |-> x[(t - 1) * ly.c + c]])]
      [] ly.k = "tr" ->                                                     \* (T, C) -> (C, T)
           LET T == Len(x) \div ly.c IN [e \in 1..Len(x) |-> x[((e - 1) % T) * ly.c + (e - 1) \div T + 1]]
      [] ly.k = "gate" ->                                                   \* (T, 2C) -> (T, C)
           [e \in 1..(Len(x) \div 2) |-> LET t == (e - 1) \div ly.c
                                             c == ((e - 1) % ly.c) + 1
                                         IN  JMul(x[t * 2 * ly.c + c], x[t * 2 * ly.c + ly.c + c])]
      [] ly.k = "res" -> [e \in 1..Len(x) |-> JAdd(x[e], prev[ly.from + 1][e])]
      [] ly.k = "flat" -> x

Perturb(x, l, sa, sb) ==
    IF ~ ((sa[1] = "o" /\ sa[2] = l) \/ (sb[1] = "o" /\ sb[2] = l)) THEN x
    ELSE [e \in 1..Len(x) |-> JAdd(x[e], JVar(RZero, sa = <<"o", l, e>>, sb = <<"o", l, e>>))]

RECURSIVE RunLayers(_, _, _, _, _)
RunLayers(layers, P, acts, sa, sb) ==
    LET l == Len(acts)                      \* index of the next layer
    IN  IF l > Len(layers) THEN acts
        ELSE LET y == TLCEval(Perturb(TLCEval(ApplyLayer(layers[l], acts[l], P, acts)), l, sa, sb))
             IN  RunLayers(layers, P, Append(acts, y), sa, sb)

\* sequence of all activations: entry l + 1 is the output of layer l
Activations(layers, params, x, sa, sb) ==
    LET P == TLCEval([k \in 1..Len(params) |-> LiftParam(params[k], k, sa, sb)])
        x0 == TLCEval(Perturb(TLCEval([e \in 1..Len(x) |-> JConst(RInt(x[e]))]), 0, sa, sb))
    IN  RunLayers(layers, P, <<x0>>, sa, sb)

NetOut(layers, params, x, sa, sb) ==
    LET a == Activations(layers, params, x, sa, sb) IN a[Len(a)]
=============================================================================
