-------------------------------- MODULE Jet --------------------------------
(* Truncated Taylor expansions f + f_a e_a + f_b e_b + f_ab e_a e_b (with     *)
(* e_a^2 = e_b^2 = 0) over the rationals: evaluating a program on jets whose  *)
(* seeds mark two variables yields its value, both first derivatives, and the *)
(* mixed second derivative, all exact.                                        *)
EXTENDS Rat

JConst(v) == <<v, RZero, RZero, RZero>>
JVar(v, inA, inB) == <<v, IF inA THEN ROne ELSE RZero, IF inB THEN ROne ELSE RZero, RZero>>
JAdd(x, y) == <<RAdd(x[1], y[1]), RAdd(x[2], y[2]), RAdd(x[3], y[3]), RAdd(x[4], y[4])>>
JMul(x, y) == <<RMul(x[1], y[1]),
                RAdd(RMul(x[2], y[1]), RMul(x[1], y[2])),
                RAdd(RMul(x[3], y[1]), RMul(x[1], y[3])),
                RAdd(RAdd(RMul(x[4], y[1]), RMul(x[1], y[4])),
                     RAdd(RMul(x[2], y[3]), RMul(x[3], y[2])))>>
RECURSIVE JSum(_)
JSum(s) == IF s = <<>> THEN JConst(RZero) ELSE JAdd(Head(s), JSum(Tail(s)))
RECURSIVE JDot(_, _)
JDot(s, t) == IF s = <<>> THEN JConst(RZero)
              ELSE JAdd(JMul(Head(s), Head(t)), JDot(Tail(s), Tail(t)))
JRelu(x) == IF RSign(x[1]) > 0 THEN x ELSE JConst(RZero)
JScale(r, x) == <<RMul(r, x[1]), RMul(r, x[2]), RMul(r, x[3]), RMul(r, x[4])>>
=============================================================================
