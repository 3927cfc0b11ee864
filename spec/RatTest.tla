------------------------------ MODULE RatTest ------------------------------
(* Prints a table of results; run with and without the Java overrides, the    *)
(* outputs must be identical (harness/selfcheck.py).                          *)
EXTENDS Rat, TLC, FiniteSets
VARIABLE x
V == {RMake(n, d) : n \in -4..4, d \in {1, 2, 3, -6}}
T == [add |-> [p \in V \X V |-> RAdd(p[1], p[2])], sub |-> [p \in V \X V |-> RSub(p[1], p[2])],
      mul |-> [p \in V \X V |-> RMul(p[1], p[2])], div |-> [p \in V \X (V \ {RZero}) |-> RDiv(p[1], p[2])],
      le |-> [p \in V \X V |-> RLe(p[1], p[2])], lt |-> [p \in V \X V |-> RLt(p[1], p[2])],
      eq |-> [p \in V \X V |-> REq(p[1], p[2])], neg |-> [a \in V |-> RNeg(a)], sgn |-> [a \in V |-> RSign(a)],
      pow |-> [n \in -5..5 |-> RPow2(n)], int |-> [n \in -3..3 |-> RInt(n)],
      sum |-> RSum(<<RMake(1, 2), RMake(-1, 3), RInt(4)>>), dot |-> RDot(<<RInt(3), RMake(1, 2)>>, <<RMake(2, 3), RInt(-5)>>),
      sq |-> [a \in V |-> RIsSquare(a)], rt |-> [a \in {b \in V : RIsSquare(b)} |-> RSqrt(a)], mk |-> [p \in (-6..6) \X {1,-2,4,5} |-> RMake(p[1], p[2])]]
Init == x = 0 /\ PrintT(T)
Next == FALSE /\ x' = x
=============================================================================
