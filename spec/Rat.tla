-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic.  A rational is a pair <<n, d>> of integers with *)
(* d > 0 and gcd(n, d) = 1.  The definitions below are the meaning.  TLC's    *)
(* integers have 32 bits, so java/Rat.java overrides the operators with       *)
(* big-integer arithmetic when TLC runs (components outside the 32-bit range  *)
(* are kept as decimal strings, hence REq instead of =).  RatTest.tla checks  *)
(* that the overrides agree with the definitions.                             *)
EXTENDS Integers, Sequences

RECURSIVE RGcd(_, _)
RGcd(a, b) == IF b = 0 THEN a ELSE RGcd(b, a % b)

RIAbs(n) == IF n < 0 THEN -n ELSE n

RMake(n, d) ==   \* d # 0
    LET s == IF d < 0 THEN -1 ELSE 1
        g == RGcd(RIAbs(n), RIAbs(d))
    IN  <<(s * n) \div g, (s * d) \div g>>

RInt(n) == <<n, 1>>
RNeg(a) == <<-a[1], a[2]>>
RAdd(a, b) == RMake(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RSub(a, b) == RMake(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
RMul(a, b) == RMake(a[1] * b[1], a[2] * b[2])
RDiv(a, b) == RMake(a[1] * b[2], a[2] * b[1])        \* b # 0
RLe(a, b) == a[1] * b[2] <= b[1] * a[2]
RLt(a, b) == a[1] * b[2] < b[1] * a[2]
REq(a, b) == a[1] * b[2] = b[1] * a[2]
RSign(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0

RECURSIVE RPow2(_)                                   \* 2^n for any integer n
RPow2(n) == IF n = 0 THEN <<1, 1>>
            ELSE IF n > 0 THEN RMul(<<2, 1>>, RPow2(n - 1))
            ELSE RMul(<<1, 2>>, RPow2(n + 1))

RECURSIVE RSum(_)                                    \* sum of a sequence
RSum(s) == IF s = <<>> THEN <<0, 1>> ELSE RAdd(Head(s), RSum(Tail(s)))

RECURSIVE RDot(_, _)                                 \* inner product
RDot(s, t) == IF s = <<>> THEN <<0, 1>>
              ELSE RAdd(RMul(Head(s), Head(t)), RDot(Tail(s), Tail(t)))

(* exact square root of the square of a rational *)
RSqrt(a) == <<CHOOSE n \in 0..a[1] : n * n = a[1], CHOOSE d \in 1..a[2] : d * d = a[2]>>
RIsSquare(a) == a[1] >= 0 /\ (\E n \in 0..a[1] : n * n = a[1]) /\ (\E d \in 1..a[2] : d * d = a[2])

RZero == <<0, 1>>
ROne == <<1, 1>>
RAbs(a) == IF RSign(a) < 0 THEN RNeg(a) ELSE a
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
=============================================================================
