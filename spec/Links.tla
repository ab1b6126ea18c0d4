-------------------------------- MODULE Links --------------------------------
(***************************************************************************)
(* The link functions of the distribution types, in fixed point: all       *)
(* numbers are integers in units of 1/10000 unless said otherwise.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

One == 10000
Absolute(x) == IF x < 0 THEN -x ELSE x
Half(a, b) == (a + (b \div 2)) \div b                       \* a / b rounded
Times(a, b) == ((a \div One) * b) + Half((a % One) * b, One)  \* product of two numbers, a up to 2^31 / b
Part(a, b) ==                                               \* a / b for 0 <= a <= b < 2^31 / 100
  LET q == (a * 100) \div b
      r == (a * 100) % b
  IN  (q * 100) + Half(r * 100, b)

\* e^-1, e^-2, ... and e^-0.1, e^-0.2, ...
Ones == << 3679, 1353, 498, 183, 67, 25, 9, 3, 1, 0 >>
Tenths == << 9048, 8187, 7408, 6703, 6065, 5488, 4966, 4493, 4066 >>
\* e^-x for x >= 0
Decay(x) ==
  IF x >= 100000 THEN 0
  ELSE LET k == x \div One
           i == (x % One) \div 1000
           g == x % 1000
           fine == One - g + (Half(g * g, 20000)) - ((((g * g) \div One) * g) \div 60000)
           some == IF i = 0 THEN fine ELSE Half(Tenths[i] * fine, One)
       IN  IF k = 0 THEN some ELSE Half(Ones[k] * some, One)
\* e^x for x <= 9
Powers == << 27183, 73891, 200855, 545982, 1484132, 4034288, 10966332, 29809580, 81030839 >>
Exponential(x) ==
  IF x <= 0 THEN Decay(-x) ELSE IF x > 90000 THEN Powers[9]
  ELSE LET k == (x + 9999) \div One       \* x = k - f
           f == (k * One) - x
       IN  Times(Powers[k], Decay(f))

(* The probability of success for log odds x. *)
Sigmoid(x) == IF x >= 0 THEN Part(One, One + Decay(x)) ELSE Part(Decay(-x), One + Decay(-x))
(* Probabilities of classes with scores xs. *)
Softmax(xs) ==
  LET m == Max({ xs[k] : k \in 1..Len(xs) })
      w == TLCEval([k \in 1..Len(xs) |-> Decay(m - xs[k])])
      s == FoldLeft(LAMBDA a, x : a + x, 0, w)
  IN  [k \in 1..Len(xs) |-> Part(w[k], s)]
(* Ordered classes: without a shift the class counts are as given; x shifts  *)
(* the log odds of every "at most k" down.                                  *)
AtMost(counts, x, k) ==
  LET n == FoldLeft(LAMBDA a, y : a + y, 0, counts)
      c == FoldLeft(LAMBDA a, y : a + y, 0, SubSeq(counts, 1, k))
  IN  IF k = 0 THEN 0 ELSE IF k = Len(counts) THEN One
      ELSE IF x >= 0 THEN Part(c * Decay(x), (c * Decay(x)) + ((n - c) * One))
      ELSE Part(c * One, (c * One) + ((n - c) * Decay(-x)))
Ordered(counts, x) ==
  LET f == TLCEval([k \in 1..(Len(counts) + 1) |-> AtMost(counts, x, k - 1)])
  IN  [k \in 1..Len(counts) |-> f[k + 1] - f[k]]
=============================================================================
