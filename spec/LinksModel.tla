------------------------------ MODULE LinksModel ------------------------------
(***************************************************************************)
(* The fixed-point link functions that C33 and C34 judge by: x walks over  *)
(* log odds from -7 to 7, and the functions keep the laws they are used    *)
(* for, up to their resolution.                                            *)
(***************************************************************************)
EXTENDS Links
CONSTANT Pace
VARIABLE x
Init == x = -70000
Next == x < 70000 /\ x' = x + Pace
Spec == Init /\ [][Next]_x

Close(a, b, t) == Absolute(a - b) <= t
Symmetric == Close(Sigmoid(x) + Sigmoid(-x), One, 1)
(* odds: sigmoid(x) = e^x / (1 + e^x) *)
OddsRight == x <= 50000 => Close(Times(Exponential(x), One - Sigmoid(x)), Sigmoid(x), 2 + (Exponential(x) \div One) * 3)
Rises == [][Sigmoid(x') >= Sigmoid(x) - 1 /\ Exponential(x') >= Exponential(x) - 1 - (Exponential(x) \div 3000)]_x
(* e^(a + b) = e^a e^b *)
Adds == \A s \in {-20000, -5000, 500, 1000, 7500, 13333} :
          (x + s <= 40000 /\ x <= 40000) => Close(Exponential(x + s), Times(Exponential(x), Exponential(s)), 4 + (Exponential(x + s) \div 1500))
TwoClasses == Close(Softmax(<< x, 0 >>)[1], Sigmoid(x), 3)
ThreeClasses == LET p == Softmax(<< x, 0, 5000 >>) IN Close(p[1] + p[2] + p[3], One, 3) /\ Close(Times(p[2], 16487), p[3], 4)
OrderedSums == LET p == Ordered(<< 3, 5, 2 >>, x) IN p[1] + p[2] + p[3] = One /\ \A k \in 1..3 : p[k] >= 0
OrderedAtZero == x = 0 => Ordered(<< 3, 5, 2 >>, x) = << 3000, 5000, 2000 >>
(* The log odds of "at most k" are shifted down by x. *)
OrderedShifts == LET p == Ordered(<< 4, 4, 8 >>, x) IN Close(p[1] + p[2], Sigmoid(-x), 2)
=============================================================================
