------------------------------- MODULE MC_Wide -------------------------------
(* Checks the arithmetic of Wide against TLC's integers where both apply and   *)
(* against algebraic laws where only Wide applies.                             *)
EXTENDS Wide, TLC
Small == (0..40) \cup {127, 128, 255, 256, 257, 511, 512, 4095, 65535, 65536, 65537, 1000003}
Bigs == {WPow2(k) : k \in 20..64} \cup {WSub(WPow2(k), WOne) : k \in 20..64}
Div == {1, 2, 3, 7, 255, 256, 257, 65535, 4194303}
VARIABLE a
Init == a \in Small
Next == UNCHANGED a
SmallOK ==
  \A b \in Small :
    /\ WInt(WOf(a)) = a
    /\ WAdd(WOf(a), WOf(b)) = WOf(a + b)
    /\ (a >= b) => WSub(WOf(a), WOf(b)) = WOf(a - b)
    /\ (a < 2000 /\ b < 1000000) => WMul(WOf(a), WOf(b)) = WOf(a * b)
    /\ WCmp(WOf(a), WOf(b)) = (IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1)
    /\ (b # 0) => WDiv(WOf(a), WOf(b)) = <<WOf(a \div b), WOf(a % b)>>
BigOK ==
  a = 0 =>
    /\ \A x \in Bigs : \A d \in Div :
          LET q == WDiv(x, WOf(d)) IN
            /\ WAdd(WMul(q[1], WOf(d)), q[2]) = x
            /\ WLt(q[2], WOf(d))
            /\ WMul(x, WOf(d)) = WMul(WOf(d), x)
    /\ \A x \in Bigs : \A d \in {WPow2(30), WSub(WPow2(32), WOne), WSub(WPow2(40), <<3>>)} :
          LET q == WDiv(x, d) IN
            /\ WAdd(WMul(q[1], d), q[2]) = x
            /\ WLt(q[2], d)
=============================================================================
