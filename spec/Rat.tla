------------------------------- MODULE Rat -------------------------------
(* Exact rational numbers of arbitrary size, needed because the values a spin
   Hamiltonian stores are real numbers and TLC only has 32 bit integers.

   A number is a string in canonical form: "n" or "n/d" (d > 1, lowest terms),
   so equality of TLA+ strings is equality of numbers.  Every operator also
   takes decimal strings such as "-1.25e-3" (that is how observations of the
   real code enter the specification).

   The bodies below are placeholders; TLC evaluates the operators with the
   Java class of the same name (Rat.java).  RSqrt, RCos, RSin, RPi are rounded
   to 50 digits; everything else is exact.                                   *)

RAdd(a, b) == CHOOSE x \in STRING : TRUE
RSub(a, b) == CHOOSE x \in STRING : TRUE
RMul(a, b) == CHOOSE x \in STRING : TRUE
RDiv(a, b) == CHOOSE x \in STRING : TRUE
RNeg(a)    == CHOOSE x \in STRING : TRUE
RAbs(a)    == CHOOSE x \in STRING : TRUE
RLt(a, b)  == CHOOSE x \in BOOLEAN : TRUE
RLe(a, b)  == CHOOSE x \in BOOLEAN : TRUE
RNum(a)    == CHOOSE x \in STRING : TRUE     \* canonical form of a decimal
RIsNum(a)  == CHOOSE x \in BOOLEAN : TRUE    \* FALSE for "nan", "inf", ...
RIsInt(a)  == CHOOSE x \in BOOLEAN : TRUE
RFloor(a)  == CHOOSE x \in STRING : TRUE
RToInt(a)  == CHOOSE x \in STRING : TRUE     \* TLA+ integer
RSqrt(a)   == CHOOSE x \in STRING : TRUE
RCos(a)    == CHOOSE x \in STRING : TRUE
RSin(a)    == CHOOSE x \in STRING : TRUE
RPi        == CHOOSE x \in STRING : TRUE
\* |obs - exp| <= tol * (1 + |exp|) and obs is a finite number
RClose(obs, exp, tol) == CHOOSE x \in BOOLEAN : TRUE
=============================================================================
