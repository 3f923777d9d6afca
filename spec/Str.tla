------------------------------- MODULE Str -------------------------------
(* Text of files: lines and words.  TLC evaluates the operators with the Java
   class of the same name (Str.java).  Characters are those of ASCII.        *)
SLower(s)     == CHOOSE x \in STRING : TRUE
SStrip(s)     == CHOOSE x \in STRING : TRUE   \* without leading and trailing white space
SSplit(s)     == CHOOSE x \in STRING : TRUE   \* sequence of words, separated by white space
SSplitOn(s, c) == CHOOSE x \in STRING : TRUE  \* sequence of pieces between characters c
SBefore(s, c) == CHOOSE x \in STRING : TRUE   \* the part before the first c, s if there is none
SStarts(s, t) == CHOOSE x \in BOOLEAN : TRUE
SEnds(s, t)   == CHOOSE x \in BOOLEAN : TRUE
SHas(s, t)    == CHOOSE x \in BOOLEAN : TRUE
SLen(s)       == CHOOSE x \in STRING : TRUE
SChar(s, i)   == CHOOSE x \in STRING : TRUE   \* the i-th character (from 1), "" if there is none
SOnly(s, c)   == CHOOSE x \in BOOLEAN : TRUE  \* not empty and consists of characters c
SAlnum(s)     == CHOOSE x \in BOOLEAN : TRUE  \* one ASCII letter or digit
SIsDec(s)     == CHOOSE x \in BOOLEAN : TRUE  \* a decimal number: sign, digits, point, exponent
SIsInt(s)     == CHOOSE x \in BOOLEAN : TRUE  \* sign and digits
SOdd(s)       == CHOOSE x \in BOOLEAN : TRUE  \* reads as a number only in some languages: inf, nan, 1_000
SInt(s)       == CHOOSE x \in STRING : TRUE   \* TLA+ integer
SCut(s, t)    == CHOOSE x \in STRING : TRUE   \* without the ending t, if there is one
SErase(s, t)  == CHOOSE x \in STRING : TRUE   \* without the characters of t
=============================================================================
