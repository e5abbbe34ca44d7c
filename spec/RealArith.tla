----------------------------- MODULE RealArith -----------------------------
(* Real numbers for the specifications.  A real is a decimal string ("1.5e-3"); "nan", "inf" and "-inf" are the
   IEEE values.  The operators are implemented for TLC by RealArith.java (BigDecimal, 40 significant digits; IEEE
   doubles as soon as an operand is not finite or the operation has no finite result).  The definitions below are
   only the declarations TLC's override replaces.                                                               *)
EXTENDS Integers, Sequences
LOCAL Native == CHOOSE x : FALSE
RAdd(a, b) == Native
RSub(a, b) == Native
RMul(a, b) == Native
RDiv(a, b) == Native
RNeg(a) == Native
RAbs(a) == Native
RFin(a) == Native        \* finite?
RIsNaN(a) == Native
RLt(a, b) == Native
RLe(a, b) == Native
REq(a, b) == Native
RClose(a, b, rel, abs) == Native   \* |a-b| <= abs + rel*max(|a|,|b|); non-finite values are only close to themselves
RNum(i) == Native        \* integer -> real
RRound(a) == Native      \* nearest double
RLn(a) == Native
RExp(a) == Native
RSqrt(a) == Native
RPow(a, b) == Native
RTerms(n, x, a, y, b) == Native     \* sum of n[i] x^a[i] y^b[i]
\* strings
Chars(s) == Native       \* sequence of one-character strings
ParseNum(s) == Native    \* text -> real, "" if the text is not a number
FixedText(t, v, d, slack) == Native  \* t is v in fixed notation with d decimals
SciText(t, v, d, slack) == Native    \* ... scientific notation with d decimals
GenText(t, v, d, slack) == Native    \* ... default notation with d significant digits
Replace(s, f, g) == Native
Contains(s, f) == Native
StartsWith(s, f) == Native
StrLt(a, b) == Native
-----------------------------------------------------------------------------
a (+) b == RAdd(a, b)
a (-) b == RSub(a, b)
a (.) b == RMul(a, b)
a (/) b == RDiv(a, b)
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(a, b) THEN a ELSE b
RECURSIVE RSum(_)
RSum(seq) == IF seq = <<>> THEN "0" ELSE RAdd(Head(seq), RSum(Tail(seq)))
=============================================================================
