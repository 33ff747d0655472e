------------------------------- MODULE SetADT -------------------------------
(* Finite sets over the universe 0..n-1 and their representation as bits.    *)
(* A set's value is a subset of U(n); raw bits are given as the set of the   *)
(* positions of the bits that are set (which for u128 avoids numbers TLC     *)
(* cannot represent) or as a natural number.                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

U(n) == 0..(n-1)

Pow2 == TLCEval([i \in 0..30 |-> 2^i])
ToNat(s, n) == LET RECURSIVE f(_)
                   f(i) == IF i = n THEN 0 ELSE (IF i \in s THEN Pow2[i] ELSE 0) + f(i+1)
               IN  f(0)
FromNat(m, n) == {i \in U(n) : (m \div Pow2[i]) % 2 = 1}

\* operations
And(a, b)     == a \cap b
Or(a, b)      == a \cup b
Xor(a, b)     == (a \ b) \cup (b \ a)
Without(a, b) == a \ b
Not(a, n)     == U(n) \ a
Overlaps(a, b) == a \cap b # {}
Contains(a, b) == b \subseteq a
Unique(a) == IF a = {} THEN "empty" ELSE IF Cardinality(a) = 1 THEN "some" ELSE "none"

\* iteration: ascending
RECURSIVE Ascending(_)
Ascending(a) == IF a = {} THEN <<>> ELSE LET m == CHOOSE x \in a : \A y \in a : x <= y IN <<m>> \o Ascending(a \ {m})
EachOnce(q, a) == Len(q) = Cardinality(a) /\ {q[i] : i \in 1..Len(q)} = a
=============================================================================
