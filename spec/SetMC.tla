-------------------------------- MODULE SetMC -------------------------------
(* The bit-level design of the sets as a machine: a register that holds a    *)
(* natural number is changed by bit operations; `s` is the mathematical set  *)
(* it stands for, and `it`, `out` an iteration in progress that takes away   *)
(* the lowest bit each time.                                                 *)
EXTENDS SetADT, Bitwise

CONSTANT W     \* number of elements
VARIABLES bits, s, it, out
vars == <<bits, s, it, out>>
Full == 2^W - 1
Masks == 0..Full

Init == bits = 0 /\ s = {} /\ it = 0 /\ out = <<>>

Step(b, v) == bits' = b /\ s' = v /\ UNCHANGED <<it, out>>
DoAnd == \E m \in Masks : Step(bits & m, And(s, FromNat(m, W)))
DoOr  == \E m \in Masks : Step(bits | m, Or(s, FromNat(m, W)))
DoXor == \E m \in Masks : Step(bits ^^ m, Xor(s, FromNat(m, W)))
DoWithout == \E m \in Masks : Step(bits & (Full - m), Without(s, FromNat(m, W)))
DoNot == Step(Full & (Full - bits), Not(s, W))
StartIter == it' = bits /\ out' = <<>> /\ UNCHANGED <<bits, s>>
Lowest(x) == CHOOSE p \in {Pow2[i] : i \in U(W)} : x & p # 0 /\ \A q \in {Pow2[i] : i \in U(W)} : q < p => x & q = 0
IterNext == /\ it # 0
            /\ LET lb == Lowest(it) IN
               /\ it' = it ^^ lb
               /\ out' = Append(out, CHOOSE i \in U(W) : Pow2[i] = lb)
            /\ UNCHANGED <<bits, s>>
Next == DoAnd \/ DoOr \/ DoXor \/ DoWithout \/ DoNot \/ StartIter \/ IterNext
Spec == Init /\ [][Next]_vars

Represents == FromNat(bits, W) = s /\ ToNat(s, W) = bits /\ s \subseteq U(W)
\* what was iterated and what is left make up a set of the universe, ascending, each element once
Iteration == /\ \A i, j \in 1..Len(out) : i < j => out[i] < out[j]
             /\ \A i \in 1..Len(out) : \A x \in FromNat(it, W) : out[i] < x
             /\ (it = 0 => EachOnce(out, {out[i] : i \in 1..Len(out)}))
\* queries on bits agree with queries on sets
Queries == \A m \in Masks :
              /\ (bits & m # 0) = Overlaps(s, FromNat(m, W))
              /\ (bits & m = m) = Contains(s, FromNat(m, W))
              /\ (bits = Full) = (s = U(W))
              /\ (bits = 0) = (s = {})
=============================================================================
