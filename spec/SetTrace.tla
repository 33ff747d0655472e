------------------------------ MODULE SetTrace ------------------------------
(* Judges recorded bitset operations against SetADT (P22).                   *)
EXTENDS SetADT, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 24
VARIABLE l
vars == <<l>>

If(cond, what) == IF cond THEN {} ELSE {what}
Rng(q) == {q[i] : i \in 1..Len(q)}
Size == [Digit |-> 9, PosLine |-> 9, PosHouse |-> 9, Line |-> 18, House |-> 27, Cell |-> 81]

\* text of the raw bits in base 2
BinText(a) == IF a = {} THEN <<0>>
              ELSE LET m == CHOOSE x \in a : \A y \in a : y <= x
                   IN  [i \in 1..(m+1) |-> IF (m + 1 - i) \in a THEN 1 ELSE 0]

\* a single set: its elements by iteration and everything that depends on it alone
JOne(e) ==
    LET n == Size[e.t]
        a == Rng(e.a)
    IN  If(e.raw = e.a, "P22 from_bits and bits")
        \cup If(EachOnce(e.iter, a), "P22 iteration")
        \cup If(~e.again, "P22 iteration after the end")
        \cup If(e.len = Cardinality(a), "P22 len")
        \cup If(e.empty = (a = {}), "P22 is_empty")
        \cup If(e.full = (a = U(n)), "P22 is_full")
        \cup If(e.unique.r = Unique(a) /\ (e.unique.r = "some" => a = {e.unique.e}), "P22 unique")
        \cup If(Rng(e.not) = Not(a, n), "P22 not")
        \cup If(e.bin = BinText(a), "P22 binary text")

\* two sets
JTwo(e) ==
    LET a == Rng(e.a)
        b == Rng(e.b)
    IN  If(Rng(e.and) = And(a, b), "P22 and") \cup If(Rng(e.and_a) = And(a, b), "P22 and assign")
        \cup If(Rng(e.or) = Or(a, b), "P22 or") \cup If(Rng(e.or_a) = Or(a, b), "P22 or assign")
        \cup If(Rng(e.xor) = Xor(a, b), "P22 xor") \cup If(Rng(e.xor_a) = Xor(a, b), "P22 xor assign")
        \cup If(Rng(e.without) = Without(a, b), "P22 without") \cup If(Rng(e.remove) = Without(a, b), "P22 remove")
        \cup If(e.overlaps = Overlaps(a, b), "P22 overlaps")
        \cup If(e.contains = Contains(a, b), "P22 contains")
        \cup If(e.eq = (a = b), "P22 equality")

\* a set and an element
JEl(e) ==
    LET a == Rng(e.a)
        b == {e.e}
    IN  If(Rng(e.and) = And(a, b), "P22 and element") \cup If(Rng(e.and_a) = And(a, b), "P22 and assign element")
        \cup If(Rng(e.or) = Or(a, b), "P22 or element") \cup If(Rng(e.or_a) = Or(a, b), "P22 or assign element")
        \cup If(Rng(e.xor) = Xor(a, b), "P22 xor element") \cup If(Rng(e.xor_a) = Xor(a, b), "P22 xor assign element")
        \cup If(e.contains = (e.e \in a), "P22 contains element")
        \cup If(Rng(e.as_set) = b /\ Rng(e.from) = b, "P22 element as set")

\* nine element types: the set with raw bits e.a against all 512 sets, results as raw bits
S9 == TLCEval([m \in 0..511 |-> FromNat(m, 9)])
JTab(e) ==
    LET a == S9[e.a]
        all(f(_,_), q, what) == If(Len(q) = 512 /\ \A m \in 0..511 : q[m+1] \in 0..511 /\ S9[q[m+1]] = f(a, S9[m]), what)
        allb(f(_,_), q, what) == If(Len(q) = 512 /\ \A m \in 0..511 : (q[m+1] = 1) = f(a, S9[m]), what)
    IN  all(And, e.and, "P22 and") \cup all(And, e.and_a, "P22 and assign")
        \cup all(Or, e.or, "P22 or") \cup all(Or, e.or_a, "P22 or assign")
        \cup all(Xor, e.xor, "P22 xor") \cup all(Xor, e.xor_a, "P22 xor assign")
        \cup all(Without, e.without, "P22 without") \cup all(Without, e.remove, "P22 remove")
        \cup allb(Overlaps, e.overlaps, "P22 overlaps") \cup allb(Contains, e.contains, "P22 contains")

JConst(e) == If(Rng(e.all) = U(Size[e.t]), "P22 ALL") \cup If(e.none = <<>>, "P22 NONE")

\* raw bits: accepted exactly when no bit outside of the universe is set
JRaw(e) == If(e.ok = (Rng(e.a) \subseteq U(Size[e.t])), "P22 raw bits outside of the universe")
\* 16 bit types: the accepted numbers as intervals
JRaw16(e) == If(e.ok = <<<<0, 511>>>>, "P22 raw bits outside of the universe")

Judge(e) ==
    CASE e.k = "one"   -> JOne(e)
      [] e.k = "two"   -> JTwo(e)
      [] e.k = "el"    -> JEl(e)
      [] e.k = "tab"   -> JTab(e)
      [] e.k = "const" -> JConst(e)
      [] e.k = "raw"   -> JRaw(e)
      [] e.k = "raw16" -> JRaw16(e)
      [] e.k = "panic" -> {"panic in " \o e.op}
      [] e.k = "crash" -> {"no return from " \o e.op}
      [] OTHER -> Assert(FALSE, <<"TOOLERROR unknown event", e.k>>)

Consume(i) == LET bad == Judge(Trace[i]) IN bad = {} \/ PrintT("REJECT " \o ToString(i) \o " " \o ToString(bad))
Init == l \in 1..(IF Len(Trace) < Chains THEN Len(Trace) ELSE Chains) /\ Consume(l)
Next == l + Chains <= Len(Trace) /\ l' = l + Chains /\ Consume(l')
Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").distinct = Len(Trace)
=============================================================================
