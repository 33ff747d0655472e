------------------------------ MODULE ValueTrace ------------------------------
(* Judges recorded comparisons, hashes and copies against Values (P27).      *)
EXTENDS Values, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 24
VARIABLE l
vars == <<l>>

JValues(e) ==
    LET n == Len(e.c)
        w == e.t
        sq(m) == Len(m) = n /\ \A i \in 1..n : Len(m[i]) = n
    IN  IF ~ (sq(e.eq) /\ sq(e.ne) /\ Len(e.h) = n /\ Len(e.copy) = n) THEN Assert(FALSE, <<"TOOLERROR shape", w>>)
        ELSE If(EqOk(e.c, e.eq), "P27 equality of " \o w)
             \cup If(\A i, j \in 1..n : e.ne[i][j] = ~e.eq[i][j], "P27 inequality of " \o w)
             \cup If(HashOk(e.c, e.h), "P27 equal values with different hashes: " \o w)
             \cup If(\A i \in 1..n : e.copy[i] = e.c[i], "P27 content of a copy of " \o w)
             \cup If(\A i \in 1..n : e.same[i], "P27 a copy differs from its origin: " \o w)
             \cup (IF e.order = "none" THEN {}
                   ELSE If(e.order = "lex" => LexOrder(e.c, e.cmp), "P27 order of " \o w)
                        \cup If(TotalOrder(e.c, e.cmp), "P27 no total order that agrees with equality: " \o w)
                        \cup If(e.pcmp = e.cmp, "P27 partial and total order of " \o w)
                        \cup If(\A i, j \in 1..n : e.rel[i][j] = Rel(e.cmp[i][j]), "P27 relations of " \o w))

JColl(e) == If(e.hash = Cardinality(Distinct(e.c)), "P27 number of values in a hash set")
            \cup If(e.found, "P27 value not found in a collection")
            \cup If(Tree(e.c, e.tree), "P27 values in a tree set")
            \cup If(Sorted(e.c, e.sorted), "P27 sorted values")
            \cup If(e.max = e.sorted[Len(e.sorted)] /\ e.min = e.sorted[1], "P27 largest and smallest value")

\* o: the origin after copying, after changing the copy, after the same change to it; c: the copy
JClone(e) == If(e.o[1] = e.c[1], "P27 a copy of a solver shows another position")
             \cup If(e.o[2] = e.o[1], "P27 changing a copy changes its origin")
             \cup If(e.c[3] = e.c[2], "P27 changing the origin changes its copy")
             \cup If(e.o[3] = e.c[3], "P27 a copy behaves unlike its origin")

Judge(e) ==
    CASE e.k = "values" -> JValues(e)
      [] e.k = "coll" -> JColl(e)
      [] e.k = "clone" -> JClone(e)
      [] e.k = "panic" -> {"panic in " \o e.op}
      [] e.k = "crash" -> {"no return from " \o e.op}
      [] OTHER -> Assert(FALSE, <<"TOOLERROR unknown event", e.k>>)

Consume(i) == LET bad == Judge(Trace[i]) IN bad = {} \/ PrintT("REJECT " \o ToString(i) \o " " \o ToString(bad))
Min2(a, b) == IF a < b THEN a ELSE b
Init == l \in 1..Min2(Chains, Len(Trace)) /\ Consume(l)
Next == l + Chains <= Len(Trace) /\ l' = l + Chains /\ Consume(l')
Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").distinct = Len(Trace)
=============================================================================
