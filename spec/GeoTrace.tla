------------------------------ MODULE GeoTrace ------------------------------
(* Judges recorded values of the position types against Positions (P23).     *)
(* Cells are numbered from 0 in the events.                                  *)
EXTENDS Positions, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 24
VARIABLE l
vars == <<l>>

If(cond, what) == IF cond THEN {} ELSE {what}
Rng(q) == {q[i] : i \in 1..Len(q)}
Zero(s) == {c - 1 : c \in s}
UpTo(n) == [i \in 1..n |-> i - 1]
CO == TLCEval([k \in Kinds |-> [n \in 0..(Limit[k]-1) |-> CellsOf(k, n)]])

\* construction of all 256 numbers: accepted values, contained number, index, iteration over all
JCtor(e) ==
    LET ok == IF e.t = "Digit" THEN [i \in 1..9 |-> i] ELSE UpTo(Limit[e.t])
        ix == UpTo(Len(ok))
    IN  If(e.checked = ok, "P23 new_checked") \cup If(e.new = ok, "P23 new")
        \cup If(e.get = ok, "P23 get") \cup If(e.index = ix, "P23 as_index") \cup If(e.all = ok, "P23 all")
        \cup If(e.same, "P23 new and new_checked differ")

JCells(e) == If(Len(e.v) = Limit[e.t] /\ \A i \in 1..Len(e.v) : Rng(e.v[i]) = Zero(CO[e.t][i-1]) /\ Len(e.v[i]) = Cardinality(CO[e.t][i-1]), "P23 cells")
JCat(e)   == If(Len(e.v) = Limit[e.t] /\ \A i \in 1..Len(e.v) : e.v[i] = Categorize(e.t, i-1), "P23 categorize")
JConv(e)  == If(Len(e.v) = Limit[e.from] /\ \A i \in 1..Len(e.v) : e.v[i] = Convert(e.from, e.to, i-1), "P23 conversion")
\* positions of all cells within a row, column or block (reading order), within a band row by row
JPos(e)   == If(Len(e.v) = NC /\ \A i \in 1..NC : e.v[i] = PosWithin(e.t, i), "P23 position of a cell")
\* positions keep their number
JSame(e)  == If(e.v = UpTo(Len(e.v)), "P23 position number")
JAt(e)    == If(Len(e.v) = Limit[e.t] /\ \A i \in 1..Len(e.v) : Len(e.v[i]) = N /\ \A p \in 1..N : e.v[i][p] + 1 = Reading(e.t, i-1, p-1), "P23 cell_at")
\* all subsets of positions (as bit masks) of one line or house
JCellsAt(e) ==
    LET at == TLCEval([p \in 0..(N-1) |-> Reading(e.t, e.n, p) - 1])
    IN  If(Len(e.v) = 512 /\ \A m \in 0..511 : Rng(e.v[m+1]) = {at[p] : p \in {p \in 0..(N-1) : (m \div (2^p)) % 2 = 1}}, "P23 cells_at")
\* accepted digits for each number of a cell, out of 256 * 256 combinations
JCand(e)  == If(Len(e.v) = 256 /\ \A i \in 1..256 : e.v[i] = IF i <= NC THEN [d \in 1..9 |-> d] ELSE <<>>, "P23 Candidate::new")
             \cup If(Len(e.parts) = NC * 9 /\ \A i \in 1..NC*9 :
                     LET c == ((i-1) \div 9) + 1
                     IN  e.parts[i] = <<c - 1, ((i-1) % 9) + 1, RowOf[c], ColOf[c], BlkOf[c]>>, "P23 Candidate")
JEntry(e) == If(Len(e.v) = NC /\ \A c \in 1..NC : e.v[c] = <<RowOf[c], ColOf[c], BlkOf[c]>>, "P23 coordinates of a cell")
\* order, equality: as the numbers
JOrd(e)   == If(\A i \in 1..Len(e.v) : \A j \in 1..Len(e.v) : e.v[i][j] = (IF i < j THEN -1 ELSE IF i > j THEN 1 ELSE 0), "P23 order")

Judge(e) ==
    CASE e.k = "ctor"    -> JCtor(e)
      [] e.k = "cells"   -> JCells(e)
      [] e.k = "cat"     -> JCat(e)
      [] e.k = "conv"    -> JConv(e)
      [] e.k = "pos"     -> JPos(e)
      [] e.k = "same"    -> JSame(e)
      [] e.k = "at"      -> JAt(e)
      [] e.k = "cellsat" -> JCellsAt(e)
      [] e.k = "cand"    -> JCand(e)
      [] e.k = "entry"   -> JEntry(e)
      [] e.k = "ord"     -> JOrd(e)
      [] e.k = "panic"   -> {"panic in " \o e.op}
      [] e.k = "crash"   -> {"no return from " \o e.op}
      [] OTHER -> Assert(FALSE, <<"TOOLERROR unknown event", e.k>>)

Consume(i) == LET bad == Judge(Trace[i]) IN bad = {} \/ PrintT("REJECT " \o ToString(i) \o " " \o ToString(bad))
Init == l \in 1..Min2(Chains, Len(Trace)) /\ Consume(l)
Next == l + Chains <= Len(Trace) /\ l' = l + Chains /\ Consume(l')
Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").distinct = Len(Trace)
=============================================================================
