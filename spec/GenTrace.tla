------------------------------ MODULE GenTrace ------------------------------
(* Judges recorded calls of the generators (P05-P07).                        *)
EXTENDS SearchTree, Symmetry, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 24
VARIABLE l
vars == <<l>>
If(cond, what) == IF cond THEN {} ELSE {what}

\* P05: results of repeated calls with generators yielding the same values
JFill(e) == If(Solved(e.g), "P05 generated grid is not solved")
            \cup If(\A i \in 1..Len(e.again) : e.again[i] = e.g, "P05 same random numbers, other grid")
            \cup If(e.rngsame, "P05 same random numbers, generator used differently")

Symmetric(g, sym) == \A c \in Cells : g[c] = 0 => \A x \in OrbitOf[sym][c] : g[x] = 0
DigOut(g, o) == [c \in Cells |-> IF c \in o THEN 0 ELSE g[c]]

\* P06 with a source
JDig(e) ==
    LET s == TLCEval(Sols(e.src, e.srcexact, e.srccert, e.srcwit))
    IN  IF Cardinality(s) # 1 THEN If(e.out = e.src, "P06 source without a unique solution changed")
        ELSE If(Extends(e.src, e.out), "P06 clue that the source does not have")
             \cup If(e.outexact /\ Leaves(e.out, e.outcert) = s, "P06 puzzle does not have the source's solution alone")
\* P06 without a source
JGen(e) == If(e.outexact /\ Cardinality(Leaves(e.out, e.outcert)) = 1, "P06 puzzle is not uniquely solvable")
JDet(e) == If(\A i \in 1..Len(e.outs) : e.outs[i] = e.outs[1], "P06 same random numbers, other puzzle")
           \cup If(e.rngsame, "P06 same random numbers, generator used differently")

\* P07: e.sol solves the puzzle; e.wit holds for each group with a clue another solution of the puzzle without it,
\* or <<_, 0, tree>> with a search tree that shows that there is none
JMin(e) ==
    LET os == {o \in Orbits(e.sym) : \E c \in o : e.out[c] # 0}
        w(o) == CHOOSE i \in 1..Len(e.wit) : e.wit[i][1] \in o
    IN  IF ~ IsSolution(e.sol, e.out) THEN Assert(FALSE, <<"TOOLERROR not the solution", e.out>>)
        ELSE IF ~ \A o \in os : \E i \in 1..Len(e.wit) : e.wit[i][1] \in o THEN Assert(FALSE, <<"TOOLERROR group without witness", e.out>>)
        ELSE If(~e.fromsolved \/ Symmetric(e.out, e.sym), "P07 clues are not symmetric")
             \cup If(\A o \in os : LET x == e.wit[w(o)] IN
                        /\ x[2] # 0 \/ (IF Cardinality(Leaves(DigOut(e.out, o), x[3])) = 1 THEN FALSE
                                        ELSE Assert(FALSE, <<"TOOLERROR missing witness", e.out>>))
                        /\ e.tab[x[2]] # e.sol /\ IsSolution(e.tab[x[2]], DigOut(e.out, o)), "P07 not minimal")

Judge(e) ==
    CASE e.k = "fill" -> JFill(e)
      [] e.k = "dig"  -> JDig(e)
      [] e.k = "gen"  -> JGen(e)
      [] e.k = "det"  -> JDet(e)
      [] e.k = "min"  -> JMin(e)
      [] e.k = "panic" -> {"panic in " \o e.op}
      [] e.k = "crash" -> {"no return from " \o e.op}
      [] OTHER -> Assert(FALSE, <<"TOOLERROR unknown event", e.k>>)

Consume(i) == LET bad == Judge(Trace[i]) IN bad = {} \/ PrintT("REJECT " \o ToString(i) \o " " \o ToString(bad))
Init == l \in 1..Min2(Chains, Len(Trace)) /\ Consume(l)
Next == l + Chains <= Len(Trace) /\ l' = l + Chains /\ Consume(l')
Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").distinct = Len(Trace)
=============================================================================
