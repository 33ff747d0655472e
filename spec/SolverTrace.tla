---------------------------- MODULE SolverTrace -----------------------------
(* Validates recorded calls of the solver against the rules (P01-P04).       *)
(* Every event is one call (or a group of calls on one grid) with arguments  *)
(* and results.  The number of solutions is established by a search tree     *)
(* (a run of SolveSearch, see SearchTree) or by enough distinct witnesses.   *)
EXTENDS SearchTree, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 24
VARIABLE l
vars == <<l>>

Total(e) ==   \* number of solutions, or a lower bound that suffices for all limits used
    IF e.exact THEN Cardinality(Leaves(e.g, e.cert))
    ELSE IF /\ Cardinality({e.tab[i] : i \in {e.wit[j] : j \in 1..Len(e.wit)}}) = Len(e.wit)
            /\ \A j \in 1..Len(e.wit) : IsSolution(e.tab[e.wit[j]], e.g)
         THEN Len(e.wit)
         ELSE Assert(FALSE, <<"TOOLERROR bad witnesses", e.g>>)

MaxOf(s) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : s[i] <= x
Suffices(e, lims, t) == \/ e.exact
                        \/ t >= MaxOf(lims)
                        \/ Assert(FALSE, <<"TOOLERROR too few witnesses", e.g>>)

\* the list of indices denotes distinct solutions of g
DistinctSolutions(e, ix, good) ==
    /\ \A j \in 1..Len(ix) : ix[j] \in good
    /\ Cardinality({e.tab[ix[j]] : j \in 1..Len(ix)}) = Len(ix)
Good(e) == {i \in 1..Len(e.tab) : IsSolution(e.tab[i], e.g)}

JEnum(e) ==
    LET t == TLCEval(Total(e))
        good == TLCEval(Good(e))
    IN  IF ~Suffices(e, e.lims, t) THEN {} ELSE
        {"P01 number of solutions" : i \in {i \in 1..Len(e.lims) : Len(e.res[i]) # Min2(e.lims[i], t)}}
        \cup {"P01 not a list of distinct solutions" : i \in {i \in 1..Len(e.lims) : ~DistinctSolutions(e, e.res[i], good)}}

JVerdict(e) ==
    LET t == TLCEval(Total(e))
    IN  IF ~Suffices(e, e.lims \o <<2>>, t) THEN {} ELSE
        {"P02 count" : i \in {i \in 1..Len(e.lims) : e.counts[i] # Min2(e.lims[i], t)}}
        \cup (IF e.uniq = (t = 1) THEN {} ELSE {"P02 uniqueness test"})
        \cup (IF (e.some # 0) = (t > 0) THEN {} ELSE {"P02 some_solution existence"})
        \cup (IF (e.sol # 0) = (t = 1) THEN {} ELSE {"P02 solution existence"})
        \cup (IF e.some = 0 \/ IsSolution(e.tab[e.some], e.g) THEN {} ELSE {"P02 some_solution is no solution"})
        \cup (IF e.sol = 0 \/ IsSolution(e.tab[e.sol], e.g) THEN {} ELSE {"P02 solution is no solution"})

JBuffer(e) ==
    LET t == TLCEval(Total(e))
        good == TLCEval(Good(e))
        case(c) ==
            LET n == Min2(Len(c.new), c.ret)
            IN  (IF c.ret = Min2(c.lim, t) THEN {} ELSE {"P03 returned count"})
                \cup (IF DistinctSolutions(e, SubSeq(c.new, 1, n), good) THEN {} ELSE {"P03 written slots"})
                \cup (IF \A i \in (n+1)..Len(c.new) : c.new[i] = c.old[i] THEN {} ELSE {"P03 slot beyond the result changed"})
    IN  IF ~Suffices(e, [i \in 1..Len(e.cases) |-> e.cases[i].lim], t) THEN {} ELSE
        UNION {case(e.cases[i]) : i \in 1..Len(e.cases)}

\* numbers of solutions far beyond what can be listed: the digits that g does not contain are
\* interchangeable, so that there are (number of renamings) times the solutions of g2 (Sudoku!OrderedIn).
\* Lists are digested by the recorder: length, number of distinct entries, sampled and suspicious entries
JBig(e) ==
    LET ok == OrderedIn(e.g, e.g2, e.h) \/ Assert(FALSE, <<"TOOLERROR not an order of the unused digits", e.g>>)
        t == TLCEval(IF ok THEN Renamings(e.g, e.h) * Total([e EXCEPT !.g = e.g2]) ELSE 0)
        right(r) == r.n = Min2(r.lim, t)
        entries(r) == \A j \in 1..Len(r.some) : IsSolution(e.tab[r.some[j]], e.g)
    IN  IF ~Suffices(e, [i \in 1..Len(e.res) |-> e.res[i].lim], t) THEN {} ELSE
        UNION {LET r == e.res[i] IN
               CASE r.op = "list"   -> (IF right(r) THEN {} ELSE {"P01 number of solutions"})
                                       \cup (IF r.distinct = r.n /\ entries(r) THEN {} ELSE {"P01 not a list of distinct solutions"})
                 [] r.op = "count"  -> IF right(r) THEN {} ELSE {"P02 count"}
                 [] r.op = "buffer" -> (IF right(r) THEN {} ELSE {"P03 returned count"})
                                       \cup (IF r.distinct = Min2(r.n, r.len) /\ entries(r) THEN {} ELSE {"P03 written slots"})
                                       \cup (IF r.changed = 0 THEN {} ELSE {"P03 slot beyond the result changed"})
               : i \in 1..Len(e.res)}

JSolved(e) ==
    (IF e.solved = Solved(e.g) THEN {} ELSE {"P04 is_solved"})
    \cup (IF e.n = Cardinality(Clues(e.g)) THEN {} ELSE {"P04 n_clues"})
    \cup (IF e.iter = e.g THEN {} ELSE {"P04 iter"})

Judge(e) ==
    CASE e.k = "enum"    -> JEnum(e)
      [] e.k = "verdict" -> JVerdict(e)
      [] e.k = "buffer"  -> JBuffer(e)
      [] e.k = "big"     -> JBig(e)
      [] e.k = "solved"  -> JSolved(e)
      [] e.k = "panic"   -> {"panic in " \o e.op}
      [] e.k = "crash"   -> {"no return from " \o e.op}
      [] OTHER -> Assert(FALSE, <<"TOOLERROR unknown event", e.k>>)

Consume(i) == LET bad == Judge(Trace[i]) IN bad = {} \/ PrintT("REJECT " \o ToString(i) \o " " \o ToString(bad))
Init == l \in 1..Min2(Chains, Len(Trace)) /\ Consume(l)
Next == l + Chains <= Len(Trace) /\ l' = l + Chains /\ Consume(l')
Spec == Init /\ [][Next]_vars
\* each event is one state
AllConsumed == TLCGet("stats").distinct = Len(Trace)
=============================================================================
