------------------------------ MODULE ApiTrace ------------------------------
(* Judges recorded programs: runs of Api on the real library (P24, P25).     *)
(* A recorded operation is                                                   *)
(*   <<name, a, b, outcome, su, so, su', so', result, rest>>                 *)
(* where the last six are numbers standing for the contents of registers     *)
(* (before, after), the result, and the other registers before; 0 = absent.  *)
EXTENDS Api, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 24
VARIABLE l
vars == <<l>>
If(cond, what) == IF cond THEN {} ELSE {what}

\* the recording is a behaviour of Api (else the harness is wrong)
RECURSIVE LegalFrom(_, _, _)
LegalFrom(ops, i, have) == IF i > Len(ops) THEN TRUE
    ELSE IF ~ Legal(have, ops[i][1], ops[i][2], ops[i][3]) THEN Assert(FALSE, <<"TOOLERROR illegal operation", ops[i]>>)
    ELSE LegalFrom(ops, i+1, IF ops[i][4] = "ok" THEN After(have, ops[i][1]) ELSE have)

JOp(o, id) ==
    LET t == Table[o[1]]
        p == Panics(o[1], o[2], o[3])
        pure == id = "P26"
    IN  If(o[4] \in {"ok", "panic"}, id \o " unexpected outcome of " \o o[1])
        \cup If(pure \/ (o[4] = "panic" => p), "P25 panic in " \o o[1])
        \cup If(pure \/ (p => o[4] = "panic"), "P25 no panic for an argument out of range in " \o o[1])
        \cup If(~pure \/ t.su \/ o[5] = o[7], "P26 sudoku changed by " \o o[1])
        \cup If(~pure \/ t.so \/ o[6] = o[8], "P26 solver changed by " \o o[1])
Pure(o, n) ==
    \* nothing changes between operations
    If(\A i \in 1..(n-1) : o[i][7] = o[i+1][5] /\ o[i][8] = o[i+1][6], "P26 register changed between operations")
    \* results are functions of arguments and registers (deductions: of those of the run that made them)
    \cup UNION {If(\A j \in 1..(i-1) : (o[i][1] = o[j][1] /\ o[i][2] = o[j][2] /\ o[i][3] = o[j][3] /\ o[i][5] = o[j][5]
                              /\ o[i][6] = o[j][6] /\ o[i][10] = o[j][10])
                              => o[i][9] = o[j][9] /\ o[i][7] = o[j][7] /\ o[i][8] = o[j][8],
                   "P26 other result for the same input in " \o o[i][1]) : i \in {x \in 1..n : Table[o[x][1]].det}}
JOps(e, o) ==
    LET n == Len(o)
    IN  IF ~ LegalFrom(o, 1, {}) THEN {}
        ELSE UNION {JOp(o[i], e.p) : i \in 1..n} \cup IF e.p # "P26" THEN {} ELSE Pure(o, n)
JProg(e) == JOps(e, e.ops)

\* P26: the same program alone, interleaved with others, at the same time as others, and later; equal runs are
\* recorded once (kinds tells which they were)
JPar(e) == IF ~ LegalFrom(e.runs[1], 1, {}) THEN {}
           ELSE JOps(e, e.runs[1])
                \cup If(\A k \in 1..Len(e.runs) : Len(e.runs[k]) = Len(e.runs[1]), "P26 runs of different length")
                \cup UNION {If(\A k \in 1..Len(e.runs) : i <= Len(e.runs[k]) => e.runs[k][i] = e.runs[1][i],
                               "P26 result depends on other calls: " \o e.runs[1][i][1]) : i \in 1..Len(e.runs[1])}

\* P24: the same program in several builds
JCfg(e) == IF ~ LegalFrom(e.runs[1], 1, {}) THEN {}
           ELSE If(\A k \in 1..Len(e.runs) : Len(e.runs[k]) = Len(e.runs[1]), "P24 runs of different length")
                \cup UNION {If(\A k \in 1..Len(e.runs) : i <= Len(e.runs[k]) => e.runs[k][i] = e.runs[1][i],
                               "P24 builds differ in " \o e.runs[1][i][1]) : i \in 1..Len(e.runs[1])}

\* every operation has been executed
JCover(e) == IF \A n \in Names : n \in {e.names[i] : i \in 1..Len(e.names)} \/ (e.det /\ ~Table[n].det) THEN {}
             ELSE Assert(FALSE, <<"TOOLERROR operations not executed", e.names>>)

Judge(e) ==
    CASE e.k = "prog" -> JProg(e)
      [] e.k = "par" -> JPar(e)
      [] e.k = "cfg" -> JCfg(e)
      [] e.k = "cover" -> JCover(e)
      [] e.k = "panic" -> {"panic in " \o e.op}
      [] e.k = "crash" -> {"no return from " \o e.op}
      [] OTHER -> Assert(FALSE, <<"TOOLERROR unknown event", e.k>>)

Consume(i) == LET bad == Judge(Trace[i]) IN bad = {} \/ PrintT("REJECT " \o ToString(i) \o " " \o ToString(bad))
Min2(a, b) == IF a < b THEN a ELSE b
Init == l \in 1..Min2(Chains, Len(Trace)) /\ Consume(l)
Next == l + Chains <= Len(Trace) /\ l' = l + Chains /\ Consume(l')
Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").distinct = Len(Trace)
=============================================================================
