----------------------------- MODULE CanonTrace -----------------------------
(* Judges recorded shuffles and canonical forms (P08-P10).                   *)
EXTENDS Transform, SearchTree, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 24
VARIABLE l
vars == <<l>>
If(cond, what) == IF cond THEN {} ELSE {what}

\* ------------------------------------------------------------------- P08
\* e.t is a hint; without a good one the specification searches itself
Fits(t, a, b) == IsTransform(t) /\ Apply(t, a) = b
ByHint(e) == IF e.has THEN Fits(e.t, e.a, e.b) ELSE FALSE
JShuf(e) == If(IF ByHint(e) THEN TRUE ELSE Reachable(e.a, e.b), "P08 result is not equivalent")

\* The variety of many shuffles of a grid without automorphisms: e.ts the transformations, e.bs the results.
\* The parts of a transformation: transposition, order of bands, stacks, rows in each band, columns in each stack
ChuteOrder(f) == [i \in 1..B |-> (f[B * (i-1) + 1] - 1) \div B]
LineOrder(f, b) == [i \in 1..B |-> (f[B * (b-1) + i] - 1) % B]
NParts == 2*B + 3
Part(t, i) == IF i = 1 THEN <<t.tr>>
              ELSE IF i = 2 THEN ChuteOrder(t.rows)
              ELSE IF i = 3 THEN ChuteOrder(t.cols)
              ELSE IF i <= 3 + B THEN LineOrder(t.rows, i - 3)
              ELSE LineOrder(t.cols, i - 3 - B)
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
NVals(i) == IF i = 1 THEN 2 ELSE Fact(B)
\* number of different values among e.ts
Diff(n, f(_)) == Cardinality({f(i) : i \in 1..n})
JVariety(e) ==
    LET n == Len(e.ts)
        p == TLCEval([i \in 1..n |-> [j \in 1..NParts |-> Part(e.ts[i], j)]])
        bad1 == {j \in 1..NParts : Diff(n, LAMBDA i : p[i][j]) # NVals(j)}
        bad2 == {x \in {<<a, b>> : a, b \in 1..NParts} : x[1] < x[2] /\
                   Diff(n, LAMBDA i : <<p[i][x[1]], p[i][x[2]]>>) # NVals(x[1]) * NVals(x[2])}
        bad3 == {x \in {<<a, b, c>> : a, b, c \in 1..NParts} : x[1] < x[2] /\ x[2] < x[3] /\
                   Diff(n, LAMBDA i : <<p[i][x[1]], p[i][x[2]], p[i][x[3]]>>) # NVals(x[1]) * NVals(x[2]) * NVals(x[3])}
        badd == {d \in Digits : Diff(n, LAMBDA i : e.ts[i].dig[d]) # N}
        badd2 == {x \in {<<a, b>> : a, b \in Digits} : x[1] < x[2] /\
                   Diff(n, LAMBDA i : <<e.ts[i].dig[x[1]], e.ts[i].dig[x[2]]>>) # N * (N - 1)}
        baddp == {x \in {<<a, b>> : a \in Digits, b \in 1..NParts} :
                   Diff(n, LAMBDA i : <<e.ts[i].dig[x[1]], p[i][x[2]]>>) # N * NVals(x[2])}
        \* more repetitions than a choice among all N! relabellings and all arrangements of lines plausibly gives
        repd == n - Diff(n, LAMBDA i : e.ts[i].dig)
        repl == n - Diff(n, LAMBDA i : p[i])
    IN  IF ~ \A i \in 1..n : Fits(e.ts[i], e.a, e.bs[i]) THEN Assert(FALSE, <<"TOOLERROR wrong transformation", e.a>>)
        ELSE IF Cardinality(ToCanon(e.a)) # 1 THEN Assert(FALSE, <<"TOOLERROR automorphisms", e.a>>)
        ELSE If(bad1 = {}, "P08 some transformations never occur: " \o ToString(bad1))
             \cup If(bad2 = {}, "P08 some pairs of transformations never occur: " \o ToString(bad2))
             \cup If(bad3 = {}, "P08 some triples of transformations never occur: " \o ToString(bad3))
             \cup If(badd = {}, "P08 some relabellings never occur: " \o ToString(badd))
             \cup If(badd2 = {}, "P08 some relabellings of two digits never occur: " \o ToString(badd2))
             \cup If(baddp = {}, "P08 some relabellings never occur with some orders: " \o ToString(baddp))
             \cup If(repd <= e.maxrepd, "P08 too few different relabellings")
             \cup If(repl <= e.maxrepl, "P08 too few different arrangements")

\* -------------------------------------------------------------- P09, P10
JCanon(e) ==
    LET s == TLCEval(Sols(e.g, e.exact, e.cert, e.wit))
    IN  IF Cardinality(s) # 1 THEN If(e.none, "P09 canonical form of a grid without a unique solution")
        ELSE IF e.none THEN {"P09 no canonical form"}
        ELSE LET ts == ToCanon(CHOOSE x \in s : TRUE)
             IN  If(\E t \in ts : Apply(t, e.g) = e.res, "P09 not the canonical form")
                 \cup If(e.count = Cardinality(ts), "P10 automorphism count, expected " \o ToString(Cardinality(ts)))
\* two members of a class
JClass(e) == IF ~ Fits(e.t, e.a, e.b) \/ ~ Solved(e.a) THEN Assert(FALSE, <<"TOOLERROR not equivalent", e.a>>)
             ELSE If(e.ra = e.rb, "P09 equivalent grids with different canonical forms")
                  \cup If(e.ca = e.cb, "P10 equivalent grids with different automorphism counts")

Judge(e) ==
    CASE e.k = "shuf" -> JShuf(e)
      [] e.k = "variety" -> JVariety(e)
      [] e.k = "canon" -> JCanon(e)
      [] e.k = "class" -> JClass(e)
      [] e.k = "panic" -> {"panic in " \o e.op}
      [] e.k = "crash" -> {"no return from " \o e.op}
      [] OTHER -> Assert(FALSE, <<"TOOLERROR unknown event", e.k>>)

Consume(i) == LET bad == Judge(Trace[i]) IN bad = {} \/ PrintT("REJECT " \o ToString(i) \o " " \o ToString(bad))
\* the chains start before their first events: TLC evaluates initial states one after another
Init == l \in {0 - i : i \in 1..Min2(Chains, Len(Trace))}
Next == \/ l < 0 /\ l' = 0 - l /\ Consume(l')
        \/ l > 0 /\ l + Chains <= Len(Trace) /\ l' = l + Chains /\ Consume(l')
Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").distinct = Len(Trace) + Min2(Chains, Len(Trace))
=============================================================================
