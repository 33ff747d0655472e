--------------------------- MODULE StrategyJudge ----------------------------
(* Judges recorded runs of the strategy solver (P16-P18): the initial        *)
(* position, the strategies, the recorded deductions and the result.         *)
(* A deduction is <<kind, strategy, ...>>:                                   *)
(*   "NS" cell digit            "HS" cell digit kind-of-house(0 1 2)         *)
(*   "LC" digit miniline pointing conflicts                                  *)
(*   "SS" house positions digits conflicts                                   *)
(*   "BF" lines digit positions conflicts                                    *)
(*   "FI" digit base cover conflicts                                         *)
(*   "WG" hinge digits pincers conflicts                                     *)
EXTENDS Strategies, SequencesExt

If(cond, what) == IF cond THEN {} ELSE {what}
SetOf(s) == {s[i] : i \in 1..Len(s)}

Start(e) == Pos(e.g, [c \in Cells |-> SetOf(e.el[c])])
IsEntry(d) == d[1] \in {"NS", "HS"}
Conf(d) == d[CASE d[1] \in {"LC", "SS", "BF", "FI", "WG"} -> 6]
Pairs(d) == {<<x[1], x[2]>> : x \in SetOf(Conf(d))}
After(p, d) == IF IsEntry(d) THEN Enter(p, d[3], d[4]) ELSE RuleOut(p, Pairs(d))

Size(s) == CASE s \in {"NakedPairs", "HiddenPairs", "XWing"} -> 2
             [] s \in {"NakedTriples", "HiddenTriples", "Swordfish", "MutantSwordfish"} -> 3
             [] s \in {"NakedQuads", "HiddenQuads", "Jellyfish", "MutantJellyfish"} -> 4
             [] OTHER -> 0
HouseOfKind(c, k) == CASE k = 0 -> RowOf[c] [] k = 1 -> N + ColOf[c] [] k = 2 -> 2*N + BlkOf[c]

\* the pattern of d is present in position p and rules out exactly what d reports
Pattern(p, d) ==
    LET s == d[2] IN
    CASE d[1] = "LC" ->
           LET ml == SetOf(d[4]) IN
           /\ s = "LockedCandidates" /\ ml \in MiniLines
           /\ Locked(p, ml, d[3], d[5]) /\ LockedOut(p, ml, d[3], d[5]) = Pairs(d)
      [] d[1] = "SS" ->
           LET cs == {HouseCell(d[3], q) : q \in SetOf(d[4])}
               D  == SetOf(d[5])
           IN  /\ Cardinality(D) = Size(s) /\ Cardinality(cs) = Size(s)
               /\ \/ s \in {"NakedPairs", "NakedTriples", "NakedQuads"} /\ NakedSubset(p, d[3], cs, D) /\ NakedOut(p, d[3], cs, D) = Pairs(d)
                  \/ s \in {"HiddenPairs", "HiddenTriples", "HiddenQuads"} /\ HiddenSubset(p, d[3], cs, D) /\ HiddenOut(p, d[3], cs, D) = Pairs(d)
      [] d[1] = "BF" ->
           LET ls == SetOf(d[3])
               ps == SetOf(d[5])
           IN  /\ s \in {"XWing", "Swordfish", "Jellyfish"} /\ Cardinality(ls) = Size(s)
               /\ Fish(p, ls, d[4], ps) /\ FishOut(p, ls, d[4], ps) = Pairs(d)
      [] d[1] = "FI" ->
           LET b == SetOf(d[4])
               c == SetOf(d[5])
           IN  Cardinality(b) = Size(s) /\ GenFish(p, d[3], b, c) /\ GenFishOut(p, d[3], b, c) = Pairs(d)
      [] d[1] = "WG" ->
           LET pins == SetOf(d[5]) IN
           /\ p.c[d[3]] = SetOf(d[4])
           /\ \/ s = "XyWing" /\ XyWing(p, d[3], pins) /\ XyWingOut(p, d[3], pins) = Pairs(d)
              \/ s = "XyzWing" /\ XyzWing(p, d[3], pins) /\ XyzWingOut(p, d[3], pins) = Pairs(d)
      [] OTHER -> FALSE
NoRepeats(d) == Len(Conf(d)) = Cardinality(Pairs(d))

\* a hidden single of an earlier position of the pass, its cell still empty
HiddenAt(q, d) == HiddenSingle(q, d[3], d[4], HouseOfKind(d[3], d[5]))

\* st: current position p, the possible starts q of the current pass of the first strategy, complaints
Judged(e, st, d) ==
    LET first == Len(e.strats) > 0 /\ d[2] = e.strats[1]
        p == st.p
        starts == IF first THEN SelectSeq(Append(st.q, p), LAMBDA x : IF d[1] = "HS" THEN HiddenAt(x, d) ELSE Pattern(x, d)) ELSE <<>>
        ok == CASE d[1] = "NS" -> /\ d[2] = "NakedSingles" /\ p.g[d[3]] = 0
                                  \* (the first strategy may complete its pass on a position that has become contradictory)
                                  /\ IF first THEN p.c[d[3]] \subseteq {d[4]} ELSE NakedSingle(p, d[3], d[4])
                [] d[1] = "HS" -> /\ d[2] = "HiddenSingles" /\ d[6] = HouseOfKind(d[3], d[5]) /\ p.g[d[3]] = 0
                                  /\ IF first THEN starts # <<>> ELSE HiddenAt(p, d)
                [] OTHER       -> /\ Pairs(d) # {} /\ NoRepeats(d)
                                  /\ IF first THEN starts # <<>> ELSE Pattern(p, d)
    IN  TLCEval([p |-> After(p, d), q |-> IF d[1] = "NS" THEN <<>> ELSE starts, bad |-> st.bad \cup If(ok, "P17 not justified: " \o ToString(d)), n |-> st.n + 1])

JustifiedFrom(p, e) == FoldLeft(LAMBDA s, d : Judged(e, s, d), [p |-> p, q |-> <<>>, bad |-> {}, n |-> 0], e.ded).bad
JWhy(e) == JustifiedFrom(TLCEval(Start(e)), e) \cup If(e.cons, "P17 history iterator, index and length disagree")

\* P16: e.sols are solutions of the position; nothing deduced disagrees with one of them
JSound(e) ==
    LET p == TLCEval(Start(e))
        ds == e.ded
    IN  IF ~ \A i \in 1..Len(e.sols) : Allowed(p, e.sols[i]) THEN Assert(FALSE, <<"TOOLERROR not a solution", e.g>>)
        ELSE If(\A i \in 1..Len(ds) : IsEntry(ds[i]) => \A j \in 1..Len(e.sols) : e.sols[j][ds[i][3]] = ds[i][4], "P16 entered digit contradicts a solution")
             \cup If(\A i \in 1..Len(ds) : IsEntry(ds[i]) \/ \A x \in SetOf(Conf(ds[i])) : \A j \in 1..Len(e.sols) : e.sols[j][x[1]] # x[2], "P16 eliminated candidate of a solution")
             \cup If(Extends(e.out, e.g), "P16 clue changed")
             \cup If(\A j \in 1..Len(e.sols) : Extends(e.sols[j], e.out), "P16 result lost a solution")
             \cup If(e.ok => Allowed(p, e.out), "P16 returned solution is no solution of the position")

\* P18
JEnd(e) ==
    LET start == TLCEval(Start(e))
        step(x, d) == TLCEval([p |-> After(x.p, d), odd |-> x.odd \/ (IsEntry(d) /\ d[4] \notin x.p.c[d[3]])])
        end == FoldLeft(step, [p |-> start, odd |-> FALSE], e.ded)
        st == end.p
        entries == {<<d[3], d[4]>> : d \in {d \in SetOf(e.ded) : IsEntry(d)}}
    IN  If(e.ok = Solved(e.out), "P18 success flag")
        \cup If(\A i \in 1..Len(e.ded) : e.ded[i][2] \in SetOf(e.strats), "P18 strategy not listed")
        \cup If(e.out = [c \in Cells |-> IF \E x \in entries : x[1] = c THEN (CHOOSE x \in entries : x[1] = c)[2] ELSE e.g[c]]
                /\ Cardinality({x[1] : x \in entries}) = Cardinality(entries) /\ \A x \in entries : e.g[x[1]] = 0, "P18 grid is not the input plus the entries")
        \cup IF e.ok \/ end.odd \/ Contradictory(start) \/ Contradictory(st) THEN {}
             ELSE {"P18 still applicable: " \o s : s \in {s \in SetOf(e.strats) : Applicable(st, s)}}
=============================================================================
