----------------------------- MODULE StrategyMC -----------------------------
(* The strategies and the strategy solver's loop on the small board.         *)
(* Local soundness: every application of every strategy keeps all solutions. *)
(* The loop: the first strategy runs in exhaustive passes on the candidates  *)
(* at the start of the pass, the others one deduction at a time.             *)
EXTENDS Strategies

CONSTANTS Anchor, Solutions, MinClues, MaxClues, Lists, Slack
VARIABLES p, root, list, pc, snap, todo
vars == <<p, root, list, pc, snap, todo>>

All == TLCEval(Completions(EmptyGrid))
Sols(q) == {s \in All : Allowed(q, s)}

\* clues of a solution; Slack: up to that many further candidates excluded, in agreement with a solution or not
Roots == UNION {{[c \in Cells |-> IF c \in k THEN s[c] ELSE 0] : k \in {k \in UNION {kSubset(i, Cells) : i \in MinClues..MaxClues} : Anchor \subseteq k}} : s \in Solutions}
Starts(g) == LET q == Pos(g, NoEl) IN
    {q} \cup (IF Slack = 0 THEN {} ELSE {RuleOut(q, {x}) : x \in {x \in Cells \X Digits : x[2] \in q.c[x[1]]}})

Init == /\ \E g \in Roots : p \in Starts(g)
        /\ root = p
        /\ list \in Lists
        /\ pc = "start" /\ snap = p /\ todo = {}

Done == pc = "done"
IsSolved == Solved(p.g)
Use(s, from) == \* the possible single deductions of s
    {Enter(p, x[1], x[2]) : x \in {x \in Entries(from, s) : p.g[x[1]] = 0}} \cup {RuleOut(p, S) : S \in Elims(from, s)}
Start == pc = "start" /\ pc' = "loop" /\ UNCHANGED <<p, root, list, snap, todo>>   \* (lets all workers share the work)
Loop == /\ pc = "loop"
        /\ IF IsSolved THEN pc' = "done" /\ UNCHANGED <<snap, todo>>
           ELSE pc' = "pass" /\ snap' = p /\ todo' = {<<"e", x>> : x \in Entries(p, list[1])} \cup {<<"r", S>> : S \in Elims(p, list[1])}
        /\ UNCHANGED <<p, root, list>>
\* one deduction of the exhaustive pass, found in the candidates of the pass' start (in the order of the scan: any)
Pass == /\ pc = "pass"
        /\ IF todo = {}
           THEN pc' = (IF p # snap THEN "loop" ELSE "rest") /\ UNCHANGED <<p, todo>>
           ELSE LET x == CHOOSE x \in todo : TRUE IN
                /\ todo' = todo \ {x} /\ pc' = pc
                /\ p' = IF x[1] = "r" THEN RuleOut(p, x[2]) ELSE IF p.g[x[2][1]] = 0 THEN Enter(p, x[2][1], x[2][2]) ELSE p
        /\ UNCHANGED <<root, list, snap>>
\* the first of the other strategies that finds something, any of its deductions
Rest == /\ pc = "rest"
        /\ LET can == {i \in 2..Len(list) : Applicable(p, list[i])} IN
           IF can = {} THEN pc' = "done" /\ p' = p
           ELSE LET i == CHOOSE i \in can : \A j \in can : i <= j IN
                /\ p' = CHOOSE q \in Use(list[i], p) : TRUE
                /\ pc' = "loop"
        /\ UNCHANGED <<root, list, snap, todo>>
Next == Start \/ Loop \/ Pass \/ Rest
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* P16
NothingLost == pc \in {"start", "pass"} \/ p = root \/ LET r == TLCEval({s \in All : Extends(s, root.g)}) IN \A s \in r : Allowed(p, s) <=> Allowed(root, s)
LocallySound == pc = "loop" =>
    LET t == TLCEval(Sols(p))
        can == TLCEval([c \in Cells |-> {s[c] : s \in t}]) IN
    \A s \in AllStrategies :
    /\ \A x \in Entries(p, s) : can[x[1]] \subseteq {x[2]}
    /\ \A S \in Elims(p, s) : \A x \in S : x[2] \notin can[x[1]]
\* P18: in any position that allows a solution
Exhausted == Done => \/ IsSolved \/ Contradictory(p)
                     \/ \A i \in 1..Len(list) : ~Applicable(p, list[i])
\* a pass only repeats or finds what was justified at its start; contradictions never hide solutions
Monotone == pc = "start" \/ \A c \in Cells : p.g[c] = 0 => p.c[c] \subseteq root.c[c]
ContradictionMeansNoSolution == pc = "loop" /\ Contradictory(p) => Sols(p) = {}
Terminates == <>Done

S1 == <<1,2,3,4, 3,4,1,2, 2,1,4,3, 4,3,2,1>>
S2 == <<1,2,3,4, 3,4,1,2, 2,3,4,1, 4,1,2,3>>
OneOfEach == {S1, S2}
JustOne == {S2}
NoAnchor == {}
Anchor1 == {1, 6}
SomeLists == {<<"NakedSingles", "HiddenSingles">>, <<"HiddenSingles", "LockedCandidates", "NakedPairs", "XWing">>,
              <<"NakedPairs", "XyWing", "XyzWing", "HiddenTriples">>}
AllOrders == {<<"XyWing", "HiddenPairs", "NakedSingles">>, <<"LockedCandidates", "NakedTriples", "NakedSingles", "HiddenSingles">>,
              <<"HiddenPairs", "XWing", "NakedPairs", "XyWing", "XyzWing", "HiddenSingles">>} \cup SomeLists
=============================================================================
