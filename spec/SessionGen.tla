----------------------------- MODULE SessionGen -----------------------------
(* Behaviours of Session on the full board, generated by TLC's simulator and *)
(* replayed in the implementation (whose answers SessionTrace judges).       *)
EXTENDS Session, Randomization, Json

CONSTANT Steps
VARIABLES p, ops, start
vars == <<p, ops, start>>

Base == [c \in Cells |-> ((B * (RowOf[c] % B) + RowOf[c] \div B + ColOf[c]) % N) + 1]
Relabel(g, f) == [c \in Cells |-> f[g[c]]]
Perm == RandomElement({<<1,2,3,4,5,6,7,8,9>>, <<3,1,2,9,8,7,5,6,4>>, <<9,4,1,3,2,5,8,6,7>>, <<5,6,7,8,9,1,2,3,4>>})
Init == p = Pos(EmptyGrid, NoEl) /\ ops = <<>> /\ start = <<>>

Setup == /\ start = <<>>
         /\ \E n \in {RandomElement({0, 3, 10, 25, 40, 70})} :
            LET s == TLCEval(Relabel(Base, Perm))
                k == TLCEval(RandomSubset(n, Cells))
                m == TLCEval(RandomElement({0, 30, 200, 400}))
                x == TLCEval(RandomSubset(m, Cells \X Digits))
                g == TLCEval([c \in Cells |-> IF c \in k THEN s[c] ELSE 0])
                el == TLCEval([c \in Cells |-> IF g[c] # 0 THEN {} ELSE {d \in Digits \ {s[c]} : <<c, d>> \in x}])
            IN  start' = [g |-> g, el |-> el, s |-> s] /\ p' = TLCEval(Pos(g, el)) /\ ops' = <<>>

Empties == {c \in Cells : p.g[c] = 0}
Insert(c, d) == p' = TLCEval(AfterInsert(p, c, d)) /\ ops' = Append(ops, <<"ins", c, d>>)
Good == Empties # {} /\ LET c == RandomElement(Empties) IN Insert(c, start.s[c])
Cand == \E c \in {RandomElement(Cells)} : p.c[c] # {} /\ \E d \in {RandomElement(p.c[c])} : Insert(c, d)
Wild == \E c \in {RandomElement(Cells)} : \E d \in {RandomElement(Digits)} : Insert(c, d)
Over == Empties # Cells /\ \E c \in {RandomElement(Cells \ Empties)} : \E d \in {RandomElement(Digits)} : Insert(c, d)
View(o) == ops' = Append(ops, <<o, 0, 0>>) /\ p' = p
OneCell == \E c \in {RandomElement(Cells)} : ops' = Append(ops, <<"cs", c, 0>>) /\ p' = p
\* one random kind of step at a time (the simulator would compute all successors otherwise)
Step == LET k == RandomElement(1..13) IN
        CASE k \in 1..2 -> Good
          [] k = 3 -> Cand
          [] k = 4 -> Wild
          [] k = 5 -> Over
          [] k = 6 -> OneCell
          [] OTHER -> View(<<"gs", "ts", "sv", "pr", "rb", "cl", "keep", "kept">>[RandomElement(1..8)])
Show == PrintT("GEN " \o ToJson([g |-> start.g, el |-> [c \in Cells |-> SetToSeq(start.el[c])], ops |-> ops])) /\ p' = p /\ ops' = Append(ops, <<"end", 0, 0>>)
Next == IF start = <<>> THEN Setup
        ELSE /\ IF Len(ops) < Steps THEN Step ELSE Len(ops) = Steps /\ Show
             /\ start' = start
Spec == Init /\ [][Next]_vars
=============================================================================
