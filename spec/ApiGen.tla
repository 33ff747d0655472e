------------------------------- MODULE ApiGen -------------------------------
(* Programs: behaviours of Api, generated by TLC's simulator.                *)
EXTENDS Api, Randomization, Json

CONSTANTS Steps, Deterministic
VARIABLES have, ops
vars == <<have, ops>>

Enabled(h) == {n \in Names : Table[n].needs \subseteq h /\ (Deterministic => Table[n].det)}
Pick(s) == RandomElement(s)
Init == have = {} /\ ops = <<>>
Do(n, a, b) == have' = After(have, n) /\ ops' = Append(ops, <<n, a, b>>)
New == \E n \in {Pick(Enabled(have))} : \E a \in {Pick(Table[n].A)}, b \in {Pick(Table[n].B)} : Do(n, a, b)
\* operations on the registers made last, and earlier ones again
Late == \E n \in {Pick({x \in Enabled(have) : have # {} => Table[x].needs # {} \/ Table[x].makes # {}})} :
          \E a \in {Pick(Table[n].A)}, b \in {Pick(Table[n].B)} : Do(n, a, b)
Again == \E i \in {Pick(1..Len(ops))} : Do(ops[i][1], ops[i][2], ops[i][3])
Step == LET k == RandomElement(1..6) IN IF k = 1 /\ ops # <<>> THEN Again ELSE IF k <= 3 THEN Late ELSE New
Show == PrintT("GEN " \o ToJson(ops)) /\ have' = have /\ ops' = Append(ops, <<"end", 0, 0>>)
Next == IF Len(ops) < Steps THEN Step ELSE Len(ops) = Steps /\ Show
Spec == Init /\ [][Next]_vars
Typed == \A i \in 1..Len(ops) : ops[i][1] \in Names \cup {"end"}
=============================================================================
