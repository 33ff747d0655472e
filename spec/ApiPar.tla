------------------------------- MODULE ApiPar -------------------------------
(* Interleaved programs: several callers with registers of their own take    *)
(* turns (Api for each of them).  Behaviours are generated by TLC's          *)
(* simulator; an operation is <<caller, name, a, b>>.                        *)
EXTENDS Api, Randomization, Json

CONSTANTS Steps, Callers
VARIABLES have, ops
vars == <<have, ops>>

Pick(s) == RandomElement(s)
Enabled(h) == {n \in Names : Table[n].needs \subseteq h /\ Table[n].det}
Init == have = [c \in 1..Callers |-> {}] /\ ops = <<>>
Do(c, n, a, b) == have' = [have EXCEPT ![c] = After(@, n)] /\ ops' = Append(ops, <<c, n, a, b>>)
New(c) == \E n \in {Pick(Enabled(have[c]))} : \E a \in {Pick(Table[n].A)}, b \in {Pick(Table[n].B)} : Do(c, n, a, b)
Late(c) == \E n \in {Pick({x \in Enabled(have[c]) : have[c] # {} => Table[x].needs # {} \/ Table[x].makes # {}})} :
          \E a \in {Pick(Table[n].A)}, b \in {Pick(Table[n].B)} : Do(c, n, a, b)
\* what any caller has done before, by another one: the same input in several threads
Same(c) == \E i \in {Pick(1..Len(ops))} : Table[ops[i][2]].needs \subseteq have[c] /\ Do(c, ops[i][2], ops[i][3], ops[i][4])
Step == \E c \in {Pick(1..Callers)} : LET k == Pick(IF have = <<>> THEN {0} ELSE 1..6) IN
        IF k <= 2 /\ ops # <<>> THEN Same(c) ELSE IF k <= 4 THEN Late(c) ELSE New(c)
Show == PrintT("GEN " \o ToJson(ops)) /\ have' = have /\ ops' = Append(ops, <<0, "end", 0, 0>>)
Next == IF Len(ops) < Steps THEN Step ELSE Len(ops) = Steps /\ Show
Spec == Init /\ [][Next]_vars
Typed == \A i \in 1..Len(ops) : ops[i][2] \in Names \cup {"end"}
=============================================================================
