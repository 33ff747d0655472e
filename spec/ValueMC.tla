------------------------------ MODULE ValueMC ------------------------------
(* Exhaustive for small contents: the lexicographic order is one of the      *)
(* total orders, sorting by adjacent exchanges (with any total order) ends   *)
(* in the only sorted arrangement, a tree of values holds what was inserted. *)
(* Registers hold values and copies of values: changing one of them leaves   *)
(* the others as they were.                                                  *)
EXTENDS Values, TLC

CONSTANTS Digits, Width, Many
Content == [1..Width -> Digits]
VARIABLES list, orig, reg, ghost
vars == <<list, orig, reg, ghost>>

Init == /\ list \in [1..Many -> Content]
        /\ orig = list
        /\ reg = [r \in 1..2 |-> [i \in 1..Width |-> CHOOSE d \in Digits : TRUE]]
        /\ ghost = reg
Exchange(i) == Lex(list[i], list[i+1]) = 1
               /\ list' = [list EXCEPT ![i] = list[i+1], ![i+1] = list[i]]
               /\ UNCHANGED <<orig, reg, ghost>>
SortedNow == \A i \in 1..(Many-1) : Lex(list[i], list[i+1]) # 1
\* registers are used once the list is sorted
Load(r) == \E i \in 1..Many : reg' = [reg EXCEPT ![r] = list[i]] /\ ghost' = [ghost EXCEPT ![r] = list[i]] /\ UNCHANGED <<list, orig>>
Copy(r) == reg' = [reg EXCEPT ![r] = reg[3 - r]] /\ ghost' = [ghost EXCEPT ![r] = ghost[3 - r]] /\ UNCHANGED <<list, orig>>
Change(r) == \E i \in 1..Width, d \in Digits :
                /\ reg' = [reg EXCEPT ![r] = [@ EXCEPT ![i] = d]]
                /\ ghost' = [ghost EXCEPT ![r] = SubSeq(@, 1, i - 1) \o <<d>> \o SubSeq(@, i + 1, Width)]
                /\ UNCHANGED <<list, orig>>
Next == (\E i \in 1..(Many-1) : Exchange(i)) \/ (SortedNow /\ orig = list /\ \E r \in 1..2 : Load(r) \/ Copy(r) \/ Change(r))
Spec == Init /\ [][Next]_vars

Matrix(c) == [i \in 1..Len(c) |-> [j \in 1..Len(c) |-> Lex(c[i], c[j])]]
OrderTotal == TotalOrder(list, Matrix(list)) /\ LexOrder(list, Matrix(list))
SortEnds == SortedNow => Sorted(orig, list)
OnlySorted == SortedNow => \A i, j \in 1..Many : i < j => Lex(list[i], list[j]) <= 0
Reg(r) == [i \in 1..Width |-> reg[r][i]]
CopiesApart == \A r \in 1..2 : Lex(reg[r], ghost[r]) = 0
=============================================================================
