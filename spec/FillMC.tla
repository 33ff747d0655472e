------------------------------- MODULE FillMC -------------------------------
(* Generation of a solved grid as a machine: a stack of frames, each a       *)
(* partial grid with candidates ruled out by failed guesses.  Singles are    *)
(* entered first; then any open candidate of any cell may be guessed (the    *)
(* random number generator decides); a contradiction drops the frame.        *)
EXTENDS Sudoku, SequencesExt

CONSTANTS FirstRows, AnyCell
VARIABLES stack, root
vars == <<stack, root>>

All == TLCEval({s \in Completions(EmptyGrid) : \E p \in FirstRows : \A c \in 1..Len(p) : s[c] = p[c]})
Frame(g, no) == [g |-> g, no |-> no]
Init == /\ root \in {[c \in Cells |-> IF c <= Len(p) THEN p[c] ELSE 0] : p \in FirstRows}
        /\ stack = <<Frame(root, {})>>

Top == stack[Len(stack)]
Poss(f, c) == {d \in Options(f.g, c) : <<c, d>> \notin f.no}
PossPlaces(f, h, d) == {c \in HouseSet[h] : f.g[c] = 0 /\ d \in Poss(f, c)}
Missing(f, h) == Digits \ Present(f.g, h)
Dead(f) == \/ \E c \in EmptyCells(f.g) : Poss(f, c) = {}
           \/ \E h \in Houses : \E d \in Missing(f, h) : PossPlaces(f, h, d) = {}
           \/ Conflict(f.g)
Singles(f) == {<<c, d>> \in EmptyCells(f.g) \X Digits : d \in Poss(f, c) /\ Cardinality(Poss(f, c)) = 1}
              \cup {<<c, d>> \in EmptyCells(f.g) \X Digits : \E h \in HousesOf[c] : PossPlaces(f, h, d) = {c}}
Done == stack # <<>> /\ EmptyCells(Top.g) = {}
Repl(f) == [stack EXCEPT ![Len(stack)] = f]

Fail   == ~Done /\ stack # <<>> /\ Dead(Top) /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
Single == ~Done /\ stack # <<>> /\ ~Dead(Top) /\ \E x \in Singles(Top) : stack' = Repl(Frame([Top.g EXCEPT ![x[1]] = x[2]], Top.no))
\* as in the implementation, one of the cells with the fewest candidates (AnyCell: any cell)
GuessCells(f) == IF AnyCell THEN EmptyCells(f.g)
                 ELSE {c \in EmptyCells(f.g) : \A x \in EmptyCells(f.g) : Cardinality(Poss(f, c)) <= Cardinality(Poss(f, x))}
Guess  == /\ ~Done /\ stack # <<>> /\ ~Dead(Top) /\ Singles(Top) = {}
          /\ \E c \in GuessCells(Top) : \E d \in Poss(Top, c) :
                stack' = Append(Repl(Frame(Top.g, Top.no \cup {<<c, d>>})), Frame([Top.g EXCEPT ![c] = d], Top.no))
Next == (Fail \/ Single \/ Guess) /\ UNCHANGED root
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Covered(f) == {s \in All : Extends(s, f.g) /\ \A x \in f.no : f.g[x[1]] # 0 \/ s[x[1]] # x[2]}
NothingLost == ~Done => UNION {Covered(stack[i]) : i \in 1..Len(stack)} = {s \in All : Extends(s, root)}
NeverExhausted == stack # <<>>
ResultValid == Done => Solved(Top.g) /\ Extends(Top.g, root)
Terminates == <>Done

Perms == {p \in [1..N -> Digits] : \A i, j \in 1..N : i # j => p[i] # p[j]}
\* without loss of generality: the first row relabelled, the first two columns not exchanged
OnePrefix == {<<1, 2, 3, 4, 3>>}
OnePerm == {[i \in 1..N |-> i]}
=============================================================================
