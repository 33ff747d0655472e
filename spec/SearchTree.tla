----------------------------- MODULE SearchTree -----------------------------
(* Search trees: complete runs of the search machine of SolveSearch.tla,     *)
(* recorded as nested nodes, and their checking.                             *)
(*   <<0, c, _, <<<<d, child>>, ...>>>>  branch on the digit of empty cell c *)
(*   <<1, h, d, <<<<c, child>>, ...>>>>  branch on the place of d in house h *)
(*   <<2>>  the grid is complete                                             *)
(*   <<3>>  two clues of the root contradict each other                      *)
(* Leaves(g, n) is the set of all solutions of g, provided that every branch *)
(* offers all options that the filled cells leave open (SolveSearch's        *)
(* invariant shows why).  A node that does not is a defect of the harness,   *)
(* never of the code under test, and stops TLC.                              *)
EXTENDS Sudoku

RECURSIVE Leaves(_, _)
Leaves(g, n) ==
    CASE n[1] = 2 -> IF EmptyCells(g) = {} /\ Solved(g) THEN {g} ELSE Assert(FALSE, <<"TOOLERROR bad leaf", g>>)
      [] n[1] = 3 -> IF Conflict(g) THEN {} ELSE Assert(FALSE, <<"TOOLERROR no conflict", g>>)
      [] n[1] = 0 ->
           LET c == n[2]
               k == n[4]
           IN  IF g[c] = 0 /\ Options(g, c) = {k[i][1] : i \in 1..Len(k)} /\ Cardinality(Options(g, c)) = Len(k)
               THEN UNION {Leaves([g EXCEPT ![c] = k[i][1]], k[i][2]) : i \in 1..Len(k)}
               ELSE Assert(FALSE, <<"TOOLERROR bad cell branch", g, c>>)
      [] n[1] = 1 ->
           LET h == n[2]
               d == n[3]
               k == n[4]
           IN  IF d \notin Present(g, h) /\ Places(g, h, d) = {k[i][1] : i \in 1..Len(k)} /\ Cardinality(Places(g, h, d)) = Len(k)
               THEN UNION {Leaves([g EXCEPT ![k[i][1]] = d], k[i][2]) : i \in 1..Len(k)}
               ELSE Assert(FALSE, <<"TOOLERROR bad house branch", g, h, d>>)
      [] OTHER -> Assert(FALSE, <<"TOOLERROR bad node", n[1]>>)

\* the number of solutions, exactly or at least 2 (witnesses)
AtLeastTwo(g, a, b) == IsSolution(a, g) /\ IsSolution(b, g) /\ a # b
Sols(g, exact, cert, w) ==
    IF exact THEN Leaves(g, cert)
    ELSE IF Len(w) = 2 /\ AtLeastTwo(g, w[1], w[2]) THEN {w[1], w[2]} ELSE Assert(FALSE, <<"TOOLERROR bad witnesses", g>>)
=============================================================================
