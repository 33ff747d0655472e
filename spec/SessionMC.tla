----------------------------- MODULE SessionMC ------------------------------
(* The lazily updated caches of the strategy solver on the small board       *)
(* refine the abstract position: queues of entries and eliminations, a grid  *)
(* cache and a candidate cache with cursors into the queues.                 *)
EXTENDS Session

CONSTANTS Starts, InsertCells, MaxLen
VARIABLES ent, elim, grid, cp, ne, nx, err, p
vars == <<ent, elim, grid, cp, ne, nx, err, p>>
\* ent, elim: queues; grid: cached grid; cp: cached candidates; ne, nx: how much of the queues cp reflects;
\* err: the last cache update found a contradiction; p: the abstract position (history)


Init == \E st \in Starts :
        /\ ent = st.ent /\ elim = st.elim
        /\ grid = EmptyGrid /\ cp = [c \in Cells |-> Digits] /\ ne = 0 /\ nx = 0 /\ err = FALSE
        /\ p = Pos([c \in Cells |-> IF \E i \in 1..Len(ent) : ent[i][1] = c THEN (CHOOSE x \in {ent[i] : i \in 1..Len(ent)} : x[1] = c)[2] ELSE 0],
                   [c \in Cells |-> {elim[i][2] : i \in {j \in 1..Len(elim) : elim[j][1] = c}}])

Grid(es) == [c \in Cells |-> IF \E i \in 1..Len(es) : es[i][1] = c
                             THEN es[CHOOSE i \in 1..Len(es) : es[i][1] = c /\ \A j \in (i+1)..Len(es) : es[j][1] # c][2] ELSE 0]
\* a view that brings the grid up to date
Look == grid' = Grid(ent) /\ UNCHANGED <<ent, elim, cp, ne, nx, err, p>>
Insert == /\ Len(ent) < MaxLen
          /\ \E c \in InsertCells, d \in Digits :
              LET g == Grid(ent) IN
              /\ grid' = IF g[c] = 0 THEN [g EXCEPT ![c] = d] ELSE g
              /\ ent' = IF g[c] = 0 THEN Append(ent, <<c, d>>) ELSE ent
              /\ p' = AfterInsert(p, c, d)
          /\ UNCHANGED <<elim, cp, ne, nx, err>>
\* work one entry of a queue into the candidate cache; eliminations first
UpdateOne ==
    /\ ~err
    /\ IF nx < Len(elim)
       THEN LET x == elim[nx + 1] IN
            /\ cp' = [cp EXCEPT ![x[1]] = @ \ {x[2]}] /\ nx' = nx + 1 /\ ne' = ne
            /\ err' = (cp'[x[1]] = {})
       ELSE /\ ne < Len(ent)
            /\ LET x == ent[ne + 1] IN
               /\ ne' = ne + 1 /\ nx' = nx
               /\ IF cp[x[1]] = {} THEN UNCHANGED <<cp, err>>
                  ELSE IF x[2] \notin cp[x[1]] THEN cp' = cp /\ err' = TRUE
                  ELSE /\ cp' = [c \in Cells |-> IF c = x[1] THEN {} ELSE IF c \in Peers[x[1]] THEN cp[c] \ {x[2]} ELSE cp[c]]
                       /\ err' = \E c \in Peers[x[1]] : x[2] \in cp[c] /\ cp'[c] = {}
    /\ UNCHANGED <<ent, elim, grid, p>>
UpToDate == ne = Len(ent) /\ nx = Len(elim) /\ ~err
\* strategies read the caches when these are up to date
Deduce == /\ UpToDate /\ Len(ent) + Len(elim) < MaxLen
          /\ \/ \E c \in Cells, d \in Digits :
                  /\ cp[c] = {d}
                  /\ Grid(ent)[c] = 0
                  /\ ent' = Append(ent, <<c, d>>) /\ p' = Enter(p, c, d) /\ elim' = elim
             \/ \E S \in (LET q == [g |-> Grid(ent), c |-> cp] IN Elims(q, "LockedCandidates") \cup Elims(q, "NakedPairs")) :
                  /\ elim' = elim \o SetToSeq(S) /\ p' = RuleOut(p, S) /\ ent' = ent
          /\ UNCHANGED <<grid, cp, ne, nx, err>>
Next == Look \/ Insert \/ UpdateOne \/ Deduce
Spec == Init /\ [][Next]_vars

\* views are computed from the histories alone
View == Pos(Grid(ent), [c \in Cells |-> {elim[i][2] : i \in {j \in 1..Len(elim) : elim[j][1] = c}}])
ViewIsHistory == View = p
CacheExact == UpToDate => cp = p.c
CacheNeverTooSmall == \A c \in Cells : p.g[c] = 0 => p.c[c] \subseteq cp[c]
GridBehind == \A c \in Cells : grid[c] # 0 => grid[c] = p.g[c]
ErrMeansContradiction == err => Contradictory(p)
Rebuilt == LET el == [c \in Cells |-> IF p.g[c] # 0 THEN {} ELSE Digits \ p.c[c]] IN Pos(p.g, el) = p

SomeStarts == {[ent |-> <<>>, elim |-> <<>>],
               [ent |-> <<<<1, 1>>, <<7, 3>>>>, elim |-> <<<<16, 1>>, <<2, 4>>>>],
               [ent |-> <<<<1, 1>>, <<2, 2>>, <<8, 4>>>>, elim |-> <<<<3, 4>>, <<12, 1>>>>],
               [ent |-> <<<<1, 1>>, <<3, 1>>>>, elim |-> <<>>],
               [ent |-> <<>>, elim |-> <<<<5, 1>>, <<5, 2>>, <<5, 3>>, <<5, 4>>>>]}
SomeCells == {1, 2, 6, 11}
MoreCells == {1, 2, 4, 6, 11, 13}
=============================================================================
