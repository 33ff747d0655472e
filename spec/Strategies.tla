---------------------------- MODULE Strategies ------------------------------
(* Positions and the human strategies.  A position holds the grid p.g and    *)
(* the open candidates p.c of every cell ({} for filled cells).              *)
EXTENDS Sudoku, FiniteSetsExt

SubsetsOf(n, S) == IF n > Cardinality(S) THEN {} ELSE kSubset(n, S)

Pos(g, el) == [g |-> g, c |-> [c \in Cells |->
    IF g[c] # 0 THEN {} ELSE (Digits \ el[c]) \ {g[x] : x \in Peers[c]}]]
NoEl == [c \in Cells |-> {}]

Enter(p, c, d) == [g |-> [p.g EXCEPT ![c] = d],
                   c |-> [x \in Cells |-> IF x = c THEN {} ELSE IF x \in Peers[c] THEN p.c[x] \ {d} ELSE p.c[x]]]
\* S: set of <<cell, digit>>
RuleOut(p, S) == [p EXCEPT !.c = [x \in Cells |-> {d \in p.c[x] : <<x, d>> \notin S}]]

CellsFor(p, h, d) == {c \in HouseSet[h] : d \in p.c[c]}
Ruled(p, cs, D) == UNION {{<<c, d>> : d \in p.c[c] \cap D} : c \in cs}

Contradictory(p) ==
    \/ \E c \in Cells : p.g[c] = 0 /\ p.c[c] = {}
    \/ Conflict(p.g)
    \/ \E h \in Houses :
          LET pr == Present(p.g, h)
              at == TLCEval([d \in Digits \ pr |-> CellsFor(p, h, d)])
          IN  \/ \E d \in Digits \ pr : at[d] = {}
              \* two digits with the same only place, two cells with the same only candidate
              \/ \E d, f \in Digits \ pr : d # f /\ at[d] = at[f] /\ Cardinality(at[d]) = 1
              \/ \E a, b \in HouseSet[h] : a # b /\ p.c[a] = p.c[b] /\ Cardinality(p.c[a]) = 1

\* a filled grid that the position allows
Allowed(p, s) == Solved(s) /\ \A c \in Cells : IF p.g[c] # 0 THEN s[c] = p.g[c] ELSE s[c] \in p.c[c]

------------------------------------------------------------------------------
(* Patterns.  Each has a condition on the position; what it rules out.       *)

NakedSingle(p, c, d)     == p.c[c] = {d}
HiddenSingle(p, c, d, h) == CellsFor(p, h, d) = {c}

MiniLines == TLCEval({HouseSet[h] \cap HouseSet[b] : h \in 0..(2*N-1), b \in (2*N)..(3*N-1)} \ {{}})
BlockOf(ml) == 2*N + BlkOf[CHOOSE c \in ml : TRUE]
LineOf(ml)  == CHOOSE h \in 0..(2*N-1) : ml \subseteq HouseSet[h]
\* pointing: in the block only the miniline holds d; claiming: in the line only the miniline holds d
LockedBase(ml, pointing)  == IF pointing THEN BlockOf(ml) ELSE LineOf(ml)
LockedOther(ml, pointing) == IF pointing THEN LineOf(ml) ELSE BlockOf(ml)
Locked(p, ml, d, pointing) ==
    LET at == CellsFor(p, LockedBase(ml, pointing), d) IN at # {} /\ at \subseteq ml
LockedOut(p, ml, d, pointing) == Ruled(p, HouseSet[LockedOther(ml, pointing)] \ ml, {d})

\* n cells of a house that share n candidates
NakedSubset(p, h, cs, D) ==
    /\ cs \subseteq HouseSet[h] /\ \A c \in cs : p.c[c] # {}
    /\ UNION {p.c[c] : c \in cs} = D /\ Cardinality(D) = Cardinality(cs)
NakedOut(p, h, cs, D) == Ruled(p, HouseSet[h] \ cs, D)
\* n digits of a house that share n cells
HiddenSubset(p, h, cs, D) ==
    /\ \A d \in D : CellsFor(p, h, d) # {}
    /\ UNION {CellsFor(p, h, d) : d \in D} = cs /\ Cardinality(D) = Cardinality(cs)
HiddenOut(p, h, cs, D) == Ruled(p, cs, Digits \ D)

\* n parallel lines that hold d only in n crossing lines
IsRows(ls) == ls \subseteq 0..(N-1)
IsCols(ls) == ls \subseteq N..(2*N-1)
CrossOf(ls, ps) == IF IsRows(ls) THEN {N + q : q \in ps} ELSE ps
PosFor(p, h, d) == {PosIn(h, c) : c \in CellsFor(p, h, d)}
Fish(p, ls, d, ps) ==
    /\ IsRows(ls) \/ IsCols(ls)
    /\ \A h \in ls : Cardinality(CellsFor(p, h, d)) >= 2
    /\ UNION {PosFor(p, h, d) : h \in ls} = ps /\ Cardinality(ps) = Cardinality(ls)
FishOut(p, ls, d, ps) == Ruled(p, UNION {HouseSet[h] : h \in CrossOf(ls, ps)} \ UNION {HouseSet[h] : h \in ls}, {d})

\* general fish: base houses whose disjoint candidates are covered by as many houses
GenFish(p, d, base, cover) ==
    LET at(h) == CellsFor(p, h, d)
        all == UNION {at(h) : h \in base}
    IN  /\ Cardinality(base) = Cardinality(cover)
        /\ \A h \in base : at(h) # {}
        /\ \A h, k \in base : h # k => at(h) \cap at(k) = {}
        /\ all \subseteq UNION {HouseSet[h] : h \in cover}
GenFishOut(p, d, base, cover) ==
    Ruled(p, UNION {HouseSet[h] : h \in cover} \ UNION {CellsFor(p, h, d) : h \in base}, {d})

Sees(a, b) == a \in Peers[b]
Common(p, pins) == {d \in Digits : \A c \in pins : d \in p.c[c]}
Union(p, cs) == UNION {p.c[c] : c \in cs}
\* hinge xy, pincers xz and yz: z is in one of the pincers
XyWing(p, hinge, pins) ==
    /\ Cardinality(pins) = 2
    /\ Cardinality(p.c[hinge]) = 2
    /\ \A c \in pins : Sees(c, hinge) /\ Cardinality(p.c[c]) = 2 /\ Cardinality(p.c[c] \cap p.c[hinge]) = 1
    /\ \A a, b \in pins : ~ Sees(a, b)
    /\ Cardinality(Common(p, pins)) = 1
    /\ Cardinality(Union(p, pins \cup {hinge})) = 3
XyWingOut(p, hinge, pins) == Ruled(p, {c \in Cells : \A x \in pins : Sees(c, x)}, Common(p, pins))
\* hinge xyz, pincers xz and yz: z is in one of the three
XyzWing(p, hinge, pins) ==
    /\ Cardinality(pins) = 2
    /\ Cardinality(p.c[hinge]) = 3
    /\ \A c \in pins : Sees(c, hinge) /\ Cardinality(p.c[c]) = 2 /\ p.c[c] \subseteq p.c[hinge]
    /\ \A a, b \in pins : ~ Sees(a, b)
    /\ \E c \in pins : BlkOf[c] = BlkOf[hinge]
    /\ Cardinality(Common(p, pins)) = 1
XyzWingOut(p, hinge, pins) == Ruled(p, {c \in Cells : \A x \in pins \cup {hinge} : Sees(c, x)}, Common(p, pins))

------------------------------------------------------------------------------
(* All applications of a strategy that say something new: sets of ruled out  *)
(* candidates, or of <<cell, digit>> to be entered.                          *)
Bivalue(p, k) == {c \in Cells : Cardinality(p.c[c]) = k}

NakedSubsetApps(p, n) == UNION {
    LET open == {c \in HouseSet[h] : p.c[c] # {} /\ Cardinality(p.c[c]) <= n} IN
    {NakedOut(p, h, cs, Union(p, cs)) : cs \in {cs \in SubsetsOf(n, open) : Cardinality(Union(p, cs)) = n}} : h \in Houses}
HiddenSubsetApps(p, n) == UNION {
    LET at == TLCEval([d \in Digits |-> CellsFor(p, h, d)])
        open == {d \in Digits : at[d] # {} /\ Cardinality(at[d]) <= n}
        un(D) == UNION {at[d] : d \in D} IN
    {HiddenOut(p, h, un(D), D) : D \in {D \in SubsetsOf(n, open) : Cardinality(un(D)) = n}} : h \in Houses}
FishApps(p, n) == UNION { UNION {
    LET at == TLCEval([h \in kind |-> PosFor(p, h, d)])
        open == {h \in kind : Cardinality(at[h]) \in 2..n}
        un(ls) == UNION {at[h] : h \in ls} IN
    {FishOut(p, ls, d, un(ls)) : ls \in {ls \in SubsetsOf(n, open) : Cardinality(un(ls)) = n}}
    : d \in Digits} : kind \in {0..(N-1), N..(2*N-1)}}
XyApps(p) == LET two == TLCEval(Bivalue(p, 2)) IN UNION {
    {XyWingOut(p, h, pins) : pins \in {x \in SubsetsOf(2, two \cap Peers[h]) : XyWing(p, h, x)}} : h \in two}
XyzApps(p) == LET two == TLCEval(Bivalue(p, 2)) IN UNION {
    {XyzWingOut(p, h, pins) : pins \in {x \in SubsetsOf(2, two \cap Peers[h]) : XyzWing(p, h, x)}} : h \in Bivalue(p, 3)}
LockedApps(p) == {LockedOut(p, x[1], x[2], x[3]) : x \in {x \in MiniLines \X Digits \X BOOLEAN : Locked(p, x[1], x[2], x[3])}}

NakedSingles(p)  == {<<c, CHOOSE d \in p.c[c] : TRUE>> : c \in Bivalue(p, 1)}
HiddenSingles(p) == {<<c, d>> \in Cells \X Digits : d \in p.c[c] /\ \E h \in HousesOf[c] : HiddenSingle(p, c, d, h)}

Entries(p, s) == CASE s = "NakedSingles" -> NakedSingles(p)
                   [] s = "HiddenSingles" -> HiddenSingles(p)
                   [] OTHER -> {}
Elims(p, s) ==
    (CASE s = "LockedCandidates" -> LockedApps(p)
       [] s = "NakedPairs"    -> NakedSubsetApps(p, 2)
       [] s = "NakedTriples"  -> NakedSubsetApps(p, 3)
       [] s = "NakedQuads"    -> NakedSubsetApps(p, 4)
       [] s = "HiddenPairs"   -> HiddenSubsetApps(p, 2)
       [] s = "HiddenTriples" -> HiddenSubsetApps(p, 3)
       [] s = "HiddenQuads"   -> HiddenSubsetApps(p, 4)
       [] s = "XWing"         -> FishApps(p, 2)
       [] s = "Swordfish"     -> FishApps(p, 3)
       [] s = "Jellyfish"     -> FishApps(p, 4)
       [] s = "XyWing"        -> XyApps(p)
       [] s = "XyzWing"       -> XyzApps(p)
       [] OTHER -> {}) \ {{}}
Applicable(p, s) == Entries(p, s) # {} \/ Elims(p, s) # {}
AllStrategies == {"NakedSingles", "HiddenSingles", "LockedCandidates", "NakedPairs", "NakedTriples", "NakedQuads", "HiddenPairs",
                  "HiddenTriples", "HiddenQuads", "XWing", "Swordfish", "Jellyfish", "XyWing", "XyzWing"}
=============================================================================
