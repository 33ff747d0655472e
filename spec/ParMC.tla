-------------------------------- MODULE ParMC --------------------------------
(* Callers in several threads, calls that take several steps, and a library  *)
(* that may remember earlier answers (the most state that a library of pure  *)
(* functions can have): whatever the interleaving, each caller sees the      *)
(* results of its calls alone, and its registers change by its own calls     *)
(* only.  This is the behaviour that recorded parallel runs are judged by.   *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Threads, Vals, MaxCalls
VARIABLES reg,    \* register of each caller
          pc,     \* "idle" or the call in progress
          hist,   \* calls of each caller: register before, operation, result, register after
          memo    \* answers remembered: a set of <<operation, register, answer>>
vars == <<reg, pc, hist, memo>>

Ops == {"ask", "step"}
Answer(op, v) == IF op = "ask" THEN (v * v + 1) % Cardinality(Vals) ELSE (v + 1) % Cardinality(Vals)
Effect(op, v) == IF op = "ask" THEN v ELSE Answer(op, v)

Init == reg \in [Threads -> Vals] /\ pc = [t \in Threads |-> <<"idle">>] /\ hist = [t \in Threads |-> <<>>] /\ memo = {}
Begin(t) == pc[t][1] = "idle" /\ Len(hist[t]) < MaxCalls
            /\ \E op \in Ops : pc' = [pc EXCEPT ![t] = <<"look", op>>]
            /\ UNCHANGED <<reg, hist, memo>>
Look(t) == pc[t][1] = "look"
           /\ LET hit == {m \in memo : m[1] = pc[t][2] /\ m[2] = reg[t]}
              IN  pc' = [pc EXCEPT ![t] = <<"end", pc[t][2], IF hit # {} THEN (CHOOSE m \in hit : TRUE)[3] ELSE Answer(pc[t][2], reg[t])>>]
           /\ UNCHANGED <<reg, hist, memo>>
\* remembering is optional (a full table, a lost race)
Return(t) == pc[t][1] = "end"
             /\ LET op == pc[t][2]
                    v == reg[t]
                    w == IF op = "ask" THEN v ELSE pc[t][3]
                IN  /\ reg' = [reg EXCEPT ![t] = w]
                    /\ hist' = [hist EXCEPT ![t] = Append(@, <<v, op, pc[t][3], w>>)]
                    /\ memo' \in {memo, memo \cup {<<op, v, pc[t][3]>>}}
             /\ pc' = [pc EXCEPT ![t] = <<"idle">>]
Next == \E t \in Threads : Begin(t) \/ Look(t) \/ Return(t)
Spec == Init /\ [][Next]_vars

\* results and effects are those of the call alone
Pure == \A t \in Threads : \A i \in 1..Len(hist[t]) :
          /\ hist[t][i][3] = Answer(hist[t][i][2], hist[t][i][1])
          /\ hist[t][i][4] = Effect(hist[t][i][2], hist[t][i][1])
          /\ i > 1 => hist[t][i][1] = hist[t][i-1][4]
Own == \A t \in Threads : Len(hist[t]) > 0 => reg[t] = hist[t][Len(hist[t])][4]
=============================================================================
