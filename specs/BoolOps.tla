------------------------------ MODULE BoolOps -------------------------------
(* A register machine of regions: every boolean operation reads two registers  *)
(* and appends its result as a new register.                                   *)
EXTENDS Regions

VARIABLES V,     \* vertices of the arrangement of everything loaded so far
          regs   \* sequence of regions (boundary chains over V)

vars == <<V, regs>>

(* load the initial registers, given as sequences of closed rings *)
LoadRegs(R) ==
    \E E \in {TLCEval([k \in DOMAIN R |-> Edges(R[k])])} :
    \E W \in {Vertices(Flatten(E))} :
        /\ V' = W
        /\ regs' = [k \in DOMAIN R |-> Chain(E[k], W)]

Result(op, a, b) == Combine(op, regs[a], regs[b])

Operate(op, a, b) ==
    /\ a \in DOMAIN regs /\ b \in DOMAIN regs
    /\ regs' = Append(regs, Result(op, a, b))
    /\ UNCHANGED V
=============================================================================
