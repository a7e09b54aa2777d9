------------------------------ MODULE TraceLiq ------------------------------
(***************************************************************************)
(* Validates behaviours recorded from the implementation: every line of    *)
(* the trace file is one program {id, ev: sequence of events}. Programs    *)
(* are independent behaviours, picked in the initial state.                *)
(***************************************************************************)
EXTENDS Liq

VARIABLES p, k, st, bad
vars == <<p, k, st, bad>>

Progs == ndJsonDeserialize(IOEnv.LIQ_TRACE)
Init == /\ p \in 1..Len(Progs)
        /\ k = 0
        /\ st = InitSt
        /\ bad = {}

Next == /\ k < Len(Progs[p].ev)
        /\ bad = {}
        /\ LET e == Progs[p].ev[k + 1] IN
             /\ bad' = Judge(st, e)
             /\ st' = Apply(st, e)
        /\ k' = k + 1
        /\ UNCHANGED p

Spec == Init /\ [][Next]_vars

Conforms == bad = {}

\* behaviours are deterministic: the state follows from the program and the position in it
At == <<p, k>>

Where == [prog |-> Progs[p].id, event |-> k, bad |-> bad]
=============================================================================
