------------------------------ MODULE Driver ------------------------------
(* Turns a contract specification given as a deterministic step function   *)
(* into a TLC behaviour specification, and optionally writes every         *)
(* transition TLC generates as one JSON line to the file named by the      *)
(* environment variable TRACE_OUT, so that the harness can replay it in    *)
(* the real contracts:                                                     *)
(*   {"root":n,"cfg":..,"obs":..}                       an initial state    *)
(*   {"p":n,"n":m,"q":request,"err":[guards],"out":..,"obs":..}            *)
(* Node numbers are written by the step that creates them; a state reached *)
(* again gets a new number that is never expanded (TLC's VIEW ignores it), *)
(* so the lines form a tree that covers every transition of the graph.     *)
EXTENDS Naturals, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS Inits,        \* set of initial states of the specification
          Step(_, _),   \* Step(st, q) = [st |-> next, err |-> {guards}, out |-> output]
          Reqs(_),      \* the requests explored in a state
          Obs(_),       \* what can be observed of a state
          CfgOf(_)      \* how the harness must set up the initial state
VARIABLES st, id, last
vars == <<st, id, last>>

TraceFile == IF "TRACE_OUT" \in DOMAIN IOEnv THEN IOEnv.TRACE_OUT ELSE ""

Fresh == LET n == TLCGet(1) + 1 IN IF TLCSet(1, n) THEN n ELSE n
Write(rec) == IF TraceFile = "" THEN TRUE ELSE CSVWrite("%1$s", <<ToJson(rec)>>, TraceFile)

NoReq == [t |-> "Init"]

Init == /\ TLCSet(1, 0)
        /\ st \in Inits
        /\ last = [q |-> NoReq, err |-> {}, out |-> <<>>]
        /\ id = Fresh
        /\ Write([root |-> id, cfg |-> CfgOf(st), obs |-> Obs(st)])

Next == \E q \in Reqs(st) :
          LET r == Step(st, q) IN
          /\ st' = r.st
          /\ last' = [q |-> q, err |-> r.err, out |-> r.out]
          /\ id' = Fresh
          /\ Write(IF r.err = {}
                   THEN [p |-> id, n |-> id', q |-> q, err |-> r.err, out |-> r.out, obs |-> Obs(st')]
                   ELSE [p |-> id, n |-> id', q |-> q, err |-> r.err])
Spec == Init /\ [][Next]_vars
StateView == st
\* refused requests change nothing: holds of every contract, as the chain reverts a failed transaction
Atomic == [][last'.err # {} => st' = st]_vars
===========================================================================
