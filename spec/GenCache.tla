------------------------------- MODULE GenCache ------------------------------
(***************************************************************************)
(* Histories of processes sharing a cache directory, as commands to a      *)
(* scheduler: start a process, let it begin a request, let it take k       *)
(* file-system steps, let it finish, kill it where it stands.  The last    *)
(* part of every history is a new process that asks for everything again.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV
CONSTANTS NProc, MaxN, Steps
VARIABLES hist, st, asked, stage
Procs == 1 .. NProc
Cmd(c, p) == [c |-> c, p |-> p, kind |-> "", n |-> 0, k |-> 0]
Add(x) == hist' = Append(hist, x)
Init == hist = << >> /\ st = [p \in Procs |-> "down"] /\ asked = {} /\ stage = "run"
Go == stage = "run" /\ Len(hist) < Steps
Start(p) == Go /\ st[p] = "down" /\ st' = [st EXCEPT ![p] = "idle"] /\ Add(Cmd("start", p)) /\ UNCHANGED <<asked, stage>>
Boot(p) == Go /\ st[p] = "down" /\ st' = [st EXCEPT ![p] = "busy"] /\ Add(Cmd("boot", p)) /\ UNCHANGED <<asked, stage>>
Call(p) == /\ Go /\ st[p] = "idle" /\ st' = [st EXCEPT ![p] = "busy"]
           /\ \E q \in {RandomElement({"mat", "inv"} \X (2 .. MaxN))} :
                 /\ Add([c |-> "call", p |-> p, kind |-> q[1], n |-> q[2], k |-> 0])
                 /\ asked' = asked \union {q}
           /\ UNCHANGED stage
Run(p) == /\ Go /\ st[p] = "busy" /\ \E k \in {RandomElement({1, 1, 2, 3, 5, 8, 13})} : Add([Cmd("run", p) EXCEPT !.k = k])
          /\ UNCHANGED <<st, asked, stage>>
Finish(p) == /\ Go /\ st[p] = "busy" /\ st' = [st EXCEPT ![p] = "idle"] /\ Add(Cmd("finish", p)) /\ UNCHANGED <<asked, stage>>
Kill(p) == /\ Go /\ st[p] = "busy" /\ st' = [st EXCEPT ![p] = "down"] /\ Add(Cmd("kill", p)) /\ UNCHANGED <<asked, stage>>
\* the survivors finish, then a new process asks for everything
RECURSIVE Finishes(_), Asks(_)
Finishes(P) == IF P = {} THEN << >> ELSE LET p == CHOOSE p \in P : TRUE IN <<Cmd("finish", p)>> \o Finishes(P \ {p})
Asks(Q) == IF Q = {} THEN << >>
           ELSE LET q == CHOOSE q \in Q : TRUE
                IN <<[c |-> "call", p |-> NProc + 1, kind |-> q[1], n |-> q[2], k |-> 0], Cmd("finish", NProc + 1)>> \o Asks(Q \ {q})
End == /\ stage = "run" /\ Len(hist) >= Steps /\ stage' = "done"
       /\ LET h == hist \o Finishes({p \in Procs : st[p] = "busy"}) \o <<Cmd("start", NProc + 1)>> \o Asks(asked)
          IN hist' = h /\ CSVWrite("%1$s", <<ToJson([h |-> h])>>, "stim.ndjson")
       /\ UNCHANGED <<st, asked>>
Next == (\E p \in Procs : Start(p) \/ Boot(p) \/ Call(p) \/ Run(p) \/ Finish(p) \/ Kill(p)) \/ End
=============================================================================
