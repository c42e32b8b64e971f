----------------------------- MODULE MatrixCache -----------------------------
(***************************************************************************)
(* The two-level cache of sign matrices: a dictionary per process over a   *)
(* directory shared by all processes.  Processes start, ask for matrices,  *)
(* and may die at every step, also half way through writing a file.        *)
(*                                                                         *)
(* A matrix is asked for by <<kind, n>>.  The value of size n is made from *)
(* the value of size n - 1, an inverse from the matrix of the same size,   *)
(* so one request may recurse over several entries; the recursion is the   *)
(* stack of the process.                                                   *)
(*                                                                         *)
(* Values are abstract here: Good(k) is the right value for key k; a       *)
(* partially written file reads as Junk.  MatrixValue says what the right  *)
(* values are.                                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Procs, MaxN, Budget,
          Atomic     \* TRUE: write a private file, then rename it (the code);
                     \* FALSE: write in place (what it did before the repair)

Kinds == {"mat", "inv"}
Keys  == Kinds \X (1 .. MaxN)
Junk  == <<"junk", 0>>
None  == <<"none", 0>>
Good(k) == k

VARIABLES up,        \* running processes
          mem,       \* mem[p]: key -> value or None
          disk,      \* disk[k]: value, Junk (partially written) or None
          tmp,       \* tmp[p]: None, Junk or a complete value, the private file
          stack,     \* stack[p]: keys being made, innermost last; << >> when idle
          pc,        \* pc[p]: what p does next for the innermost key
          got,       \* got[p]: value just delivered to the level above, or None
          answers,   \* everything that was ever returned to a caller
          budget     \* requests and deaths left (bounds the model)
vars == <<up, mem, disk, tmp, stack, pc, got, answers, budget>>

Fresh == [k \in Keys |-> IF k[2] = 1 THEN Good(k) ELSE None]

Init == /\ up = {} /\ mem = [p \in Procs |-> Fresh] /\ disk = [k \in Keys |-> None]
        /\ tmp = [p \in Procs |-> None] /\ stack = [p \in Procs |-> << >>]
        /\ pc = [p \in Procs |-> "idle"] /\ got = [p \in Procs |-> None]
        /\ answers = {} /\ budget = Budget

Top(p) == stack[p][Len(stack[p])]
Needs(k) == IF k[1] = "inv" THEN <<"mat", k[2]>> ELSE <<"mat", k[2] - 1>>
\* what is computed for k out of the value v of Needs(k)
Made(k, v) == IF v = Good(Needs(k)) THEN Good(k) ELSE Junk

Start(p) == /\ p \notin up /\ up' = up \union {p}
            /\ mem' = [mem EXCEPT ![p] = Fresh] /\ stack' = [stack EXCEPT ![p] = << >>]
            /\ pc' = [pc EXCEPT ![p] = "idle"] /\ got' = [got EXCEPT ![p] = None]
            /\ tmp' = [tmp EXCEPT ![p] = None]      \* a new private name
            /\ UNCHANGED <<disk, answers, budget>>

Die(p) == /\ p \in up /\ budget > 0 /\ budget' = budget - 1 /\ up' = up \ {p}
          /\ pc' = [pc EXCEPT ![p] = "idle"] /\ stack' = [stack EXCEPT ![p] = << >>]
          /\ got' = [got EXCEPT ![p] = None] /\ tmp' = [tmp EXCEPT ![p] = None]
          /\ mem' = [mem EXCEPT ![p] = Fresh]
          /\ UNCHANGED <<disk, answers>>

Call(p, k) == /\ p \in up /\ pc[p] = "idle" /\ budget > 0 /\ budget' = budget - 1
              /\ stack' = [stack EXCEPT ![p] = <<k>>] /\ pc' = [pc EXCEPT ![p] = "look"]
              /\ UNCHANGED <<up, mem, disk, tmp, got, answers>>

\* deliver v for the innermost key: to the level above or to the caller
Deliver(p, v) ==
  IF Len(stack[p]) = 1
  THEN /\ stack' = [stack EXCEPT ![p] = << >>] /\ pc' = [pc EXCEPT ![p] = "idle"]
       /\ got' = [got EXCEPT ![p] = None] /\ answers' = answers \union {<<Top(p), v>>}
  ELSE /\ stack' = [stack EXCEPT ![p] = SubSeq(@, 1, Len(@) - 1)]
       /\ pc' = [pc EXCEPT ![p] = "make"] /\ got' = [got EXCEPT ![p] = v]
       /\ UNCHANGED answers

Look(p) ==
  /\ p \in up /\ pc[p] = "look"
  /\ LET k == Top(p)
     IN IF mem[p][k] # None
        THEN Deliver(p, mem[p][k])
        ELSE /\ pc' = [pc EXCEPT ![p] = IF disk[k] # None THEN "read" ELSE "descend"]
             /\ UNCHANGED <<stack, got, answers>>
  /\ UNCHANGED <<up, mem, disk, tmp, budget>>

Read(p) ==
  /\ p \in up /\ pc[p] = "read"
  /\ mem' = [mem EXCEPT ![p][Top(p)] = disk[Top(p)]]
  /\ Deliver(p, disk[Top(p)])
  /\ UNCHANGED <<up, disk, tmp, budget>>

Descend(p) ==
  /\ p \in up /\ pc[p] = "descend"
  /\ stack' = [stack EXCEPT ![p] = Append(@, Needs(Top(p)))]
  /\ pc' = [pc EXCEPT ![p] = "look"]
  /\ UNCHANGED <<up, mem, disk, tmp, got, answers, budget>>

\* the value is computed and the file is opened (and, when not Atomic, truncated)
Make(p) ==
  /\ p \in up /\ pc[p] = "make"
  /\ IF Atomic THEN tmp' = [tmp EXCEPT ![p] = Junk] /\ UNCHANGED disk
               ELSE disk' = [disk EXCEPT ![Top(p)] = Junk] /\ UNCHANGED tmp
  /\ pc' = [pc EXCEPT ![p] = "write"]
  /\ UNCHANGED <<up, mem, stack, got, answers, budget>>

\* the last byte is written
Write(p) ==
  /\ p \in up /\ pc[p] = "write"
  /\ LET v == Made(Top(p), got[p])
     IN IF Atomic THEN tmp' = [tmp EXCEPT ![p] = v] /\ UNCHANGED disk
                  ELSE disk' = [disk EXCEPT ![Top(p)] = v] /\ UNCHANGED tmp
  /\ pc' = [pc EXCEPT ![p] = IF Atomic THEN "rename" ELSE "keep"]
  /\ UNCHANGED <<up, mem, stack, got, answers, budget>>

Rename(p) ==
  /\ p \in up /\ pc[p] = "rename"
  /\ disk' = [disk EXCEPT ![Top(p)] = tmp[p]] /\ tmp' = [tmp EXCEPT ![p] = None]
  /\ pc' = [pc EXCEPT ![p] = "keep"]
  /\ UNCHANGED <<up, mem, stack, got, answers, budget>>

Keep(p) ==
  /\ p \in up /\ pc[p] = "keep"
  /\ LET v == Made(Top(p), got[p])
     IN mem' = [mem EXCEPT ![p][Top(p)] = v] /\ Deliver(p, v)
  /\ UNCHANGED <<up, disk, tmp, budget>>

Step(p) == Look(p) \/ Read(p) \/ Descend(p) \/ Make(p) \/ Write(p) \/ Rename(p) \/ Keep(p)
Next == \E p \in Procs : \/ Start(p) \/ Die(p) \/ Step(p)
                         \/ \E k \in Keys : Call(p, k)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))

TypeOk == /\ up \subseteq Procs /\ \A p \in Procs : Len(stack[p]) <= MaxN + 1
AnswersRight == \A a \in answers : a[2] = Good(a[1])
DiskWhole == \A k \in Keys : disk[k] \in {None, Good(k)}
MemRight == \A p \in Procs : \A k \in Keys : mem[p][k] \in {None, Good(k)}
\* a living process answers every request
Answered == \A p \in Procs : (pc[p] # "idle") ~> (pc[p] = "idle")
=============================================================================
