------------------------------- MODULE GenFiles ------------------------------
(***************************************************************************)
(* Directories of problem files: several files, several sequents per file, *)
(* polynomial relations in several variables, comments and blank space     *)
(* between sequents.                                                       *)
(***************************************************************************)
EXTENDS ExprGen, Json, CSV
CONSTANTS MaxFiles, MaxSeqs, MaxRels, MaxDepth
VARIABLES files, cur, stage, vs, want

Names == <<"x", "y", "z", "skoX", "skoY", "skoC", "t", "x_1">>
FileNames == <<"abs-problem-1.smt", "b.txt", "CONVOI2-sincos.0050", "d", "sqrt-1mcosq-7.0207.tptp", "f_6", "z10">>
Between(z) == OneOf(<<"\n", "\n\n", " ", "; a comment\n", "\n;; (not a command)\n", "">>)
Dyadic == << <<0, 1>>, <<1, 1>>, <<-1, 1>>, <<2, 1>>, <<1, 2>>, <<-3, 2>>, <<5, 1>>, <<-7, 3>> >>
Env(z) == [v \in {vs[i] : i \in 1 .. Len(vs)} |-> Dyadic[RInt(1, Len(Dyadic))]]
DrawRel(z) == [r |-> OneOf(RelOps), a |-> DrawPolyText(RInt(0, MaxDepth), vs),
               b |-> IF RInt(1, 2) = 1 THEN IntLit(0) ELSE DrawPolyText(RInt(0, MaxDepth - 1), vs)]
Small(r) == Degree(r.a) <= 8 /\ Degree(r.b) <= 8
RECURSIVE GoodRel(_)
GoodRel(z) == LET r == TLCEval(DrawRel(z)) IN IF Small(r) THEN r ELSE GoodRel(z)
DrawRels(z) == LET k == RInt(0, MaxRels) IN TLCEval([i \in 1 .. k |-> GoodRel(i)])

NoFile == [name |-> "", seqs |-> << >>, text |-> ""]
Init == files = << >> /\ cur = NoFile /\ stage = "start" /\ vs = <<"x">> /\ want = 0
Start == /\ stage = "start" /\ stage' = "file"
         /\ want' = RInt(1, MaxFiles)
         /\ vs' = LET k == RInt(1, 4) IN TLCEval([i \in 1 .. k |-> OneOf(Names)])
         /\ UNCHANGED <<files, cur>>
Open == /\ stage = "file" /\ Len(files) < want /\ stage' = "seq"
        /\ cur' = [name |-> FileNames[Len(files) + 1], seqs |-> << >>, text |-> Between(0)]
        /\ UNCHANGED <<files, vs, want>>
AddSeq == /\ stage = "seq" /\ Len(cur.seqs) < MaxSeqs
          /\ \E q \in {TLCEval([name |-> OneOf(<<"a", "b c", "p.0001">>), ante |-> DrawRels(0), succ |-> DrawRels(0)])} :
               cur' = TLCEval([cur EXCEPT !.seqs = Append(@, q),
                                  !.text = @ \o SeqText(q.name, q.ante, q.succ) \o Between(0)])
          /\ UNCHANGED <<files, stage, vs, want>>
Close == /\ stage = "seq" /\ stage' = "file" /\ files' = Append(files, cur) /\ cur' = NoFile
         /\ UNCHANGED <<vs, want>>
End == /\ stage = "file" /\ Len(files) = want /\ stage' = "done"
       /\ CSVWrite("%1$s", <<ToJson([files |-> files, env |-> TLCEval(Env(0))])>>, "stim.ndjson")
       /\ UNCHANGED <<files, cur, vs, want>>
Next == Start \/ Open \/ AddSeq \/ Close \/ End
=============================================================================
