------------------------------ MODULE TraceFiles -----------------------------
(***************************************************************************)
(* Recorded runs of the loading pipeline on a directory of problem files:  *)
(*   parsed   file name -> sequents, relations by value at an assignment   *)
(*   merged   file name -> examples (what was about to be stored)          *)
(*   stored   file name -> examples read back, by the map and by the       *)
(*            generator                                                    *)
(***************************************************************************)
EXTENDS TraceRel

ValOk(r, env, o) ==
  LET a == ValueOf(r.a, env)
      b == ValueOf(r.b, env)
  IN IF o.dec # "" THEN OpHolds(r.r, RCmp(a, b)) = (o.dec = "true")
     ELSE o.op = r.r /\ REq(a, o.a) /\ REq(b, o.b)
MergedOk(r, o) ==
  LET W(s) == RelHolds(r.r, s)
  IN o.r \in {"true", "false", r.r} /\ (o.r \in {"true", "false"} \/ o.rhs0) /\ PairOk(r, o, W)

ListOk(rs, os, Ok(_, _)) == Len(rs) = Len(os) /\ \A i \in 1 .. Len(rs) : Ok(rs[i], os[i])
SeqsOk(seqs, os, Ok(_, _)) ==
  Len(seqs) = Len(os) /\ \A i \in 1 .. Len(seqs) :
     ListOk(seqs[i].ante, os[i].ante, Ok) /\ ListOk(seqs[i].succ, os[i].succ, Ok)
FilesOk(files, m, Ok(_, _)) ==
  /\ DOMAIN m = {files[i].name : i \in 1 .. Len(files)}
  /\ \A i \in 1 .. Len(files) : SeqsOk(files[i].seqs, m[files[i].name], Ok)

JudgeFiles(e) ==
  IF e.out.kind # "val" THEN "no-answer-" \o e.out.kind
  ELSE LET V(r, o) == ValOk(r, e.env, o)
           v == e.out.v
       IN IF ~FilesOk(e.files, v.parsed, V) THEN "parsed-files-differ"
          ELSE IF ~FilesOk(e.files, v.merged, MergedOk) THEN "merged-examples-differ"
          ELSE IF v.stored # v.merged THEN "read-back-differs"
          ELSE IF v.streamed # v.merged THEN "streamed-examples-differ"
          ELSE IF ~v.equal THEN "read-back-not-equal"
          ELSE "ok"
=============================================================================
