----------------------------- MODULE SystemJudge -----------------------------
(* Trace validation: histories recorded from real systems (traces.ndjson) against System.tla.  Every recorded   *)
(* step has the event with its final arguments, the environment after it and what the system reports.  Writes    *)
(* the configuration of every solve (configs.ndjson) and every disagreement (fails.ndjson).                      *)
EXTENDS System, SequencesExt, Json, IOUtils, TLC
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES k, i, st
Out(f, r) == Serialize(ToJson(r) \o "\n", f,
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
ToSet2(s) == {s[x] : x \in 1..Len(s)}
T == Traces[k]
Ev == T.steps[i]
Env(r) == [E |-> r.E, qn |-> r.qn]
Wrong(s, r) ==
  (IF s.kept = ToSet2(r.obs.kept) THEN {} ELSE {"retained states"})
  \cup (IF Pairs(Env(r), s) = ToSet2(r.obs.pairs) THEN {} ELSE {"coherences"})
  \cup (IF s.o.kern = r.obs.kern /\ s.o.itype = r.obs.itype /\ s.o.mfree = r.obs.mfree /\ s.o.ix = r.obs.ix THEN {} ELSE {"options"})
  \cup (IF s.norm = r.obs.norm /\ s.symq = r.obs.symq THEN {} ELSE {"normalisation row or kernel form"})
  \cup (IF s.o.kern \notin VN2 \cup RTD /\ s.solm # r.obs.solm THEN {"solution method"} ELSE {})
  \cup (IF Sane(Env(r), s) /\ Restored(T.cf, s, Env(r)) THEN {} ELSE {"the specification itself"})
Config(s, r) ==
  [case |-> T.id, step |-> i, ver |-> s.ver, o |-> s.o, norm |-> s.norm, symq |-> s.symq, solm |-> s.solm,
   gone |-> SetToSeq(s.gone), ea |-> s.ea, rot |-> s.rot, kept |-> SetToSeq(s.kept), pairs |-> SetToSeq(Pairs(Env(r), s))]
Init == k = 1 /\ i = 0 /\ st = [op |-> "none"]
Next ==
  IF k > Len(Traces) THEN FALSE
  ELSE IF i = Len(T.steps) THEN k' = k + 1 /\ i' = 0 /\ st' = [op |-> "none"]
  ELSE LET r == T.steps[i+1]
           s == Adopt(IF i = 0 THEN Fresh(T.cf, Env(r)) ELSE Step(T.cf, st, r.e, Env(r)), r.obs.solm) IN
       /\ st' = s /\ i' = i + 1 /\ UNCHANGED k
       /\ (IF i > 0 /\ ~Enabled(T.cf, st, r.e)
           THEN Out("fails.ndjson", [case |-> T.id, step |-> i + 1, what |-> <<"event is not enabled">>]) ELSE TRUE)
       /\ (IF Wrong(s, r) # {} THEN Out("fails.ndjson", [case |-> T.id, step |-> i + 1, what |-> SetToSeq(Wrong(s, r))]) ELSE TRUE)
       /\ (IF r.e.op = "solve" /\ r.e.flags.master THEN Out("configs.ndjson", [Config(s, r) EXCEPT !.step = i + 1]) ELSE TRUE)
Spec == Init /\ [][Next]_<<k, i, st>>
=============================================================================
