----------------------------- MODULE SwitchesGen -----------------------------
(* Random histories of Switches.tla, each with the effective choice expected after every event. *)
EXTENDS Switches, TLC, Json, IOUtils
CONSTANT Depth
VARIABLES hist, first
Out(r) == Serialize(ToJson(r) \o "\n", "switches.ndjson",
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Log(op) == hist' = Append(hist, [op |-> op, on |-> on', impl |-> impl', eff |-> eff', by |-> by'])
InitG == Init /\ hist = <<>> /\ first = [on |-> on, impl |-> impl]
NextG == /\ Len(hist) < Depth
         /\ \/ Switch /\ Log("switch")
            \/ Remove /\ Log("remove")
            \/ Restore /\ Log("restore")
            \/ Change /\ Log("change")
            \/ Solve /\ Log("solve")
            \/ Solve /\ Log("solve")
         /\ UNCHANGED first
         /\ IF Len(hist') = Depth THEN Out([first |-> first, steps |-> hist']) ELSE TRUE
SpecG == InitG /\ [][NextG]_<<vars, hist, first>>
=============================================================================
