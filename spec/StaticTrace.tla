---------------------------- MODULE StaticTrace ----------------------------
(***************************************************************************)
(* Every recorded outcome must be the one that the static rules demand: a  *)
(* program that keeps them is compiled and runs, one that breaks a rule is *)
(* refused with an error and not a line of it runs.                        *)
(***************************************************************************)
EXTENDS Static, Json, IOUtils

Input == JsonDeserialize(IOEnv.APRIL_INPUT)
Runs == Input.runs
VARIABLES r, verdict
vars == <<r, verdict>>

Expected(p) == LET j == Judge(p)
               IN  IF j = "ok" THEN <<"start", "<end>">>
                   ELSE IF j = "bad" THEN <<"<refused>">> ELSE <<>>

Line(i) == IF i <= Len(Runs[r].trace) THEN Runs[r].trace[i] ELSE "<nothing>"

Init == r \in 1..Len(Runs) /\ verdict = ""
Compare(e) == IF e = <<>> THEN "STUCK" ELSE IF Runs[r].trace = e THEN "ACCEPT" ELSE "REJECT"
Next == /\ verdict = ""
        /\ LET p == Input.progs[Runs[r].p]
               e == TLCEval(Expected(p))
               v == Compare(e)
           IN  /\ verdict' = v
               /\ PrintT("VERDICT " \o v \o " " \o ToString(r) \o " 0 spec=["
                         \o (IF e = <<>> THEN "?" ELSE e[1]) \o "] code=[" \o Line(1) \o "]"
                         \o (IF v = "ACCEPT" THEN "" ELSE " at " \o ToString(Where(p))))
        /\ UNCHANGED r
Spec == Init /\ [][Next]_vars
Judged == verdict \in {"", "ACCEPT", "REJECT", "STUCK"}
=============================================================================
