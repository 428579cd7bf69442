----------------------------- MODULE AprilTrace -----------------------------
(***************************************************************************)
(* Trace validation: every recorded execution of a program by the real     *)
(* April compiler and virtual machine must be a behaviour of the abstract  *)
(* machine.  A run is [p |-> program, id |-> label, trace |-> lines]; the  *)
(* last line is "<end>" when the program ended normally.                   *)
(***************************************************************************)
EXTENDS April, Json, IOUtils, TLC

Input == JsonDeserialize(IOEnv.APRIL_INPUT)
ProgsDef == Input.progs
Runs == Input.runs

VARIABLES r, pos, m
vars == <<r, pos, m>>

Line(i) == IF i <= Len(Runs[r].trace) THEN Runs[r].trace[i] ELSE "<nothing>"

Verdict(what, exp) ==
    PrintT("VERDICT " \o what \o " " \o ToString(r) \o " " \o ToString(pos)
           \o " spec=[" \o exp \o "] code=[" \o Line(pos + 1) \o "]")

Init == /\ r \in 1..Len(Runs)
        /\ pos = 0
        /\ m = InitM(Runs[r].p)

Silent == /\ m.st = "run"
          /\ m' = Run(m)
          /\ UNCHANGED <<r, pos>>

\* The code printed the line that the machine prints.
Emit == /\ m.st = "emit"
        /\ Line(pos + 1) = m.o
        /\ pos' = pos + 1
        /\ m' = Run([m EXCEPT !.st = "run", !.o = ""])
        /\ UNCHANGED r

Accept == /\ m.st = "done"
          /\ Line(pos + 1) = "<end>"
          /\ Verdict("ACCEPT", "<end>")
          /\ m' = [m EXCEPT !.st = "accepted"]
          /\ pos' = pos + 1
          /\ UNCHANGED r

Reject == /\ \/ m.st = "emit" /\ Line(pos + 1) # m.o
             \/ m.st = "done" /\ Line(pos + 1) # "<end>"
             \/ m.st = "stuck"
          /\ Verdict(IF m.st = "stuck" THEN "STUCK" ELSE "REJECT",
                     IF m.st = "done" THEN "<end>" ELSE m.o)
          /\ m' = [m EXCEPT !.st = "rejected"]
          /\ UNCHANGED <<r, pos>>

Next == Silent \/ Emit \/ Accept \/ Reject
Spec == Init /\ [][Next]_vars

InvFinally == FinallyOnce(m)
InvFrames  == FramesMatch(m)
InvValues  == StateOK(m)
InvDone    == DoneClean(m)
=============================================================================
