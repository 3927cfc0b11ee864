---------------------------- MODULE KfacLifeTrace ----------------------------
(* Validates histories recorded from real operators: every event's            *)
(* observation (value symbols the result equals, batches read, exception)     *)
(* must be an outcome of KfacLife.  A trace is accepted iff TLC can reach its *)
(* end; where it cannot go on, the possible outcomes are printed.             *)
EXTENDS KfacLifeDef

VARIABLES ti, i, st, alive
vars == <<ti, i, st, alive>>
Traces == JsonDeserialize(IOEnv.CASES)

T == Traces[ti]
\* the observation o of an event is explained by the outcome out
Explains(c, out, o) ==
    /\ out.raised = o.raised
    /\ out.raised = "" => \/ out.res = <<>>
                          \/ \E m \in 1..Len(o.match) : o.match[m] = out.res
    /\ CASE out.pass = "none" -> o.read = 0
         [] out.pass = "full" -> o.read = c.nb
         [] OTHER -> TRUE

Init == ti \in 1..Len(Traces) /\ i = 1 /\ st = Start(Traces[ti].case) /\ alive = TRUE
Fits(c, s, ev) == {out \in Outcomes(c, s, ev.e) : Explains(c, out, ev.o)}
Next == /\ alive
        /\ IF i > Len(T.events)
           THEN /\ Emit([case |-> T.id, kind |-> "accepted"])
                /\ alive' = FALSE /\ UNCHANGED <<ti, i, st>>
           ELSE LET ev == T.events[i] fits == Fits(T.case, st, ev)
                IN  IF fits = {}
                    THEN /\ Emit([case |-> T.id, kind |-> "stuck", at |-> i,
                                  allowed |-> {[res |-> out.res, pass |-> out.pass, raised |-> out.raised] :
                                                   out \in Outcomes(T.case, st, ev.e)}])
                         /\ alive' = FALSE /\ UNCHANGED <<ti, i, st>>
                    ELSE /\ \E out \in fits : st' = out.S
                         /\ i' = i + 1 /\ UNCHANGED <<ti, alive>>
Spec == Init /\ [][Next]_vars
=============================================================================
