----------------------------- MODULE FrameTrace -----------------------------
(* Validates histories recorded from real operators against FrameDef.  Each   *)
(* event's observation gives                                                  *)
(*   raised  "" | "boom" | "other"                                            *)
(*   match   parameter versions whose undisturbed answer equals the one seen  *)
(*   w       digest of every component of the world after the event           *)
(*   res     digests of all results handed out so far                         *)
(* and w0 the digests at the start.                                           *)
EXTENDS FrameDef

VARIABLES ti, i, st, w, res, alive
vars == <<ti, i, st, w, res, alive>>
Traces == JsonDeserialize(IOEnv.CASES)
T == Traces[ti]

In(x, s) == \E k \in 1..Len(s) : s[k] = x
Changed(a, b) == {x \in Comps : a[x] # b[x]}
\* results seen before the event stay as they were, except the one the user overwrites
Kept(e, o) == /\ Len(o.res) = Len(res) + (IF o.new THEN 1 ELSE 0)
              /\ \A k \in 1..Len(res) : o.res[k] = res[k] \/ (e.a = "spoil" /\ e.r = k)
Explains(out, e, o) ==
    /\ out.raised = o.raised
    /\ Changed(w, o.w) \subseteq out.touched
    /\ Kept(e, o)
    /\ out.ver # 0 => o.new /\ In(out.ver, o.match)
    /\ out.ver = 0 => ~ o.new

Init == /\ ti \in 1..Len(Traces) /\ i = 1 /\ alive = TRUE
        /\ st = Start(Traces[ti].case) /\ w = Traces[ti].w0 /\ res = <<>>
Next == /\ alive
        /\ IF i > Len(T.events)
           THEN /\ Emit([case |-> T.id, kind |-> "accepted"])
                /\ alive' = FALSE /\ UNCHANGED <<ti, i, st, w, res>>
           ELSE LET ev == T.events[i]
                    fits == TLCEval({out \in Outcomes(T.case, st, ev.e) : Explains(out, ev.e, ev.o)})
                IN  IF fits = {}
                    THEN /\ Emit([case |-> T.id, kind |-> "stuck", at |-> i,
                                  changed |-> Changed(w, ev.o.w),
                                  spoiled |-> {k \in 1..Len(res) : Len(ev.o.res) >= k /\ ev.o.res[k] # res[k]},
                                  allowed |-> {[raised |-> out.raised, ver |-> out.ver, touched |-> out.touched] :
                                                   out \in Outcomes(T.case, st, ev.e)}])
                         /\ alive' = FALSE /\ UNCHANGED <<ti, i, st, w, res>>
                    ELSE /\ \E out \in fits : st' = out.S
                         /\ w' = ev.o.w /\ res' = ev.o.res
                         /\ i' = i + 1 /\ UNCHANGED <<ti, alive>>
Spec == Init /\ [][Next]_vars
=============================================================================
