------------------------------- MODULE Frame -------------------------------
(* Histories of uses of operators and of what the user does in between; TLC   *)
(* generates them and checks what the definitions promise.                    *)
EXTENDS FrameDef

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, st, hist, phase
vars == <<ci, st, hist, phase>>
K == Cases[ci]

Init == ci \in 1..Len(Cases) /\ st = Start(Cases[ci]) /\ hist = <<>> /\ phase = "run"
\* short histories: use, then overwrite the result, the argument or the parameters, then
\* the same use again (all of them are explored)
Short(e) == CASE Len(hist) = 0 -> e.a = "use" /\ e.arg = 1
              [] Len(hist) = 1 -> e.a \in {"spoil", "change", "update"}
              [] Len(hist) = 2 -> e = hist[1].e
              [] OTHER -> FALSE
Do(events) ==
    /\ phase = "run" /\ Len(hist) < K.depth
    /\ \E e \in events : \E out \in Outcomes(K, st, e) :
          /\ K.short => Short(e)
          /\ st' = out.S
          /\ hist' = Append(hist, [e |-> e, raised |-> out.raised, ver |-> out.ver, pv |-> st.pv, w |-> out.S.w])
    /\ UNCHANGED <<ci, phase>>
\* separate actions: the simulator draws an action first
UseEvent == Do(Uses(K))
BadEvent == Do(Bad(K))
FailEvent == Do(Fails(K))
UserEvent == Do(User(K, st))
Done == /\ phase = "run" /\ Len(hist) = K.depth
        /\ phase' = "done"
        /\ Emit([case |-> K.id, hist |-> [i \in 1..Len(hist) |-> hist[i].e]])
        /\ UNCHANGED <<ci, st, hist>>
Spec == Init /\ [][UseEvent \/ BadEvent \/ FailEvent \/ UserEvent \/ Done]_vars

IsUse(e) == e.a \in {"use", "bad", "fault"}
\* using an operator leaves every component of the world alone
Untouched == \A i \in 1..Len(hist) : IsUse(hist[i].e) =>
                hist[i].w = IF i = 1 THEN [x \in Comps |-> 0] ELSE hist[i - 1].w
\* ... and the user changes only what the action says
OnlyOwn == \A i \in 2..Len(hist) : Cardinality({x \in Comps : hist[i].w[x] # hist[i - 1].w[x]}) <= 1
\* an answer depends on the operator, the query and the parameters alone: two good
\* answers of an operator that computes anew agree unless parameters changed
SameAnswer == \A i, j \in 1..Len(hist) :
    (/\ i < j /\ hist[i].ver # 0 /\ hist[j].ver # 0
     /\ hist[i].e.o = hist[j].e.o /\ hist[i].e.q = hist[j].e.q
     /\ \/ Cached(K, hist[j].e) /\ Query(K, hist[j].e) # "state"
        \/ ~ \E m \in i..j : hist[m].e.a = "update")
        => hist[i].ver = hist[j].ver
\* answers belong to a version of the parameters that existed by then
Current == \A i \in 1..Len(hist) : hist[i].ver <= hist[i].pv
\* a failed call leaves no half-computed factors: the next answer is of its own time
\* or of an earlier complete computation
Whole == \A b \in 1..K.nbase : st.froz[b] \in 0..st.pv
=============================================================================
