------------------------------ MODULE KfacLife ------------------------------
(* Histories of KFAC operators (see KfacLifeDef): TLC generates them and      *)
(* checks the life cycle's guarantees.                                        *)
EXTENDS KfacLifeDef

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, st, hist, phase
vars == <<ci, st, hist, phase>>
K == Cases[ci]

Init == ci \in 1..Len(Cases) /\ st = Start(Cases[ci]) /\ hist = <<>> /\ phase = "run"
\* one action per kind of event, so that simulation chooses them equally often
Step(kinds) ==
        /\ phase = "run" /\ Len(hist) < K.depth
        /\ \E e \in {x \in Events(K, st) : x.a \in kinds} : \E out \in Outcomes(K, st, e) :
              st' = out.S /\ hist' = Append(hist, [e |-> e, res |-> out.res, raised |-> out.raised])
        /\ UNCHANGED <<ci, phase>>
Done == /\ phase = "run" /\ Len(hist) = K.depth
        /\ phase' = "done"
        /\ Emit([case |-> K.id, hist |-> [i \in 1..Len(hist) |-> hist[i].e]])
        /\ UNCHANGED <<ci, st, hist>>
Use == Step({"use"})
UseInverse == Step({"inv"})
Fault == Step({"fault"})
Run == Step({"run", "set"})
Save == Step({"save"})
Load == Step({"load"})
New == Step({"new"})
Bad == Step({"bad"})
SaveInv == Step({"saveinv"})
LoadInv == Step({"loadinv", "newinv"})
Next == Use \/ UseInverse \/ Fault \/ Run \/ Save \/ Load \/ New \/ Bad \/ SaveInv \/ LoadInv \/ Done
Spec == Init /\ [][Next]_vars

UsesOp(h, o) == h.e.a = "use" /\ h.e.o = o /\ h.raised = ""
Replaces(c, h, o) == (h.e.a \in {"load", "new"} /\ h.e.o = o) \/ (h.e.a \in {"loadinv", "newinv"} /\ c.invop[h.e.i] = o)
\* C14: all results of an operator agree until other factors are loaded
ResultsStable == \A i, j \in 1..Len(hist) : \A o \in 1..K.nops :
    (i < j /\ UsesOp(hist[i], o) /\ UsesOp(hist[j], o) /\ ~ \E m \in i..j : Replaces(K, hist[m], o))
        => hist[i].res = hist[j].res
\* C14: factors are complete: a value always carries settings and parameters
Complete == \A o \in 1..K.nops : Len(st.ops[o].fac) \in {0, 2}
\* C15: what is loaded behaves as the source did when it was saved
RestoreEquivalent == \A i, j, m \in 1..Len(hist) : \A o, p \in 1..K.nops : \A s \in 1..NSlots :
    (/\ i < j /\ j < m
     /\ UsesOp(hist[i], o) /\ UsesOp(hist[m], p)
     /\ hist[j].e.a = "load" /\ hist[j].e.o = p /\ hist[j].e.s = s
     /\ \E q \in (i + 1)..(j - 1) :
           /\ hist[q].e.a = "save" /\ hist[q].e.o = o /\ hist[q].e.s = s
           /\ ~ \E r \in i..q : Replaces(K, hist[r], o)
           /\ ~ \E r \in (q + 1)..(j - 1) : hist[r].e.a = "save" /\ hist[r].e.s = s
     /\ ~ \E r \in (j + 1)..m : Replaces(K, hist[r], p)) => hist[m].res = hist[i].res
\* C17: a cached inverse is the inverse of the operator's factors
CacheFresh == \A i \in 1..Len(K.invop) : st.invs[i].cache # <<>> => st.invs[i].cache = st.ops[K.invop[i]].fac
=============================================================================
