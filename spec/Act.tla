-------------------------------- MODULE Act --------------------------------
(* Loss Hessian with respect to an intermediate feature (C23).  A feature is  *)
(* the output of layer f (equivalently the input of layer f + 1).  The single *)
(* batch holds all data; data do not interact, so the matrix over (datum,     *)
(* entry) is block diagonal.  TLC visits every feature of every case.         *)
EXTENDS Curv, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Emit(x) == PrintT("@@" \o ToJson(x))

VARIABLES ci, f, phase, tab
vars == <<ci, f, phase, tab>>
K == Cases[ci]

FeatureLen(c, l) == LET a == Activations(c.layers, c.params, c.x[1], NoSeed, NoSeed) IN Len(a[l + 1])
Seeds(c, l) == [e \in 1..FeatureLen(c, l) |-> <<"o", l, e>>]

Init == /\ ci \in 1..Len(Cases)
        /\ f \in 1..Len(Cases[ci].layers)
        /\ phase = "start" /\ tab = <<>>
\* one pass over the batch: forward, then second derivatives per datum
Run == /\ phase = "start"
       /\ phase' = "done"
       /\ tab' = LET s == Seeds(K, f) IN TLCEval([n \in 1..NData(K) |->
                    LET d == DatumAt(K, n, s, TRUE) IN [gn |-> d.gn, rs |-> d.rs, gr |-> d.gr]])
       /\ Emit([case |-> K.id, kind |-> "feature", layer |-> f, norm |-> Norm(K, NData(K)),
                dim |-> FeatureLen(K, f), gn |-> [n \in 1..NData(K) |-> tab'[n].gn],
                rs |-> [n \in 1..NData(K) |-> tab'[n].rs]])
       /\ UNCHANGED <<ci, f>>
Spec == Init /\ [][Run]_vars

\* the feature at the end of the network has the loss's own Hessian: no
\* residual part, positive semi-definite
LastFeature == (phase = "done" /\ f = Len(K.layers)) =>
    \A n \in 1..NData(K) : /\ MEq(tab[n].rs, MZero(Len(tab[n].gr), Len(tab[n].gr)))
                           /\ MPsd(tab[n].gn)
Symmetric == phase = "done" => \A n \in 1..NData(K) : MSym(tab[n].gn) /\ MSym(tab[n].rs)
=============================================================================
