---------------------------- MODULE KfacLifeDef ----------------------------
(* Life cycle of KFAC operators, their inverses and state dictionaries (C14,  *)
(* C15, C17).  The value of Kronecker factors is a symbol <<cfg, pv>>: the    *)
(* operator's settings and the version of the model parameters at the time of *)
(* the complete pass over the data; <<>> means not computed.  A case gives    *)
(*   nops, opmodel, opcfg    operators, their models and initial settings     *)
(*   nmod, modpv             models and initial parameter versions            *)
(*   invop, invmode, invon   inverses: operator, damping mode, caching        *)
(*   acts                    actions that may occur;  depth: history length   *)
(*   brief                   restrict the variants of each action             *)
(* Outcomes(S, e) is the set of possible outcomes of event e in state S; it   *)
(* drives both the generation of histories (KfacLife) and the validation of       *)
(* recorded ones (KfacLifeTrace).                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Emit(x) == PrintT("@@" \o ToJson(x))
NSlots == 2
AllKinds == {"mat", "vec", "list", "adjoint", "scipy", "trace", "det", "logdet", "frob"}
Faults == {"data", "model", "mid", "loss", "backward"}
Has(c, a) == \E i \in 1..Len(c.acts) : c.acts[i] = a
\* failure of any one tensor operation during a call ("at": how deep into the call)
OpFaults(c) == {[a |-> "fault", o |-> o, k |-> k, f |-> "op", at |-> at] :
                  o \in 1..c.nops, k \in {"mat", "trace", "det", "logdet", "frob"}
                    \cup (IF Has(c, "load") \/ Has(c, "loadinv") THEN {} ELSE {"inv"}), at \in 1..4}
Kinds(c) == IF c.brief THEN {"mat"} ELSE AllKinds
InvKinds(c) == IF c.brief THEN {"mat"} ELSE {"mat", "vec", "list", "adjoint", "scipy"}
Slots(c) == IF c.brief THEN {1} ELSE 1..NSlots
Flags(c) == IF c.brief THEN {FALSE} ELSE BOOLEAN
BadKinds == {"loss", "reduction", "layers"}

Start(c) == [ops |-> [o \in 1..c.nops |-> [cfg |-> c.opcfg[o], fac |-> <<>>]],
             pv |-> c.modpv,
             invs |-> [i \in 1..Len(c.invop) |-> [mode |-> c.invmode[i], on |-> c.invon[i], cache |-> <<>>]],
             ks |-> [s \in 1..NSlots |-> <<>>],
             is |-> [s \in 1..NSlots |-> <<>>]]

InvOn(c, o) == {i \in 1..Len(c.invop) : c.invop[i] = o}
\* replacing the factors of o would leave a stale cached inverse: not covered
NoStale(c, S, o, fac, except) == \A i \in InvOn(c, o) \ except : S.invs[i].cache = <<>> \/ S.invs[i].cache = fac

Events(c, S) ==
    UNION {
      IF Has(c, "use") THEN {[a |-> "use", o |-> o, k |-> k] : o \in 1..c.nops, k \in Kinds(c)} ELSE {},
      IF Has(c, "fault") THEN {[a |-> "fault", o |-> o, k |-> k, f |-> f, at |-> at] :
                               o \in 1..c.nops, k \in {"mat", "trace", "inv"}, f \in Faults, at \in 1..c.nb} \cup OpFaults(c) ELSE {},
      IF Has(c, "run") /\ ~ c.brief THEN {[a |-> "run", m |-> m] : m \in 1..c.nmod} ELSE {},
      IF Has(c, "set") THEN {[a |-> "set", m |-> m] : m \in 1..c.nmod} ELSE {},
      IF Has(c, "save") THEN {[a |-> "save", o |-> o, s |-> s] : o \in 1..c.nops, s \in Slots(c)} ELSE {},
      IF Has(c, "load") THEN {e \in {[a |-> "load", o |-> o, s |-> s] : o \in 1..c.nops, s \in Slots(c)} :
                               S.ks[e.s] # <<>> /\ NoStale(c, S, e.o, S.ks[e.s].fac, {})} ELSE {},
      IF Has(c, "new") THEN {e \in {[a |-> "new", o |-> o, s |-> s, chk |-> b] :
                                    o \in 1..c.nops, s \in Slots(c), b \in Flags(c)} :
                               S.ks[e.s] # <<>> /\ InvOn(c, e.o) = {}} ELSE {},
      IF Has(c, "bad") THEN {[a |-> "bad", o |-> o, k |-> k, cmp |-> b] :
                               o \in 1..c.nops, k \in BadKinds, b \in Flags(c)} ELSE {},
      IF Has(c, "inv") THEN {[a |-> "inv", i |-> i, k |-> k] : i \in 1..Len(c.invop), k \in InvKinds(c)}
                       ELSE {},
      IF Has(c, "saveinv") THEN {[a |-> "saveinv", i |-> i, s |-> s] : i \in 1..Len(c.invop), s \in Slots(c)} ELSE {},
      IF Has(c, "loadinv") THEN {e \in {[a |-> x, i |-> i, s |-> s] :
                                         x \in {"loadinv", "newinv"}, i \in 1..Len(c.invop), s \in Slots(c)} :
                                  S.is[e.s] # <<>> /\ NoStale(c, S, c.invop[e.i], S.is[e.s].fac, {e.i})} ELSE {}
    }

Ok(S, res, pass) == [S |-> S, res |-> res, pass |-> pass, raised |-> ""]
Raise(S, what) == [S |-> S, res |-> <<>>, pass |-> "some", raised |-> what]
\* factors after a complete pass at the current parameters
Computed(c, S, o) == IF S.ops[o].fac # <<>> THEN S.ops[o].fac ELSE <<S.ops[o].cfg, S.pv[c.opmodel[o]]>>
Pass(S, o) == IF S.ops[o].fac = <<>> THEN "full" ELSE "none"

UseOp(c, S, o) == LET f == Computed(c, S, o) IN Ok([S EXCEPT !.ops[o].fac = f], f, Pass(S, o))
UseInv(c, S, i) ==
    LET o == c.invop[i]
        f == Computed(c, S, o)
        v == IF S.invs[i].cache # <<>> THEN S.invs[i].cache ELSE f
    IN  Ok([S EXCEPT !.ops[o].fac = f, !.invs[i].cache = IF S.invs[i].on THEN v ELSE S.invs[i].cache],
           <<S.invs[i].mode>> \o v, Pass(S, o))
InvOf(c, o) == IF InvOn(c, o) = {} THEN 0 ELSE CHOOSE i \in InvOn(c, o) : TRUE
UseAny(c, S, o, k) == IF k = "inv" /\ InvOf(c, o) # 0 THEN UseInv(c, S, InvOf(c, o)) ELSE UseOp(c, S, o)

LoadInto(c, S, o, d) == [S EXCEPT !.ops[o] = [cfg |-> d.cfg, fac |-> d.fac], !.pv[c.opmodel[o]] = d.pv]

Outcomes(c, S, e) ==
    CASE e.a = "use" -> {UseOp(c, S, e.o)}
      \* a fault can only strike if a pass is needed; it leaves no factors behind
      \* ... except that any call consists of tensor operations; what was computed before
      \* the failing one (all factors) may be kept
      [] e.a = "fault" /\ e.f = "op" -> {UseAny(c, S, e.o, e.k), Raise(S, "Boom"), Raise(UseOp(c, S, e.o).S, "Boom")}
      [] e.a = "fault" -> {UseAny(c, S, e.o, e.k)} \cup (IF S.ops[e.o].fac = <<>> THEN {Raise(S, "Boom")} ELSE {})
      [] e.a = "run" -> {Ok(S, <<>>, "none")}
      [] e.a = "set" -> {Ok([S EXCEPT !.pv[e.m] = 3 - S.pv[e.m]], <<>>, "none")}
      [] e.a = "save" -> {Ok([S EXCEPT !.ks[e.s] = [cfg |-> S.ops[e.o].cfg, fac |-> S.ops[e.o].fac,
                                                    pv |-> S.pv[c.opmodel[e.o]]]], <<>>, "none")}
      [] e.a = "load" -> {Ok(LoadInto(c, S, e.o, S.ks[e.s]), <<S.ks[e.s].pv>>, "none")}
      \* the optional determinism check of a new operator may compute the factors
      [] e.a = "new" -> LET T == LoadInto(c, S, e.o, S.ks[e.s])
                        IN  {Ok(T, <<S.ks[e.s].pv>>, "any")}
                            \cup (IF e.chk THEN {Ok([T EXCEPT !.ops[e.o].fac = Computed(c, T, e.o)], <<S.ks[e.s].pv>>, "any")}
                                  ELSE {})
      [] e.a = "bad" -> {Raise(S, "ValueError")}
      [] e.a = "inv" -> {UseInv(c, S, e.i)}
      [] e.a = "saveinv" -> LET o == c.invop[e.i]
                            IN {Ok([S EXCEPT !.is[e.s] = [mode |-> S.invs[e.i].mode, on |-> S.invs[e.i].on,
                                        cache |-> S.invs[e.i].cache, cfg |-> S.ops[o].cfg, fac |-> S.ops[o].fac,
                                        pv |-> S.pv[c.opmodel[o]]]], <<>>, "none")}
      [] e.a \in {"loadinv", "newinv"} ->
            LET d == S.is[e.s]
                T == LoadInto(c, S, c.invop[e.i], d)
            IN  {Ok([T EXCEPT !.invs[e.i] = [mode |-> d.mode, on |-> d.on, cache |-> d.cache]], <<d.pv>>, "none")}

=============================================================================
