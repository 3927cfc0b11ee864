------------------------------ MODULE FrameDef ------------------------------
(* What using an operator may change (C10).  The world is everything the      *)
(* caller owns, by component: argument arrays, parameter and data lists, data *)
(* tensors, parameter values, gradient fields, requires-grad flags, buffers,  *)
(* train/eval flags, hooks, attributes of modules, random number states and   *)
(* global settings; and the results handed out so far.  A case gives          *)
(*   ops     sequence of operators [kind, base]: kind "lazy" (computes anew), *)
(*           "kfac" (factors computed once) or "inv" (inverse of KFAC base,   *)
(*           possibly not among the operators itself)                         *)
(*   qs      per operator, the queries it answers                             *)
(*   nb, nargs  batches, arguments per query                                  *)
(*   user    user actions that may occur; depth: history length               *)
(* Queries "gl" (gradient and loss) never use cached factors; "state" only    *)
(* reads them.  Outcomes(c, S, e) drives the generation of histories (Frame)  *)
(* and the validation of recorded ones (FrameTrace).                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Emit(x) == PrintT("@@" \o ToJson(x))
Comps == {"args", "lists", "data", "values", "grads", "flags", "buffers", "modes", "hooks", "attrs", "rng", "globals"}
Faults == {"data", "model", "loss", "backward"}

\* pv: version of the parameter values; froz: version at which a KFAC operator's
\* factors were computed (0: not yet), by the KFAC operator's number
\* w: version of every component; res: results [o, q, arg, ver, w: version of the result]
Start(c) == [pv |-> 1, froz |-> [b \in 1..c.nbase |-> 0], w |-> [x \in Comps |-> 0], res |-> <<>>]

Uses(c) == {e \in [a : {"use"}, o : 1..Len(c.ops), q : 1..20, arg : 1..c.nargs] : e.q <= Len(c.qs[e.o])}
Bad(c) == {e \in [a : {"bad"}, o : 1..Len(c.ops), q : 1..20, arg : {1}] :
            e.q <= Len(c.qs[e.o]) /\ c.qs[e.o][e.q] \in {"vec", "mat", "list", "adj", "np", "npadj"}}
Fails(c) == {[a |-> "fault", o |-> e.o, q |-> e.q, arg |-> e.arg, f |-> f, at |-> at] :
              e \in {u \in Uses(c) : u.arg = 1}, f \in Faults, at \in 1..(c.nb + 1)}
            \* "op": some tensor operation of the call fails, the deeper the larger "at"
            \cup {[a |-> "fault", o |-> e.o, q |-> e.q, arg |-> e.arg, f |-> "op", at |-> at] :
                    e \in {u \in Uses(c) : u.arg = 1}, at \in 1..4}
\* results that belong to the caller (not those an operator keeps, as its trace)
Owned(c, r) == c.qs[r.o][r.q] \notin {"trace", "det", "logdet", "frob", "state"}
\* what the user does: "spoil" overwrites the r-th result in place, "change" an argument,
\* "update" the parameters; "grad", "mode", "rng", "backward" do as they say
User(c, S) ==
    UNION {{[a |-> "spoil", r |-> r] : r \in {k \in 1..Len(S.res) : Owned(c, S.res[k])}},
           {[a |-> x] : x \in {c.user[i] : i \in 1..Len(c.user)}}}
Events(c, S) == UNION {Uses(c), Bad(c), Fails(c), User(c, S)}

Query(c, e) == c.qs[e.o][e.q]
Cached(c, e) == c.ops[e.o].kind # "lazy" /\ Query(c, e) # "gl"
Base(c, e) == c.ops[e.o].base
\* parameter version a query's answer belongs to
Version(c, S, e) == IF Cached(c, e) /\ S.froz[Base(c, e)] # 0 THEN S.froz[Base(c, e)] ELSE S.pv
Filled(c, S, e) == IF Cached(c, e) /\ Query(c, e) # "state"
                   THEN [S EXCEPT !.froz[Base(c, e)] = Version(c, S, e)] ELSE S

\* results carry their own version of contents: nobody but the user changes them
Answered(c, S, e) == [Filled(c, S, e) EXCEPT !.res = Append(@, [o |-> e.o, q |-> e.q, arg |-> e.arg, aw |-> S.w["args"],
                                                               ver |-> Version(c, S, e), w |-> 0])]
\* raised: "" | "boom" (the injected failure) | "other"; ver: version of the answer (0: none)
Good(c, S, e) == [S |-> Answered(c, S, e), raised |-> "", ver |-> Version(c, S, e), touched |-> {}]
Failed(S, r) == [S |-> S, raised |-> r, ver |-> 0, touched |-> {}]
Does(S, x) == [S |-> [S EXCEPT !.w = [y \in Comps |-> IF y \in x THEN @[y] + 1 ELSE @[y]]], raised |-> "", ver |-> 0, touched |-> x]
\* a failure in the first batch of an operator that computes anew cannot be missed
Certain(c, S, e) == /\ c.ops[e.o].kind = "lazy" /\ e.f \in {"data", "model"} /\ e.at = 1
                    /\ c.reads[e.o]

Outcomes(c, S, e) ==
    CASE e.a = "use" -> {Good(c, S, e)}
      [] e.a = "bad" -> {Failed(S, "other"), Failed(Filled(c, S, e), "other")}
      \* what a KFAC operator had computed completely before the failure may be kept
      [] e.a = "fault" /\ e.f = "op" -> {Failed(S, "boom"), Failed(Filled(c, S, e), "boom"), Good(c, S, e)}
      [] e.a = "fault" -> {Failed(S, "boom")} \cup (IF Certain(c, S, e) THEN {} ELSE {Good(c, S, e)})
      [] e.a = "spoil" -> {[S |-> [S EXCEPT !.res[e.r].w = @ + 1], raised |-> "", ver |-> 0, touched |-> {}]}
      [] e.a = "update" -> {[Does(S, {"values"}) EXCEPT !.S.pv = @ + 1]}
      [] e.a = "change" -> {Does(S, {"args"})}
      [] e.a = "grad" -> {Does(S, {"grads"})}
      [] e.a = "backward" -> {Does(S, {"grads"})}
      [] e.a = "mode" -> {Does(S, {"modes"})}
      [] e.a = "rng" -> {Does(S, {"rng"})}
      [] e.a = "hook" -> {Does(S, {"hooks"})}
=============================================================================
