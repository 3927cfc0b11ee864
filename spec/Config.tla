------------------------------- MODULE Config -------------------------------
(* Which configurations are supported (C26).  A configuration is a record of  *)
(* constructor arguments (and of what is asked of the object first).  The     *)
(* object's life: "new" --construct--> "built" --ask--> "answered", or        *)
(* "rejected" on the way.  Reasons(c) are the grounds for rejecting c, each   *)
(* with the stage at which it can be noticed at the latest and the documented *)
(* exception; a configuration is supported iff there are none.                *)
(* TLC enumerates all configurations of a family and checks that no           *)
(* unsupported one is answered, no supported one rejected, that every ground  *)
(* occurs on its own, and that every documented value occurs in a supported   *)
(* configuration.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Emit(x) == PrintT("@@" \o ToJson(x))
Cases == JsonDeserialize(IOEnv.CASES)     \* [id, fam]

V == "ValueError"   N == "NotImplementedError"   T == "TypeError"   I == "IndexError"
Reason(name, stage, exc) == [name |-> name, stage |-> stage, exc |-> exc]
If(cond, r) == IF cond THEN {r} ELSE {}
Losses == {"mse", "ce", "bce"}
Dict(c) == c.data # "tensor" /\ ~ c.bsf

\* ---- curvature and Jacobian operators
\* blocks: sizes relative to the number n = 4 of parameters
Blocks == {"none", "one", "two", "each", "short", "long", "zero", "negative", "empty"}
BadBlocks == {"short", "long", "zero", "negative", "empty"}
Curv == {c \in [op : {"hess", "ggn", "ef", "mc", "jac", "jact"}, loss : Losses \cup {"huber", "submse"},
                blocks : Blocks, data : {"tensor", "dict", "userdict"}, bsf : BOOLEAN, nd : BOOLEAN, chk : BOOLEAN,
                soft : BOOLEAN, ask : {"product", "adjoint", "export", "gl"}] :
            /\ c.op \notin {"hess", "ggn"} => c.blocks = "none"
            /\ c.op \in {"jac", "jact"} => c.loss = "mse"
            /\ c.soft => c.loss = "bce"
            /\ c.blocks # "none" => c.loss = "mse" /\ c.data = "tensor"
            /\ c.ask \in {"adjoint", "export"} => c.nd /\ ~ c.chk}
CurvReasons(c) == UNION {
    If(c.op \in {"ef", "mc"} /\ c.loss = "huber", Reason("loss", "construct", {N})),
    If(Dict(c), Reason("batch size function", "construct", {V})),
    If(c.op # "hess" /\ c.blocks # "none", Reason("blocks unsupported", "construct", {V})),
    If(c.op = "hess" /\ c.blocks \in {"short", "long", "empty"}, Reason("blocks do not add up", "construct", {V})),
    If(c.op = "hess" /\ c.blocks \in {"zero", "negative"}, Reason("blocks not positive", "construct", {V})),
    If(c.op = "mc" /\ c.soft /\ (c.ask # "gl" \/ c.chk), Reason("targets not binary", "ask", {N})),
    If(c.op \in {"jac", "jact"} /\ c.ask = "gl", Reason("no loss", "ask", {V}))}

\* ---- KFAC; layer "same": a convolution with padding 'same' and odd kernel,
\* "uneven": one whose padding differs between its sides (patches not supported).  params "foreign": not of the
\* model, "norm": of an unsupported layer.  ragged: numbers of loss terms differ
Kfac == {c \in [op : {"kfac"}, loss : Losses \cup {"huber", "function", "submse"},
                fisher : {"type-2", "mc", "empirical", "forward-only", "bogus"}, samples : {1, 2},
                approx : {"expand", "reduce", "bogus"}, sep : BOOLEAN,
                params : {"all", "weights", "biases", "norm", "foreign"}, layer : {"linear", "same", "uneven"},
                data : {"tensor", "dict", "userdict"}, bsf : BOOLEAN, terms : BOOLEAN, ragged : BOOLEAN,
                soft : BOOLEAN, chk : BOOLEAN, ask : {"product", "trace"}] :
            /\ c.soft => c.loss = "bce"
            /\ c.ragged => c.layer = "linear" /\ c.data = "tensor" /\ c.approx = "expand"
            /\ c.layer # "linear" => c.params \in {"all", "weights", "biases"} /\ c.data = "tensor" /\ ~ c.chk
            /\ c.data # "tensor" => c.approx = "expand" /\ c.samples = 1
            /\ c.sep => c.params = "all" /\ c.ask = "product"
            /\ c.ask = "trace" => ~ c.chk
            /\ c.terms => c.params = "all"
            /\ c.bsf => c.data # "tensor" \/ c.params = "all"}
KfacReasons(c) == UNION {
    If(c.loss \in {"huber", "function"}, Reason("loss", "construct", {V})),
    If(c.fisher = "bogus", Reason("fisher type", "construct", {V})),
    If(c.fisher # "mc" /\ c.samples # 1, Reason("sample count", "construct", {V})),
    If(c.approx = "bogus", Reason("approximation", "construct", {V})),
    If(c.params \in {"norm", "foreign"}, Reason("layer", "construct", {N})),
    If(Dict(c), Reason("batch size function", "construct", {V})),
    If(c.ragged /\ ~ c.terms, Reason("loss terms", "construct", {V})),
    If(c.soft /\ c.fisher = "type-2", Reason("targets not binary", "ask", {N})),
    If(c.layer = "uneven" /\ c.params # "biases" /\ c.approx = "expand", Reason("uneven padding", "ask", {N}))}

\* ---- inverses of KFAC
Inv == [op : {"inv"}, of : {"kfac", "ggn", "scipy", "inv"}, damping : {"one", "pair", "none"}, heur : BOOLEAN,
        exact : BOOLEAN, cache : BOOLEAN, retry : BOOLEAN, fisher : {"type-2", "mc", "empirical", "forward-only"}, sep : BOOLEAN]
InvReasons(c) == UNION {
    If(c.of # "kfac", Reason("not KFAC", "construct", {V})),
    If(c.heur /\ c.exact, Reason("two kinds of damping", "construct", {V})),
    If((c.heur \/ c.exact) /\ c.damping = "pair", Reason("damping pair", "construct", {V}))}

\* ---- estimators
Dists == {"rademacher", "normal", "bogus", "Normal", ""}
Est == {c \in [op : {"tr", "diag", "fro", "pp"}, rows : 1..4, cols : 1..4, form : {"array", "operator", "torch"},
               dist : Dists, basis : Dists, dim : {"default", "one", "full", "over"}, prepare : BOOLEAN] :
            /\ c.op # "pp" => c.basis = "normal" /\ c.dim = "default" /\ ~ c.prepare
            /\ c.form = "torch" => c.rows = c.cols}
EstReasons(c) == UNION {
    If(c.op # "fro" /\ c.rows # c.cols, Reason("not square", "construct", {V})),
    If(c.dim = "over", Reason("basis too large", "construct", {V})),
    If(c.dist \notin {"rademacher", "normal"}, Reason("distribution", "ask", {V})),
    If(c.basis \notin {"rademacher", "normal"}, Reason("basis distribution", "ask", {V}))}

\* ---- Hessians with respect to activations
Act == {c \in [op : {"act"}, name : {"", "first", "nested", "missing"}, io : {"input", "output", "bogus"}, idx : 0..2,
               batches : 1..3, data : {"tensor", "dict"}, bsf : {FALSE}, chk : BOOLEAN, loss : Losses \cup {"huber"}] :
            /\ c.name = "" => c.io # "input"
            /\ c.name = "first" => c.io # "input"}
ActReasons(c) == UNION {
    If(c.name = "missing", Reason("module", "construct", {V})),
    If(c.io = "bogus", Reason("input or output", "construct", {V})),
    If(c.io = "output" /\ c.name # "missing" /\ c.idx # 0, Reason("index of a single output", "construct", {V})),
    If(c.io = "input" /\ c.name # "missing" /\ c.idx # 0, Reason("index of an input", "construct", {I, V})),
    If(c.batches # 1, Reason("several batches", "construct", {V})),
    If(c.data = "dict", Reason("batch size function", "construct", {V}))}

\* ---- sub-matrices of a 3 x 4 operator; how: given to the constructor or set later
Lists == {"first", "two", "swapped", "all", "twice", "beyond", "negative", "float", "string", "numpy"}
Sub == [op : {"sub"}, rows : Lists, cols : Lists, how : {"construct", "set"}]
BadList(x) == UNION {
    If(x \in {"float", "string", "numpy"}, Reason("not integers", "construct", {V})),
    If(x = "twice", Reason("duplicates", "construct", {V})),
    If(x \in {"beyond", "negative"}, Reason("out of bounds", "construct", {V}))}
SubReasons(c) == BadList(c.rows) \cup BadList(c.cols)

\* ---- restoring from a state dictionary: source and target settings
Load == {c \in [op : {"load"}, via : {"load", "inverse"}, loss : Losses, to : Losses, red : {"mean", "sum"}, tored : {"mean", "sum"},
                filled : BOOLEAN, params : {"same", "fewer", "reordered"}, sep : BOOLEAN] :
            c.via = "inverse" => c.params = "same"}
LoadReasons(c) == UNION {
    If(c.loss # c.to, Reason("loss differs", "ask", {V})),
    If(c.red # c.tored, Reason("reduction differs", "ask", {V})),
    If(c.params = "fewer", Reason("layers differ", "ask", {V}))}

Configs(f) == CASE f = "curv" -> Curv [] f = "kfac" -> Kfac [] f = "inv" -> Inv [] f = "est" -> Est
                [] f = "act" -> Act [] f = "sub" -> Sub [] f = "load" -> Load
Reasons(f, c) == CASE f = "curv" -> CurvReasons(c) [] f = "kfac" -> KfacReasons(c) [] f = "inv" -> InvReasons(c)
                   [] f = "est" -> EstReasons(c) [] f = "act" -> ActReasons(c) [] f = "sub" -> SubReasons(c)
                   [] f = "load" -> LoadReasons(c)
\* combinations of more than two grounds add nothing
Fam(f) == {c \in Configs(f) : Cardinality({r.name : r \in Reasons(f, c)}) <= 2}

VARIABLES k, cfg, rs, ph
vars == <<k, cfg, rs, ph>>
F == Cases[k].fam
Init == /\ k \in 1..Len(Cases) /\ cfg \in Fam(Cases[k].fam)
        /\ rs = Reasons(Cases[k].fam, cfg) /\ ph = "new"
\* what is noticed early depends on the operator's determinism checks: a ground that
\* shows on a product may already be met by the constructor when it multiplies
Probes == "chk" \in DOMAIN cfg /\ cfg.chk
Early == {r \in rs : r.stage = "construct" \/ Probes}
Must == {r \in rs : r.stage = "construct"}
Construct == /\ ph = "new"
             /\ \/ Early # {} /\ ph' = "rejected"
                \/ Must = {} /\ ph' = "built"
             /\ UNCHANGED <<k, cfg, rs>>
Ask == /\ ph = "built"
       /\ ph' = IF rs = {} THEN "answered" ELSE "rejected"
       /\ UNCHANGED <<k, cfg, rs>>
Exc(R) == UNION {r.exc : r \in R}
Report == /\ ph = "new"
          /\ Emit([case |-> Cases[k].id, cfg |-> cfg, early |-> Exc(Early), must |-> Must # {}, late |-> Exc(rs),
                   why |-> {r.name : r \in rs}])
          /\ ph' = "reported" /\ UNCHANGED <<k, cfg, rs>>
Spec == Init /\ [][Construct \/ Ask \/ Report]_vars

NoUnsupportedAnswer == ph = "answered" => rs = {}
NoSupportedRejection == ph = "rejected" => rs # {}
\* vacuity: every ground rejects some configuration alone; evaluated once per family
Names(f) == {r.name : r \in UNION {Reasons(f, c) : c \in Fam(f)}}
Alone(f) == \A n \in Names(f) : \E c \in Fam(f) : {r.name : r \in Reasons(f, c)} = {n}
ASSUME \A j \in 1..Len(Cases) : Alone(Cases[j].fam) /\ \E c \in Fam(Cases[j].fam) : Reasons(Cases[j].fam, c) = {}
=============================================================================
