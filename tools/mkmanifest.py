"""Writes MANIFEST.json: claimed properties are those with a harness module."""

import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
RISK = ("TLA+ specification of networks, losses and data-set quantities over exact rationals (Risk.tla), TLC "
        "explores all batch partitions; expected matrices and behaviours replayed on the real operators")
KFAC = ("TLA+ specification of the KFAC factor machine over exact rationals (Kfac.tla), TLC explores all "
        "partitions and configurations; values and behaviours replayed on the real operator")
NOTE = ("Bounded: exhaustive over the state machine for each generated small case; the case set is random "
        "(seeded). Trusted: TLC, the Java overrides of rational arithmetic (checked by RatTest), float64 "
        "comparison at relative tolerance 1e-9 (float32: 2e-4). ")
T = {
    "C01": (RISK, NOTE + "Hessian: all losses, reductions, parameter orders/subsets, block sizes."),
    "C02": (RISK, NOTE + "GGN; invariants: PSD, equals the Hessian for linear models."),
    "C03": (RISK, NOTE + "Empirical Fisher."),
    "C04": ("TLA+ specification of label draws (FisherMC.tla): TLC enumerates label assignments; operator matrices "
            "must be explained by one, histories validated, label frequencies compared with the exact likelihood",
            NOTE + "Distributional part is a fixed-seed frequency test with wide bounds."),
    "C05": (RISK, NOTE + "Jacobian rows/columns, adjoints, SciPy adjoint products."),
    "C06": (RISK + "; same for KFAC (Kfac.tla)", NOTE + "Every explored partition is replayed (sampled for N > 3)."),
    "C07": (RISK + "; same for KFAC (Kfac.tla)", NOTE + "All ordered selections of up to 4 parameters."),
    "C08": ("TLA+ specification of the input/output format contract (Interface.tla), TLC enumerates formats, shapes and "
            "malformed inputs with their verdict; replayed on the real operators", NOTE),
    "C09": ("TLA+ specification of SciPy export (Interface.tla), TLC enumerates product kinds, dtypes and layouts; replayed",
            NOTE),
    "C10": ("TLA+ frame specification (FrameDef, Frame, FrameTrace): TLC generates histories of calls, injected failures and "
            "user actions; recorded digests of all caller-owned state and results are validated by TLC",
            NOTE + "Construction (whose determinism check draws random vectors) is not part of the property."),
    "C11": ("TLA+ specification of data loaders and the determinism check (Loader.tla): TLC enumerates pass schedules and "
            "decides accept/reject; replayed with scripted data sources and models", NOTE),
    "C12": (KFAC + "; sampled labels (KfacDraws.tla): TLC enumerates label assignments and their factors", NOTE),
    "C13": (KFAC + "; trace, determinant, log-determinant and Frobenius norm as TLC invariants and replayed", NOTE),
    "C14": ("TLA+ specification of the KFAC life cycle (KfacLife.tla): TLC generates call/fault histories with expected "
            "passes and results; replayed, and recorded traces validated", NOTE),
    "C15": ("TLA+ specification of the KFAC life cycle (KfacLife.tla): save/load/use histories generated by TLC and "
            "replayed on real operators", NOTE),
    "C16": ("TLA+ specification of damped Kronecker factors and their exact inverse (KfacInv.tla) with TLC invariants; "
            "exact inverse matrices compared with the real operator", NOTE),
    "C17": ("TLA+ specification of the life cycle of KFAC and its inverse (KfacLife.tla): TLC generates call histories; "
            "replayed, and recorded traces validated", NOTE),
    "C18": ("TLA+ specification of the sub-matrix operator (Submatrix.tla): TLC enumerates redefinition histories and "
            "exact products; replayed", NOTE),
    "C19": ("TLA+ specification of iterative inverses (IterInv.tla): exact solutions and truncated Neumann series over "
            "rationals, hyper-parameter histories; replayed", NOTE),
    "C20": ("TLA+ specification of Hutchinson estimators (Hutch.tla): TLC enumerates all sign vectors (unbiasedness as "
            "invariant); recorded samples validated", NOTE),
    "C21": ("TLA+ specification of Hutch++ (Hutch.tla): averages over all sign vectors exact; recorded histories of "
            "products validated against the caching automaton", NOTE),
    "C22": ("TLA+ specification of Lanczos quadrature moments and of the cached spectrum estimators (Lanczos.tla): exact "
            "moments; request histories generated by TLC and replayed", NOTE),
    "C23": ("TLA+ specification of networks with feature perturbation (Act.tla), exact loss Hessians for every feature; "
            "replayed", NOTE),
    "C24": ("TLA+ specification of outer-product operators and projectors (Outer.tla), exact products; replayed", NOTE),
    "C25": (RISK, NOTE + "Values of the functorch reference functions."),
    "C26": ("TLA+ specification of supported configurations (Config.tla): TLC enumerates all argument combinations of seven "
            "families with verdict, stage and exception; every one replayed on the real constructors", NOTE),
}
props = [json.loads(x)["id"] for x in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    if (V / "harness" / f"{p.lower()}.py").exists():
        tech, note = T[p]
        cmd = f"/opt/venv/bin/python harness/run.py {p} --tier "
        checks.append({
            "property": p, "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
            "evidence_file": f"evidence/{p}.json", "technique": tech, "level": "model_checking",
            "level_note": note.strip(),
        })
    else:
        na.append({"property": p, "reason": "check not built yet"})
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "Checks import curvlinops from /repo's working tree (pure Python, nothing to build). No hooks in /repo.",
}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", len(na), "not claimed")
