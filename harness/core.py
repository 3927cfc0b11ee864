"""Shared machinery of the checks: TLC runs, replay pool, verdicts, evidence.

Nothing here knows about a particular property.  The parent process must never
run a backward pass (torch's autograd threads do not survive a fork); all code
of /repo under test is executed in forked workers.
"""

import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
SPEC = VERIF / "spec"
TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = 8


class MachineryError(Exception):
    """The check itself failed (not the code under test)."""


class Mismatch(Exception):
    """The code under test disagrees with the specification."""


class CaseTimeout(BaseException):
    """The code under test did not come back in time."""


def frac(r):
    """Rational from the specification (pair of ints or decimal strings)."""
    return Fraction(int(r[0]), int(r[1]))


def fl(r):
    f = frac(r)
    return f.numerator / f.denominator


def big(k):
    """Integer for the specification: strings beyond TLC's range."""
    return k if abs(k) < 2**31 else str(k)


def small(x):
    """TLC wraps larger numbers silently."""
    if isinstance(x, dict):
        x = x.values()
    if isinstance(x, (list, tuple)) or not isinstance(x, (int, float, str, type(None))):
        return all(small(e) for e in x)
    return not isinstance(x, int) or abs(x) < 2**31


def decode(x):
    """Nested sequences of rationals to nested lists of floats."""
    if (
        isinstance(x, list)
        and len(x) == 2
        and all(isinstance(e, (int, str)) for e in x)
    ):
        return fl(x)
    return [decode(e) for e in x]


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.thorough = tier == "thorough"
        self.tmp = Path(tempfile.mkdtemp(prefix=f"verif_{prop}_"))
        self.states = self.transitions = 0
        self.traces = 0
        self.executions = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.failures = []  # (case, message)
        self.known = load_known(prop)
        self.known_hit = {}
        self._classes = None
        self.only = None  # replay of one recorded item
        self.exhaustive = None

    def rng(self, tag=""):
        return random.Random(f"{self.prop}/{self.seed}/{tag}")

    # ---------------------------------------------------------------- TLC
    def classes(self):
        if self._classes is None:
            out = self.tmp / "classes"
            out.mkdir()
            srcs = sorted(str(p) for p in (SPEC / "java").glob("*.java"))
            r = subprocess.run(
                ["javac", "-nowarn", "-cp", TLA, "-d", str(out), *srcs],
                capture_output=True,
                text=True,
            )
            if r.returncode:
                raise MachineryError("javac failed:\n" + r.stdout + r.stderr)
            self._classes = out
        return self._classes

    def tlc_one(self, module, payload, cfg=None, extra=(), env=None, timeout=800):
        """Run TLC on one case file; returns (emitted records, stats dict)."""
        run = Path(tempfile.mkdtemp(prefix="tlc_", dir=self.tmp))
        cases = run / "cases.json"
        if not small(payload):
            raise MachineryError(f"numbers beyond TLC's range in a case of {module}")
        cases.write_text(json.dumps(payload))
        cmd = [
            "java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xss256m", "-Xmx3g",
            "-Djava.io.tmpdir=" + str(run),
            "-cp", f"{TLA}:{CM}:{self.classes()}", "tlc2.TLC", "-workers", "1",
            "-fp", "1", "-seed", "1", "-noGenerateSpecTE",
            "-metadir", str(run / "meta"), "-config", str(SPEC / f"{cfg or module}.cfg"),
            *extra, str(SPEC / f"{module}.tla"),
        ]
        e = dict(os.environ, CASES=str(cases), **(env or {}))
        r = subprocess.run(
            cmd, capture_output=True, text=True, env=e, cwd=run, timeout=timeout
        )
        out = r.stdout
        recs = []
        rest = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                recs.append(json.loads(json.loads(line)[2:]))
            else:
                rest.append(line)
        text = "\n".join(rest)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
        stats = {
            "generated": int(m.group(1)) if m else 0,
            "distinct": int(m.group(2)) if m else 0,
            "rc": r.returncode,
            "text": text,
        }
        shutil.rmtree(run, ignore_errors=True)
        return recs, stats

    def tlc(self, module, cases, cfg=None, chunks=WORKERS, weight=None, expect_ok=True, env=None):
        """Model-check ``cases`` (list of records) in parallel chunks.

        Returns emitted records grouped by case id.  A violated invariant means
        the specification contradicts itself: a machinery error.
        """
        if not cases:
            return {}
        order = sorted(cases, key=lambda c: -(weight(c) if weight else 1))
        n = min(chunks, len(order))
        parts = [[] for _ in range(n)]
        loads = [0.0] * n
        for c in order:
            i = loads.index(min(loads))
            parts[i].append(c)
            loads[i] += weight(c) if weight else 1
        self.classes()
        t = time.time()
        with ThreadPoolExecutor(n) as ex:
            results = list(ex.map(lambda p: self.tlc_one(module, p, cfg, env=env), parts))
        self.notes["tlc_s"] = round(self.notes.get("tlc_s", 0) + time.time() - t, 2)
        grouped = {}
        for recs, st in results:
            if expect_ok and (st["rc"] != 0 or "No error has been found" not in st["text"]):
                raise MachineryError(
                    f"TLC rejected {module}:\n" + "\n".join(x for x in st["text"].splitlines() if "rror" in x)[:2000] + st["text"][-6000:]
                )
            self.states += st["distinct"]
            self.transitions += st["generated"]
            for rec in recs:
                grouped.setdefault(rec["case"], []).append(rec)
        return grouped

    def simulate(self, module, cases, num, depth, cfg=None, keep=None):
        """Random behaviours (about ``num`` per case) from TLC's simulator.

        Returns emitted records grouped by case id, without duplicates.
        """
        self.classes()
        parts = [p for p in (cases[i::WORKERS] for i in range(WORKERS)) if p]

        def one(ip):
            i, p = ip
            return self.tlc_one(module, p, cfg, extra=(
                "-simulate", f"num={num * len(p)}", "-depth", str(depth + 4), "-seed", str(self.seed * 100 + i)))

        out = {}
        t = time.time()
        with ThreadPoolExecutor(len(parts)) as ex:
            results = list(ex.map(one, enumerate(parts)))
        self.notes["tlc_s"] = round(self.notes.get("tlc_s", 0) + time.time() - t, 2)
        for recs, st in results:
            if st["rc"] != 0 or "Error" in st["text"]:
                raise MachineryError(f"simulation of {module} failed:\n" + st["text"][-4000:])
            m = re.search(r"states generated: (\d+)", st["text"])
            self.transitions += int(m.group(1)) if m else 0
            for r in recs:
                hs = out.setdefault(r["case"], [])
                if r not in hs:
                    hs.append(r)
        return out

    # --------------------------------------------------------------- pool
    def pmap(self, fn, items, timeout=240, workers=WORKERS):
        """Run ``fn(item)`` for every item in forked workers.

        ``fn`` returns a dict {"n": executions, "fails": [msg, ...],
        "traces": k}.  An exception raised inside the code under test counts as a
        failure of the item.
        """
        items = list(items)
        if not items:
            return []
        if self.only is not None:
            if self.only.get("task") != items[0].get("task"):
                return []
            items = [self.only]
        workers = min(workers, len(items))
        results = [None] * len(items)
        pids = []
        sys.stdout.flush()
        sys.stderr.flush()
        # dynamic distribution through a pipe of indices
        rq, wq = os.pipe()
        idx = list(range(len(items)))
        outs = []
        # pipe capacity is 64 KiB: 4-byte tokens, items limited accordingly
        if len(items) * 4 > 60000:
            raise MachineryError("too many items for one pmap")
        os.write(wq, b"".join(i.to_bytes(4, "little") for i in idx))
        os.close(wq)
        for w in range(workers):
            out = self.tmp / f"pmap_{id(items)}_{w}_{time.time_ns()}.jsonl"
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    null = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(null, 2)  # progress bars and warnings
                    with open(out, "w") as fh:
                        while True:
                            tok = os.read(rq, 4)
                            if len(tok) < 4:
                                break
                            i = int.from_bytes(tok, "little")
                            fh.write(json.dumps([i, guarded(fn, items[i], timeout)]) + "\n")
                            fh.flush()
                except BaseException:  # noqa: B902
                    print(traceback.format_exc())
                    code = 3
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            pids.append(pid)
            outs.append(out)
        os.close(rq)
        bad = []
        for pid in pids:
            _, status = os.waitpid(pid, 0)
            if status != 0:
                bad.append(status)
        for out in outs:
            if out.exists():
                for line in out.read_text().splitlines():
                    i, r = json.loads(line)
                    results[i] = r
                out.unlink()
        missing = [i for i, r in enumerate(results) if r is None]
        if missing:
            raise MachineryError(f"workers died {bad}; items without result: {missing[:5]}")
        for i, r in enumerate(results):
            if r.get("machinery"):
                raise MachineryError(r["machinery"])
            self.executions += r.get("n", 0)
            self.traces += r.get("traces", 0)
            for msg in r.get("fails", []):
                self.fail(items[i], msg)
        return results

    # ------------------------------------------------------------ verdict
    def fail(self, case, msg):
        for key, desc in self.known:
            if key in msg:
                self.known_hit[key] = desc
                return
        self.failures.append((case, msg))

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def finish(self):
        # a listed finding is reported whether or not this run met it
        for key, desc in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {key} {desc}")
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "evaluations": self.executions,
            "samples": self.samples or [{"note": "none"}],
            **self.notes,
        }
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.failures),
        }
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, default=str))
        shutil.rmtree(self.tmp, ignore_errors=True)
        if not self.failures:
            print(
                f"{self.prop} held: {self.states} states, {self.executions} executions, "
                f"{self.traces} behaviours validated, {ev['wall_s']} s"
            )
            return 0
        rdir = VERIF / "replays"
        rdir.mkdir(exist_ok=True)
        case, msg = self.failures[0]
        path = rdir / f"{self.prop}.json"
        path.write_text(
            json.dumps(
                {
                    "property": self.prop,
                    "seed": self.seed,
                    "tier": self.tier,
                    "message": msg,
                    "case": case,
                    "others": [m[:2000] for _, m in self.failures[1:20]],
                    "total": len(self.failures),
                },
                indent=1,
                default=str,
            )
        )
        print(f"{self.prop}: {len(self.failures)} failure(s); first: {msg[:1500]}")
        print(f"VIOLATION property={self.prop} replay={path}")
        return 1


def guarded(fn, item, timeout):
    """Run ``fn`` on one item; classify exceptions."""

    def onalarm(signum, frame):
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(timeout)
    try:
        return fn(item)
    except CaseTimeout:
        return {"n": 1, "fails": [f"did not terminate within {timeout} s"]}
    except Mismatch as e:
        return {"n": 1, "fails": [str(e)]}
    except Exception as e:
        tb = traceback.format_exc()
        if under_test(e):
            return {"n": 1, "fails": [f"unexpected {type(e).__name__}: {e}\n{tb[-2500:]}"]}
        if isinstance(e, (OSError, MemoryError, MachineryError)):
            return {"machinery": tb}
        # the replay could not handle what the code under test returned
        return {"n": 1, "fails": [f"replay broke: {type(e).__name__}: {e}\n{tb[-2500:]}"]}
    finally:
        signal.alarm(0)


def under_test(e):
    """Did the exception pass through the code under test?"""
    root = str(REPO / "curvlinops")
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        tb = e.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(root):
                return True
            tb = tb.tb_next
        e = e.__cause__ or e.__context__
    return False


def load_known(prop):
    """Open known findings of a property: [(identifier, description)].

    Lines ``open: property=<id> key=<identifier> <description>``.
    ``fixed:`` lines suppress nothing.
    """
    f = VERIF / "KNOWN_FINDINGS.txt"
    found = []
    if f.exists():
        for line in f.read_text().splitlines():
            m = re.match(r"open: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                found.append((m.group(2), m.group(3)))
    return found


def import_target():
    """Import torch & co., then curvlinops from the working tree (no stale caches)."""
    sys.dont_write_bytecode = True
    import numpy  # noqa: F401
    import scipy.sparse.linalg  # noqa: F401
    import torch
    import backpack  # noqa: F401
    import einops  # noqa: F401

    torch.set_num_threads(1)
    # curvlinops must be compiled from the current sources
    sys.pycache_prefix = tempfile.mkdtemp(prefix="verif_pyc_")
    sys.path.insert(0, str(REPO))
    import importlib
    import pkgutil

    import curvlinops

    for m in pkgutil.walk_packages(curvlinops.__path__, "curvlinops."):
        importlib.import_module(m.name)
    shutil.rmtree(sys.pycache_prefix, ignore_errors=True)
    sys.pycache_prefix = None
    if not str(Path(curvlinops.__file__).resolve()).startswith(str(REPO)):
        raise MachineryError("curvlinops imported from " + curvlinops.__file__)
    return curvlinops
