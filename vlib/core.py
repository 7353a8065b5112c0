"""Common machinery of the checks: cases, verdicts, evidence, known findings, replay.

A check is a function ``run(c)`` taking a `Check`.  It generates cases, runs the code
under test inside ``with c.sut(...)`` and lets oracles observe what it did (``c.ok`` and
``c.close``).  The verdict is three-valued: 0 held on everything observed, 1 violated,
2 inconclusive (platform does not support something, harness error, too few events).
"""
from __future__ import annotations

import contextlib
import hashlib
import json
import os
import sys
import time
import traceback
from pathlib import Path

import numpy as np

ROOT = Path(__file__).resolve().parent.parent
KNOWN = ROOT / "known-findings.txt"


class Inconclusive(Exception):
    """The check cannot decide this case."""


class SutRaised(Exception):
    """The code under test raised an exception where the property says it must not."""


class StopCase(Exception):
    pass


def _unsupported(e):
    """Does this exception come from something the stand-in platform does not offer?"""
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        for klass in type(e).__mro__:
            if klass.__name__ == "MiniUnsupported":
                return True
        if isinstance(e, MemoryError):
            return True
        if isinstance(e, ImportError) and any(
            s in str(e) for s in ("dolfinx", "dxh", "basix", "ffcx", "platform")
        ):
            return True
        e = e.__cause__ or e.__context__
    return False


def loud_seed(*parts):
    h = hashlib.sha256("|".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], "little")


def known_findings():
    """{(property, mechanism): text} of the committed file (fixed entries suppress nothing)."""
    out = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            head, _, text = line.partition(" :: ")
            fields = dict(p.split("=", 1) for p in head.split() if "=" in p)
            out[fields["property"], fields["mechanism"]] = text
    return out


class Check:
    def __init__(self, pid, tier, seed, only=None, out=None):
        self.pid, self.tier, self.seed, self.only = pid, tier, seed, only
        self.quick = tier == "quick"
        self.out = out or sys.stdout
        self.t0 = time.time()
        self.evaluations = 0
        self.nontrivial = set()
        self.oracle_evaluations = 0
        self.counters = {}
        self.samples = []
        self.violations = []
        self.inconclusive = []
        self.knowns = {}
        self.required = {}
        self.assumptions = []
        self.rule = ""
        self.broken = False
        self.current = None
        self.max_violations = 5
        self._known = known_findings()
        self.exhaustive = None
        self.budget = float(os.environ.get("VERIF_BUDGET", 0)) or (420 if self.quick else 900)
        self.worst = {}

    # ---- generation
    def rng(self, *name):
        return np.random.default_rng(loud_seed(self.seed, self.pid, *name))

    def more(self, fraction=1.0):
        """Is there time left for optional further cases?"""
        return time.time() - self.t0 < fraction * self.budget and len(self.violations) < self.max_violations

    def enough(self):
        return len(self.violations) >= self.max_violations

    # ---- cases
    @contextlib.contextmanager
    def _case(self, key, desc):
        self.current = (key, desc)
        self.evaluations += 1
        try:
            yield self
        except StopCase:
            pass
        except SutRaised as e:
            self._violate(f"code under test raised: {e}")
        except Inconclusive as e:
            self.inconclusive.append(f"{key}: {e}")
        except Exception as e:  # noqa: BLE001
            if _unsupported(e):
                self.inconclusive.append(f"{key}: platform: {type(e).__name__}: {e}")
            else:
                tb = traceback.format_exc(limit=-6)
                self.inconclusive.append(f"{key}: harness error: {tb}")
        finally:
            self.current = None

    def cases(self, iterable):
        """Yield (context, case) for (key, desc, payload...) triples, honouring replay."""
        for key, desc, *payload in iterable:
            if self.only is not None and key != self.only:
                continue
            if self.enough():
                return
            yield self._case(key, desc), desc, *payload

    def case(self, key, **desc):
        """``with c.case(key, ...) as k: if k: ...`` -- k is None when replay skips it."""
        if (self.only is not None and key != self.only) or self.enough():
            return contextlib.nullcontext(None)
        return self._case(key, desc)

    def mark(self, *signature):
        """Record the current case as non-trivial, distinct by signature."""
        self.nontrivial.add(signature if signature else self.current[0])

    def sample(self, limit=4, **kw):
        if len(self.samples) < limit:
            d = {"case": self.current[0] if self.current else None}
            d.update({k: _js(v) for k, v in kw.items()})
            self.samples.append(d)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def require(self, name, n=1):
        """Without at least n events of this kind the run decides nothing."""
        self.required[name] = n

    # ---- code under test
    @contextlib.contextmanager
    def sut(self, what, allow=()):
        try:
            yield
        except (StopCase, Inconclusive, SutRaised):
            raise
        except allow:
            raise
        except Exception as e:  # noqa: BLE001
            if _unsupported(e):
                raise Inconclusive(f"{what}: platform: {type(e).__name__}: {e}") from e
            tb = traceback.extract_tb(e.__traceback__)
            where = " <- ".join(f"{Path(f.filename).name}:{f.lineno}" for f in reversed(tb[-4:]))
            raise SutRaised(f"{what}: {type(e).__name__}: {str(e)[:300]} [{where}]") from e

    # ---- oracles
    def ok(self, cond, msg, **detail):
        self.oracle_evaluations += 1
        if not cond:
            self._violate(msg, **detail)
        return bool(cond)

    def close(self, a, b, tol, msg, scale=None, **detail):
        """max|a-b| <= tol*scale (scale: max|b| unless given); NaN fails."""
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        self.oracle_evaluations += 1
        if a.shape != b.shape:
            self._violate(f"{msg}: shapes {a.shape} and {b.shape}", **detail)
            return False
        if a.size == 0:
            return True
        s = np.max(np.abs(b)) if scale is None else scale
        s = np.maximum(s, 1e-300)
        with np.errstate(all="ignore"):
            r = np.abs(a - b) / s
        bad = ~(r <= tol)
        if bad.any():
            i = np.unravel_index(np.argmax(np.where(np.isnan(r), np.inf, r)), r.shape)
            self._violate(
                f"{msg}: differs by {float(r[i]):.3e} (relative) > {tol:.1e}",
                index=[int(j) for j in i], got=float(a[i]), expected=float(b[i]), **detail,
            )
            return False
        m = float(r.max()) / tol
        name = msg.split(":")[0][:60]
        self.worst[name] = max(self.worst.get(name, 0.0), m)
        return True

    def known(self, mechanism, what, **detail):
        """A violation by a recognised mechanism: listed findings are reported, not raised."""
        text = self._known.get((self.pid, mechanism))
        self.oracle_evaluations += 1
        if text is None:
            self._violate(f"{what} (mechanism {mechanism})", **detail)
        else:
            self.knowns[mechanism] = text

    def _violate(self, msg, **detail):
        key, desc = self.current if self.current else ("-", {})
        self.violations.append({"case": key, "desc": _js(desc), "message": msg, "detail": _js(detail)})
        if len(self.violations) >= self.max_violations:
            raise StopCase

    # ---- verdict
    def finish(self):
        emit = lambda s: print(s, file=self.out, flush=True)  # noqa: E731
        short = self.broken
        for name, n in self.required.items():
            if self.counters.get(name, 0) < n and self.only is None:
                self.inconclusive.append(f"only {self.counters.get(name, 0)} events '{name}', need {n}")
                short = True
        if self.oracle_evaluations == 0 or self.evaluations == 0:
            self.inconclusive.append("nothing was observed")
            short = True
        wall = time.time() - self.t0
        if self.only is None:
            self._evidence(wall)
        for m, text in sorted(self.knowns.items()):
            emit(f"KNOWN-FINDING: property={self.pid} {text}")
        emit(
            f"{self.pid} [{self.tier}, seed {self.seed}] {self.evaluations} cases, "
            f"{len(self.nontrivial)} distinct non-trivial, {self.oracle_evaluations} oracle evaluations, "
            f"{self.counters} in {wall:.1f} s"
        )
        if self.violations:
            rdir = ROOT / "replay"
            rdir.mkdir(exist_ok=True)
            v = self.violations[0]
            name = hashlib.sha256(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
            path = rdir / f"{self.pid}-{name}.json"
            path.write_text(json.dumps({
                "property": self.pid, "tier": self.tier, "seed": self.seed, "case": v["case"],
                "command": f"/verif/run {self.pid} --replay {path}",
                "violations": self.violations,
            }, indent=1))
            for v in self.violations:
                emit(f"  case {v['case']} {json.dumps(v['desc'])[:300]}: {v['message']} {json.dumps(v['detail'])[:600]}")
            emit(f"VIOLATION property={self.pid} replay={path}")
            return 1
        for s in self.inconclusive[:10]:
            emit(f"  INCONCLUSIVE {s}")
        # single undecided cases (a process MPI could not start, ...) do not spoil a run that observed enough
        return 2 if short or len(self.inconclusive) > 0.1 * self.evaluations + 1e-9 else 0

    def _evidence(self, wall):
        ev = ROOT / "evidence"
        ev.mkdir(exist_ok=True)
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.nontrivial),
            "rule": self.rule,
            "samples": self.samples or [{"note": "no sample recorded"}],
            "oracle_evaluations": self.oracle_evaluations,
            "observed": self.counters,
            "worst_fraction_of_tolerance": {k: round(v, 6) for k, v in sorted(self.worst.items())},
            "inconclusive": self.inconclusive[:20],
            "known_findings": sorted(self.knowns),
        }
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        (ev / f"{self.pid}.json").write_text(json.dumps({
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 3),
            "violations": len(self.violations),
        }, indent=1))


def _js(v):
    if isinstance(v, dict):
        return {str(k): _js(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, set)):
        return [_js(x) for x in v]
    if isinstance(v, np.ndarray):
        return [_js(x) for x in v.ravel()[:12].tolist()]
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, (np.floating,)):
        v = float(v)
    if isinstance(v, float):
        return v if np.isfinite(v) else str(v)
    if isinstance(v, (str, int, bool)) or v is None:
        return v
    return repr(v)[:300]
