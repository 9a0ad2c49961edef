"""Shared machinery of the generated-input checks (imported by workers only)."""

from __future__ import annotations

import hashlib
import json
import signal
import time
import traceback
from dataclasses import dataclass
from inspect import isfunction
from typing import Any, Callable

from hypothesis import HealthCheck, Phase, given, seed, settings
from hypothesis.errors import Flaky
from hypothesis.internal.conjecture.engine import ConjectureRunner

# Copying parts of earlier cases makes most of the cases alike; the strategies make
# coincidences on purpose instead.
ConjectureRunner.generate_mutations_from = lambda self, data: None


class Violation(AssertionError):
    """The property does not hold on the case."""


class Known(Exception):
    """The case shows exactly the recorded finding `ident`."""

    def __init__(self, ident: str, msg: str):
        super().__init__(msg)
        self.ident = ident


class Hang(Violation):
    """The library gave no answer."""


class HarnessError(Exception):
    """Something is wrong with the check itself."""


class _StopShrink(BaseException):
    pass


@dataclass
class Sub:
    """One executable statement of (part of) a property."""

    name: str
    strategy: Any  # or a plain function of the shard number
    check: Callable[[Any], Any]
    quick: int
    thorough: int
    rule: str  # what makes a case non-trivial
    shards: int = 8
    weight: float = 1.0  # relative cost of a case
    fresh: bool = False  # run in a process of its own
    more: int = 1  # times as many shards in the thorough tier


@dataclass
class Res:
    """What one passing case was like."""

    nontrivial: bool = True
    labels: tuple = ()
    checked: int = 1  # elementary comparisons made in the case


def ensure(cond: Any, msg: str, *args: Any) -> None:
    if not bool(cond):
        raise Violation(msg % args if args else msg)


CASE_CPU_S = 200.0  # far above what the slowest case needs


def _no_answer(signum, frame):
    raise Hang(f"no answer after {CASE_CPU_S:.0f} s of processor time")


def canonical(case: Any) -> str:
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


class Runner:
    """Runs sub-checks in this process and keeps the books."""

    def __init__(self, prop: str, deadline: float, shrink_s: float, known_ids: set):
        self.prop = prop
        self.deadline = deadline
        self.shrink_s = shrink_s
        self.known_ids = known_ids
        self.out = {
            "subs": {},
            "violations": [],
            "known": {},
            "errors": [],
            "skipped_for_time": 0,
        }

    def run_case(self, sub: Sub, case: Any, stats: dict) -> None:
        """Raises Violation if the case breaks the property."""
        signal.signal(signal.SIGPROF, _no_answer)
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
        try:
            res = sub.check(case)
        except (Violation, HarnessError):
            raise
        except Known as e:
            if e.ident not in self.known_ids:
                raise Violation(f"{e} (finding {e.ident} is not listed)") from e
            self.out["known"][e.ident] = self.out["known"].get(e.ident, 0) + 1
            res = Res(nontrivial=True, labels=("known:" + e.ident,))
        except (MemoryError, OSError) as e:
            raise HarnessError(f"{type(e).__name__}: {e}") from e
        except Exception as e:
            tb = traceback.format_exc(limit=-6)
            raise Violation(
                f"unexpected {type(e).__name__} on a valid input: {str(e)[:600]}\n{tb[-1500:]}"
            ) from e
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        if res is None:
            res = Res()
        stats["evaluations"] += 1
        stats["comparisons"] += res.checked
        for label in res.labels:
            stats["labels"][label] = stats["labels"].get(label, 0) + 1
        if res.nontrivial:
            text = canonical(case)
            h = hashlib.sha1(text.encode()).hexdigest()[:16]
            if h not in stats["hashes"]:
                stats["hashes"].add(h)
                k = len(stats["hashes"])
                if k in (1, 7, 40) and len(text) < 1500:
                    stats["samples"].append({"sub": sub.name, "case": case})

    def stats_for(self, sub: Sub) -> dict:
        return self.out["subs"].setdefault(
            sub.name,
            {
                "evaluations": 0,
                "comparisons": 0,
                "hashes": set(),
                "labels": {},
                "samples": [],
                "wall_s": 0.0,
                "rule": sub.rule,
            },
        )

    def corpus(self, sub: Sub, case: Any, origin: str) -> None:
        stats = self.stats_for(sub)
        try:
            self.run_case(sub, case, stats)
            stats["labels"]["corpus"] = stats["labels"].get("corpus", 0) + 1
        except Violation as e:
            self.out["violations"].append(
                {"sub": sub.name, "case": case, "message": str(e), "origin": origin}
            )

    def explore(self, sub: Sub, count: int, seed_value: int, shard: int) -> None:
        stats = self.stats_for(sub)
        strategy = sub.strategy(shard) if isfunction(sub.strategy) else sub.strategy
        t0 = time.monotonic()
        fail: dict = {}

        @seed(seed_value)
        @settings(
            max_examples=count,
            deadline=None,
            database=None,
            derandomize=False,
            report_multiple_bugs=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
            print_blob=False,
        )
        @given(case=strategy)
        def test(case):
            now = time.monotonic()
            if fail and now > fail["t"] + self.shrink_s:
                raise _StopShrink
            if not fail and now > self.deadline:
                self.out["skipped_for_time"] += 1
                return
            try:
                self.run_case(sub, case, stats)
            except Violation as e:
                size = len(canonical(case))
                if not fail:
                    fail.update(t=time.monotonic(), size=size, case=case, e=str(e), n=1)
                else:
                    fail["n"] += 1
                    if size <= fail["size"]:
                        fail.update(size=size, case=case, e=str(e))
                if isinstance(e, Hang):
                    raise _StopShrink from None
                raise Violation("property violated") from None

        try:
            test()
        except (Violation, _StopShrink):
            pass
        except Flaky:
            if not fail:
                raise
        except HarnessError as e:
            self.out["errors"].append(f"{sub.name}: {e}")
        except Exception:
            if not fail:
                self.out["errors"].append(f"{sub.name}: {traceback.format_exc()[-3000:]}")
        if fail:
            # Does the minimal case fail by itself, outside the search?
            again = None
            try:
                if fail["e"].startswith("no answer"):
                    raise Violation(fail["e"])
                self.run_case(sub, fail["case"], stats)
            except Violation as e:
                again = str(e)
            except Exception as e:  # noqa: BLE001
                again = f"{type(e).__name__}: {e}"
            self.out["violations"].append(
                {
                    "sub": sub.name,
                    "case": fail["case"],
                    "message": fail["e"],
                    "reproduced": again is not None,
                    "origin": f"search seed {seed_value}",
                }
            )
        stats["wall_s"] += time.monotonic() - t0

    def dump(self) -> dict:
        for s in self.out["subs"].values():
            s["hashes"] = sorted(s["hashes"])
        return self.out
