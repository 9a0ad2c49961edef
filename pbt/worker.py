"""One worker process: runs a list of units of one property and writes a JSON report."""

import importlib
import json
import os
import sys
import time
import traceback


def main() -> int:
    spec = json.load(open(sys.argv[1]))
    report = {"errors": [], "subs": {}, "violations": [], "known": {}, "skipped_for_time": 0}
    try:
        import differt2d

        assert differt2d.__file__ == os.environ["PBT_REPO"] + "/differt2d/__init__.py", differt2d.__file__
        from pbt.core import Runner

        mod = importlib.import_module(f"pbt.{spec['property'].lower()}")
        subs = {s.name: s for s in mod.SUBS}
        runner = Runner(
            spec["property"],
            time.monotonic() + spec["budget_s"],
            spec["shrink_s"],
            set(spec["known_ids"]),
        )
        for unit in spec["units"]:
            sub = subs[unit["sub"]]
            if "case" in unit:
                runner.corpus(sub, unit["case"], unit["origin"])
            else:
                runner.explore(sub, unit["count"], unit["seed"], unit["shard"])
            if spec.get("fast") and runner.out["violations"]:
                break
        report = runner.dump()
    except BaseException:  # noqa: BLE001
        report["errors"].append(traceback.format_exc()[-4000:])
    with open(sys.argv[2] + ".tmp", "w") as f:
        json.dump(report, f, default=lambda x: x.tolist())
    os.replace(sys.argv[2] + ".tmp", sys.argv[2])
    return 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    import os

    os._exit(code)
