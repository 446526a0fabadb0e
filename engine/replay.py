"""Concrete replay: runs a harness on the unmodified meshio with concrete values.

    python -m engine.replay FILE.json       replays one recorded case (exit 1 if it fails)
    python -m engine.replay --server        JSON lines on stdin/stdout
"""

from __future__ import annotations

import importlib
import io
import json
import os
import sys
import contextlib
import traceback

_REPO = os.environ.get("VP_REPO_SRC", "/repo/src")


def run_case(case):
    import warnings

    warnings.simplefilter("ignore")
    import meshio

    from engine.harness import ConcH, Skip, Violation

    mod = importlib.import_module(case["module"])
    h = ConcH(case["values"], meshio)
    try:
        mod.harness(h, case["scenario"])
        return {"outcome": "ok"}
    except Skip as e:
        return {"outcome": "skip", "detail": str(e)}
    except Violation as e:
        return {"outcome": "violation", "label": e.label, "detail": e.detail}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        site = [f"{f.filename.split('/src/')[-1]}:{f.lineno}" for f in tb if "/meshio/" in f.filename][-1:]
        return {
            "outcome": "violation",
            "label": f"raised {type(e).__name__}",
            "detail": (str(e)[:300] + (" at " + site[0] if site else " in the harness")),
            # a missing key or item of the result is a wrong result (not: a module that is missing)
            "in_meshio": bool(site) or (isinstance(e, (KeyError, IndexError)) and "meshio." not in str(e)),
            "tb": [f"{f.filename}:{f.lineno}" for f in tb][-6:],
        }
    except SystemExit as e:
        return {"outcome": "violation", "label": "raised SystemExit", "detail": str(e)}
    finally:
        h.cleanup()


def main():
    if _REPO not in sys.path:
        sys.path.insert(0, _REPO)
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    if sys.argv[1] == "--server":
        out = os.fdopen(os.dup(1), "w")
        devnull = open(os.devnull, "w")
        os.dup2(devnull.fileno(), 1)
        os.dup2(devnull.fileno(), 2)
        sys.stdout = sys.stderr = devnull
        import resource

        for line in sys.stdin:
            case = json.loads(line)
            try:
                r = run_case(case)
            except BaseException as e:  # pragma: no cover
                r = {"outcome": "error", "detail": repr(e)}
            out.write(json.dumps(r) + "\n")
            out.flush()
        return 0
    with open(sys.argv[1]) as f:
        case = json.load(f)
    r = run_case(case)
    print(json.dumps(r, indent=1))
    return 1 if r["outcome"] == "violation" else 0


if __name__ == "__main__":
    sys.exit(main())
