#!/opt/venv/bin/python
"""run.py <property> [--tier quick|thorough] | --replay <file>

Decides one property on /repo's working tree (see DESIGN.md)."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
WANT = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC"}

if any(os.environ.get(k) != v for k, v in WANT.items()) or sys.executable != PY:
    os.environ.update(WANT)
    os.environ["PYTHONPYCACHEPREFIX"] = "/nonexistent-pycache"
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)


def main():
    import argparse
    import json
    import logging
    import traceback
    import warnings

    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick",
                    choices=["quick", "thorough"])
    ap.add_argument("--replay")
    args = ap.parse_args()
    os.environ["VERIF_TIER"] = args.tier
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    from mc import core, checks
    if args.replay:
        with open(args.replay) as f:
            data = json.load(f)
        args.property, args.tier = data["property"], data.get("tier", args.tier)
    try:
        fn, level = checks.load(args.property)
        ctx = core.Ctx(args.property, args.tier, seed)
        ctx.level = level
        if args.replay:
            ctx.replaying, ctx.replay_path = data["violations"], args.replay
            return core.replay(ctx, fn)
        fn(ctx)
        return ctx.finish()
    except Exception:
        traceback.print_exc()
        print("ERROR: the check itself failed")
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
