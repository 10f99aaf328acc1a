#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
sys.dont_write_bytecode = True

from frame import Ctx, Enough  # noqa: E402
from build import BuildError  # noqa: E402
from client import Closed, Malformed  # noqa: E402


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("pid")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    parser.add_argument("--replay", help="repeats the run (tier and seed) that wrote a replay artifact")
    args = parser.parse_args()
    if args.replay:
        with open(args.replay) as handle:
            data = json.load(handle)
        args.pid, args.tier, args.seed = data["property"], data["tier"], data["seed"]
        print("replaying: %s" % data["message"])
    module = importlib.import_module(args.pid.lower())
    ctx = Ctx(args.pid, args.tier, args.seed, getattr(module, "LEVEL", "exploration"), module.RULE,
              getattr(module, "ASSUMPTIONS", ()))
    ctx.watch()
    try:
        module.run(ctx)
    except Enough:
        pass
    except BuildError as error:
        print("the tree does not build: %s" % error)
        return 3
    except (Closed, Malformed) as error:
        # of an exchange that no workload expects to fail
        frames = [f.name for f in traceback.extract_tb(error.__traceback__) if "/checks/" in f.filename]
        traceback.print_exc()
        try:
            ctx.violation("exchange:%s" % ">".join(frames[-2:]), "%s: %s" % (type(error).__name__, error))
        except Enough:
            pass
    except Exception:
        traceback.print_exc()
        code = ctx.finish()
        return 1 if code == 1 else 3
    return ctx.finish()


if __name__ == "__main__":
    sys.exit(main())
