#!/usr/bin/env python3
"""check.py ID: decides one property on /repo's current tree.
exit 0: held on everything explored; 1: VIOLATION line; 2: the check failed."""
import os, sys, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import importlib
import vlib

FAMILY = {
    **{f"C0{i}": "parser" for i in range(1, 8)},
    "C26": "parser",
    "C17": "convert", "C28": "convert",
    "C18": "bytequeue",
    "C20": "derive", "C22": "cli", "C29": "cli", "C23": "features",
    **{p: "builders" for p in ("C11", "C12", "C13", "C14", "C19", "C21", "C24", "C25")},
    **{p: "packets" for p in ("C08", "C09", "C10", "C15", "C16", "C27")},
}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = vlib.Ctx(prop, tier, seed)
    try:
        importlib.import_module(FAMILY[prop]).check(c)
    except vlib.ToolError as e:
        if c.violations:
            return c.finish()
        print(f"ERROR: {e}", flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
