import importlib
import json
import os
import sys


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    out = sys.stdout
    sys.stdout = open(os.devnull, "w")
    from . import env  # noqa: F401
    from . import core
    ctx = core.Ctx(pid, tier, seed)
    mod = importlib.import_module("mc.checks." + pid.lower())
    if "--replay" in sys.argv:
        rec = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        ctx.replaying = rec
        mod.run(ctx)
        body = ctx.bodies[rec["explorer"]]
        ch = core.Chooser(rec["choices"])
        ctx.before_case()
        _, bad = core.guarded(body, ch)
        print("choices: %s\nresult: %s" % (" | ".join(ch.labels), bad or "holds"), file=out)
        sys.exit(1 if bad else 0)
    try:
        mod.run(ctx)
    except core.FailFast:
        pass
    except core.HarnessError as e:
        print("HARNESS ERROR %s: %s" % (pid, e), file=out)
        sys.exit(3)
    if not core.TALLY.execs:
        print("HARNESS ERROR %s: nothing explored" % pid, file=out)
        sys.exit(3)
    code = core.finish(ctx, out)
    out.flush()
    sys.exit(code)


main()
