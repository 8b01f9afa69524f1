#!/usr/bin/env python3
"""check.py <property> [quick|thorough]      check one property
   check.py replay <file>                     re-run a recorded violation"""
import json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if pid == "replay":
        v = json.load(open(sys.argv[2]))
        if v["kind"] == "program":
            import program
            for x in program.replay(core.build(), os.path.abspath(sys.argv[2]), core.fresh("replayed")):
                print(*x)
        else:
            print(json.dumps(v, indent=1))
        return 0
    import program
    if pid in program.PROGRAM:
        return program.check(pid, tier)
    if pid == "C12":
        import queue_check
        return queue_check.check(pid, tier)
    if pid == "C20":
        import rnd_check
        return rnd_check.check(pid, tier)
    if pid == "C24":
        import cli_check
        return cli_check.check(pid, tier)
    import service_check
    if pid in service_check.SERVICE:
        return service_check.check(pid, tier)
    import crypto_check
    if pid in crypto_check.CRYPTO:
        return crypto_check.check(pid, tier)
    raise core.ToolError("no check for " + pid)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except core.ToolError as e:
        print("ERROR", e, flush=True)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
