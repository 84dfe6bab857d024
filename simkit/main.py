"""Entry point: ``check ID``, ``replay FILE``, ``digests ID``, ``one ID INDEX``."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def load(ident):
    import boot

    name = ident.lower()
    backends = ()
    if name == "c10":
        backends = ("torch", "jax", "tensorflow")
    boot.boot(backends)
    return importlib.import_module(f"checks.{name}")


def main(argv):
    command = argv[0]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    options = dict(a.split("=", 1) for a in argv[1:] if "=" in a)
    workers = int(options.get("workers", 0)) or None
    count = int(options.get("count", 0)) or None
    tier = options.get("tier", tier)
    seed = int(options.get("seed", seed))
    if command == "check":
        check = load(argv[1])
        import engine

        return engine.run_check(
            check, seed=seed, tier=tier, workers=workers, count=count,
            shrink_seconds=float(options.get("shrink", 60)),
        )
    if command == "replay":
        with open(argv[1]) as stream:
            ident = json.load(stream)["property"]
        check = load(ident)
        import engine

        return engine.replay(check, argv[1])
    if command == "digests":
        # event-log digests of many executions, for the determinism proof
        check = load(argv[1])
        import engine
        from world import digest

        n = count or 50
        specs = [engine.generate(check, seed, tier, i) for i in range(n)]
        out = {}
        for i, kind, payload in engine.Farm(check, workers or 8).map(specs):
            if kind != "ok":
                print(payload, file=sys.stderr)
                return 2
            out[i] = digest(
                list(payload.digests), sorted(payload.fired.items()),
                payload.events, payload.violations,
            )
        for i in sorted(out):
            print(i, out[i])
        return 0
    if command == "one":
        check = load(argv[1])
        import engine

        spec = engine.generate(check, seed, tier, int(argv[2]))
        print(json.dumps(spec, indent=1))
        report = engine.execute(check, spec)
        print(report.violations, dict(report.fired), dict(report.probes), report.runs, report.events)
        return 0
    if command == "setup":
        # nothing to build: the checks import /repo's working tree
        import boot

        print("simkit uses", boot.boot(()).__file__)
        return 0
    raise SystemExit(f"unknown command {command}")


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except SystemExit as error:
        code = error.code if isinstance(error.code, int) else 2
    except BaseException:
        import traceback

        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    import atexit

    atexit._run_exitfuncs()
    os._exit(code)
