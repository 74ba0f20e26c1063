import importlib, os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True


def main(argv):
    from sim import env  # noqa: F401
    from sim import runner
    from sim.core import HarnessError
    if argv and argv[0] == "replay":
        import json
        pid = json.load(open(argv[1]))["property"]
        world = importlib.import_module("sim.worlds." + pid.lower())
        return runner.replay(world, os.path.abspath(argv[1]))
    if argv and argv[0] == "selftest":
        return selftest(runner)
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    world = importlib.import_module("sim.worlds." + pid.lower())
    try:
        return runner.run_check(world, tier, seed)
    except HarnessError as e:
        print("HARNESS-ERROR property=%s %s" % (pid, e))
        return 2


def selftest(runner):
    """Every world generates and executes a few runs: the framework works here."""
    from sim import env
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "worlds")
    bad = 0
    for name in sorted(os.listdir(here)):
        if name.startswith("c") and name.endswith(".py"):
            world = importlib.import_module("sim.worlds." + name[:-3])
            try:
                for i in range(3):
                    res = runner.run_isolated(world, [runner.plan_for(world, 0, i)], timeout=120)
                    if res is None or res[1] is not None:
                        print("selftest %s: %r" % (world.ID, res and res[1]))
            except Exception as e:
                bad = 1
                print("selftest %s: %r" % (world.ID, e))
    from sim import faults
    faults.remove_leftovers()
    print("selftest: svgio from %s" % env.REPO)
    return bad


if __name__ == "__main__":
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
