import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, registry


def main(argv):
    if argv and argv[0] == "--replay":
        return core.replay(argv[1])
    if argv and argv[0] == "--setup":
        for pid in registry.all_ids():
            registry.load(pid)
        print("{} properties registered".format(len(registry.all_ids())))
        return 0
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return core.run_property(registry.load(pid), tier, seed)


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    os._exit(code)
