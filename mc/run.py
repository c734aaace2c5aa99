"""Entry point: python -m mc.run C01 [--tier quick|thorough] [--replay FILE]"""
import importlib, json, os, sys, traceback

def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = replay = None
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]; i += 2
        elif args[i] == "--replay":
            replay = json.load(open(args[i + 1])); i += 2
        else:
            raise SystemExit("unknown argument " + args[i])
    from mc import core
    import warnings
    warnings.simplefilter("ignore")
    if core.REPO not in sys.path:
        sys.path.insert(0, core.REPO)
    run = core.Run(pid, tier)
    if replay:
        run.replay = (replay["section"], replay["case"])
    try:
        mod = importlib.import_module("mc.checks." + pid.lower())
        import gsp
        assert os.path.realpath(gsp.__file__).startswith(os.path.realpath(core.REPO) + os.sep), gsp.__file__
        mod.check(run)
    except core.HarnessError as e:
        print("ERROR in the check itself:\n" + str(e)); sys.exit(2)
    except Exception as e:
        if core.from_repo(e) and not isinstance(e, AssertionError):
            # the code under test failed where every correct version works (import, setup)
            run.report("setup", "setup", "unexpected exception " + core.describe_exc(e) + "\n" + traceback.format_exc())
        else:
            traceback.print_exc(); sys.exit(2)
    sys.exit(run.finish())

if __name__ == "__main__":
    main()
