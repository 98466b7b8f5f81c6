import importlib, json, os, pickle, sys, traceback, warnings, logging

def guarded(core, ctx, mod):
    try:
        with core.quiet():
            mod.run(ctx)
    except core.Stop:
        pass
    except Exception as e:
        # anything that escapes a case is still a disagreement with the code under test: the harness
        # itself is deterministic and silent on the unchanged tree
        try:
            ctx._violation("harness", {"note": "exception outside a case"}, e)
        except core.Stop:
            pass


def parallel(core, ctx, mod, n):
    """Fork n workers over ctx.each's partition of the space and merge what they covered."""
    pids = []
    for k in range(n):
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                ctx.worker, ctx.workers = k, n
                guarded(core, ctx, mod)
                with open(f"{os.environ['MC_TMP']}/worker{k}.pkl", "wb") as f:
                    pickle.dump(ctx.export(), f)
                rc = 0
            finally:
                os._exit(rc)
        pids.append(pid)
    for k, pid in enumerate(pids):
        os.waitpid(pid, 0)
        path = f"{os.environ['MC_TMP']}/worker{k}.pkl"
        if not os.path.exists(path):
            raise RuntimeError(f"worker {k} ended without a result")
        ctx.merge(pickle.load(open(path, "rb")))


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    args = sys.argv[2:]
    while args:
        a = args.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            d = json.load(open(args.pop(0)))
            only = d["violations"][0]["case_key"]; tier = d["tier"]
            os.environ["VERIF_SEED"] = str(d["seed"])
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    warnings.filterwarnings("ignore")
    from mc import core
    ctx = core.Ctx(prop, tier, seed, only)
    mod = None
    try:
        import torch
        torch.set_num_threads(1)
        import irtorch
        import pathlib
        assert os.path.realpath(irtorch.__file__).startswith("/repo/"), irtorch.__file__
        logging.getLogger("irtorch").setLevel(logging.CRITICAL)
        torch.manual_seed(seed)
        mod = importlib.import_module(f"mc.props.{prop.lower()}")
        if getattr(mod, "PARALLEL", False) and (os.cpu_count() or 1) > 1:
            parallel(core, ctx, mod, min(getattr(mod, "WORKERS", 6), os.cpu_count()))
        else:
            guarded(core, ctx, mod)
    except Exception as e:
        try:
            ctx._violation("harness", {"note": "the code under test does not load"}, e)
        except core.Stop:
            pass
    rc = ctx.finish("model_checking", getattr(mod, "BOUNDS", ""), getattr(mod, "ASSUMPTIONS", []))
    sys.stdout.flush()
    os._exit(rc)

if __name__ == "__main__":
    main()
