"""Mutation testing of /repo's source: systematic one-place edits, to find behaviour no check looks at.

  mutate.py list FILE...                    the mutants of the files (json lines)
  mutate.py run MUTANTS.jsonl OUT.jsonl     run each: the repository's tests first, then the checks until one reports a violation

Each worker owns copies of /repo and /verif, laid over the originals in a mount namespace of its own; nothing here touches the originals.
"""
import ast, json, os, random, re, shutil, subprocess, sys, time
PY = "/opt/venv/bin/python"
ORIG = os.environ.get("ORIG", "/repo")          # where the source the mutants were made of lies


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    out = []
    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(id(n.value))
        if isinstance(n, (ast.FunctionDef, ast.arg)):
            for a in ast.walk(n.returns) if getattr(n, "returns", None) else []:
                skip.add(id(a))
            if isinstance(n, ast.FunctionDef):
                for arg in n.args.args + n.args.kwonlyargs:
                    if arg.annotation:
                        for a in ast.walk(arg.annotation):
                            skip.add(id(a))
        if isinstance(n, ast.Call):
            name = ast.unparse(n.func)
            if name.startswith("logger.") or name in ("dynamic_print", "print") or name.endswith("Error") or "update_layout" in name:
                for a in ast.walk(n):
                    skip.add(id(a))
        if isinstance(n, ast.Raise):
            for a in ast.walk(n):
                skip.add(id(a))
    def emit(n, new, kind):
        s, e = span(n)
        out.append(dict(file=path, start=s, end=e, old=b[s:e].decode(), new=new, kind=kind, line=n.lineno))
    CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is"}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "//", ast.Pow: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.MatMult: "*"}
    SW = {"mean": "sum", "sum": "mean", "min": "max", "max": "min", "nanmean": "nansum", "nansum": "nanmean", "median": "mean", "std": "var",
          "repeat": None, "repeat_interleave": "repeat", "exp": "expm1", "argmax": "argmin", "argmin": "argmax", "cumsum": "cumprod", "any": "all", "all": "any",
          "sigmoid": "tanh", "append": None, "log": "log1p", "sqrt": "abs"}
    DROP = {"clone", "detach", "contiguous", "float", "int", "squeeze", "abs", "flip", "sign", "clamp", "sqrt", "copy", "logical_not", "transpose", "t", "train", "eval"}
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            emit(n, f"({ast.unparse(n.left)} {CMP[type(n.ops[0])]} {ast.unparse(n.comparators[0])})", "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.JoinedStr):
            emit(n, f"({ast.unparse(n.left)} {BIN[type(n.op)]} {ast.unparse(n.right)})", "arith")
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            emit(n, str(n.value + 1), "const")
            if n.value == 1:
                emit(n, "0", "const")
        elif isinstance(n, ast.Constant) and type(n.value) is float and n.value != 0:
            emit(n, repr(n.value * 2), "const")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            emit(n, str(not n.value), "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert)):
            emit(n, f"({ast.unparse(n.operand)})", "not")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            emit(n, f"({ast.unparse(n.operand)})", "neg")
        elif isinstance(n, ast.BoolOp):
            for v in n.values:
                emit(n, f"({ast.unparse(v)})", "boolop")
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)) and not isinstance(n.test, (ast.Compare, ast.UnaryOp)):
            emit(n.test, f"(not ({ast.unparse(n.test)}))", "cond")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            a = n.func.attr
            if SW.get(a):
                s, e = span(n.func)
                out.append(dict(file=path, start=e - len(a), end=e, old=a, new=SW[a], kind="call", line=n.lineno))
            if a in DROP and not (isinstance(n.func.value, ast.Name) and n.func.value.id in ("torch", "F", "np", "copy")):
                emit(n, ast.unparse(n.func.value), "drop")
            elif a in DROP | {"deepcopy"} and n.args and isinstance(n.func.value, ast.Name) and n.func.value.id in ("torch", "copy", "np"):
                emit(n, ast.unparse(n.args[0]), "drop")
        if isinstance(n, (ast.Expr, ast.AugAssign)) and not (isinstance(n, ast.Expr) and not isinstance(n.value, ast.Call)) and n.lineno == n.end_lineno:
            emit(n, "pass", "stmt")
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)) and n.lineno == n.end_lineno:
            emit(n, "pass", "stmt")
    seen, uniq = set(), []
    for m in out:
        k = (m["start"], m["end"], m["new"])
        if k not in seen and m["old"] != m["new"]:
            seen.add(k)
            uniq.append(m)
    return uniq


def worker(ms, n, out, order):
    root = f"/tmp/mut/w{n}"
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    subprocess.run(f"cp -a /repo {root}/repo; cp -a {ORIG}/irtorch {root}/repo/; mkdir {root}/verif; cp -a /verif/mc /verif/check /verif/*.json /verif/*.jsonl {root}/verif/; mkdir {root}/verif/evidence", shell=True)
    env = dict(os.environ, OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", CUDA_VISIBLE_DEVICES="", VERIF_SEED="1", VERIF_TIER="quick", MC_MAXV="1", MC_JOBS="2", MC_TMP=f"{root}/tmp")
    os.makedirs(f"{root}/tmp")
    def ns(cmd, t):
        try:
            p = subprocess.run(["unshare", "-Urm", "--kill-child", "bash", "-c", f"mount --bind {root}/repo /repo && mount --bind {root}/verif /verif && {cmd}"], capture_output=True, text=True, env=env, timeout=t)
            return p.returncode, p.stdout + p.stderr
        except subprocess.TimeoutExpired:
            return 124, ""
    for m in ms:
        t0 = time.time()
        f = m["file"].replace("/repo/", f"{root}/repo/")
        b = open(m["file"].replace("/repo/", ORIG + "/"), "rb").read()
        new = b[:m["start"]] + m["new"].encode() + b[m["end"]:]
        try:
            ast.parse(new.decode())
        except SyntaxError:
            continue
        open(f, "wb").write(new)
        rc, o = ns(f"cd /repo && {PY} -m pytest -x -q -p no:cacheprovider -n 2 --timeout=120 tests --deselect tests/test_load_dataset.py 2>&1 | tail -15", 400)
        fails = [l for l in o.splitlines() if l.startswith(("FAILED", "ERROR")) and "big_five" not in l]
        res = dict(m, tests="fail" if fails or rc == 124 or "passed" not in o else "pass")
        if res["tests"] == "pass":
            res["caught"] = None
            for pid in order(m):
                rc, o = ns(f"cd /verif && ./check {pid} quick", 900)
                if rc != 0:
                    res["caught"], res["rc"] = pid, rc
                    break
        res["secs"] = round(time.time() - t0)
        open(f, "wb").write(b)
        with open(out, "a") as g:
            g.write(json.dumps(res) + "\n")
    shutil.rmtree(root, ignore_errors=True)


ORDER = {
    "model_mix": "P29 P01 P03 P25", "plotter": "P25 P30 P22 P31 P32", "evaluator": "P27 P19 P20 P28 P30 P18 P21 P31 P32 P29", "base_irt_model": "P12 P08 P07 P04 P05 P31 P32 P18 P15 P30 P23 P29 P11",
    "bit": "P10 P05 P32 P31 P25", "utils": "P16 P17 P28 P26 P18 P24 P31 P32", "_internal_utils": "P16 P18 P19 P20 P21 P31", "vae": "P15 P13 P14 P30 P31", "ae": "P13 P14 P15 P31", "mml": "P15 P13 P14 P31",
    "jml": "P13 P14 P15 P31", "nested_logit": "P01 P06 P03 P02 P04 P29", "link_common_items": "P08 P09 P05 P22 P32", "monotone_nn": "P04 P06 P01", "graded_response": "P03 P02 P01 P04",
    "flow": "P08 P05 P09 P32", "spline": "P22 P06 P09", "gaussian_mixture_model": "P21", "outlier": "P20 P19", "quantile": "P21 P09",
}


def order(m):
    name = os.path.basename(m["file"])[:-3]
    first = []
    for k, v in ORDER.items():
        if k == name or (k in name and len(k) > 3):
            first += v.split()
    rest = [d["id"] for d in map(json.loads, open("/verif/properties.jsonl")) if any(m["file"].endswith(f) for f in d["anchors"]["files"])]
    for k, v in {"/models/": "P01 P02 P03 P04 P06 P11 P05 P31", "/rescale/": "P05 P08 P09 P06 P10 P11 P32", "/torch_modules/": "P22 P04 P01 P06 P09 P08", "encoders/": "P15 P13 P30 P11", "base_irt_algorithm": "P14 P13 P15 P32"}.items():
        if k in m["file"]:
            rest += v.split()
    return list(dict.fromkeys(first + rest))[:9]


if __name__ == "__main__":
    if sys.argv[1] == "list":
        for f in sys.argv[2:]:
            for m in mutants(f):
                print(json.dumps(m))
    else:
        ms = [json.loads(l) for l in open(sys.argv[2])]
        W = int(os.environ.get("WORKERS", "4"))
        pids = []
        for n in range(W):
            pid = os.fork()
            if pid == 0:
                worker(ms[n::W], n, sys.argv[3], order)
                os._exit(0)
            pids.append(pid)
        for p in pids:
            os.waitpid(p, 0)
