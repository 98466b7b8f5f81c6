"""P24: the big five cache under crashes, failures and concurrent calls."""
import itertools
import math
import os
import pickle
import resource
import shutil
import signal
import struct
import sys
import tempfile
import zipfile
import torch
from mc.core import equal, require

META = dict(
    title="The cached dataset is complete and right after any crash or concurrent call",
    statement="Whatever point a call of big_five dies or fails at, and however calls in several processes interleave, every later or concurrent call that "
              "returns gives the documented preprocessing of the complete download, and once a call has succeeded the data load without a network. "
              "The bundled datasets are consistent with their scoring keys.",
    over=["crash_points", "schedules", "inputs"],
    quant="all crash points (each file-system event and torn writes at every tested size), pairs of crashes, all failing steps, all interleavings of two calls "
          "up to 2 preemptions, and downloads with every kind of row",
    why="The only test needs the network, and no test kills a call half-way.",
    files=["irtorch/load_dataset.py"],
    mech=[("cache and download", "big_five"), ("bundled data", "swedish_sat, swedish_sat_binary, swedish_national_mathematics_1/2")],
    technique="crash-point and schedule exploration of the real function in forked processes with a stubbed download, a scratch home and a token scheduler",
)
PARALLEL = True
BOUNDS = "every audited file-system event and write-size limit (32 byte to 16 KiB sizes) as crash point, 2 crashes deep; 2 processes, <= 2 preemptions; 3 downloads"
ASSUMPTIONS = ["a crash keeps everything already written (no reordering of writes by the disk)", "the download is stubbed at urllib.request.urlretrieve"]
SCALES = ("EXT", "EST", "AGR", "CSN", "OPN")
REV = {"EXT2", "EXT4", "EXT6", "EXT8", "EXT10", "AGR1", "AGR3", "AGR5", "AGR7", "CSN2", "CSN4", "CSN6", "CSN8", "EST2", "EST4", "OPN2", "OPN4", "OPN6"}
NAMES = [f"{s}{i}" for s in SCALES for i in range(1, 11)]


def download(kind):
    """list of (responses, times in ms, IPC) and the expected matrix."""
    rows = []
    base = lambda k: [(k + 2 * j + j // 10) % 5 + 1 for j in range(50)]
    times = [1000 + 37 * j for j in range(50)]
    for k in range(4 if kind != "more" else 3):
        rows.append((base(k), list(times), 1))
    r = base(1)
    r[0] = r[17] = r[49] = 0
    rows.append((r, list(times), 1))
    rows.append(([0] * 50, list(times), 1))                    # nothing answered
    rows.append((base(2), times[:30] + [-1] + times[31:], 1))
    rows.append((base(3), [300001] + times[1:], 1))
    rows.append((base(3), [300000] + times[1:-1] + [0], 1))    # just allowed
    rows.append((base(4), list(times), 2))                     # several submissions
    rows.append(([None] * 50, [None] * 50, 1))                 # the real file has such rows (all its columns are floats)
    r = base(0)
    if kind == "more":
        r[3] = None
        rows.append((r, list(times), 1))
        r = base(3)
        r[10] = 0
        rows.append((r, [t + 0.5 for t in times], 1))
    rows.append((base(2), list(times), 1))
    want = []
    for resp, t, ipc in rows:
        if any(x is None for x in resp + t) or ipc != 1 or min(t) < 0 or max(t) > 300000 or sum(resp) == 0:
            continue
        want.append([math.nan if x == 0 else float((6 - x if n in REV else x) - 1) for n, x in zip(NAMES, resp)])
    return rows, want


def write_zip(path, kind):
    rows, _ = download(kind)
    head = NAMES + [n + "_E" for n in NAMES] + ["dateload", "screenw", "screenh", "introelapse", "testelapse", "endelapse", "IPC", "country", "lat", "long"]
    lines = ["\t".join(head)]
    for i, (resp, t, ipc) in enumerate(rows):
        lines.append("\t".join(["" if x is None else str(x) for x in resp] + ["" if x is None else str(x) for x in t] + ["2016-03-03", "1024", "768", "9", "234", "6", str(ipc), "SE", "63.8", str(20 + i)]))
    with zipfile.ZipFile(path, "w", zipfile.ZIP_DEFLATED) as z:
        z.writestr("IPIP-FFM-data-8Nov2018/data-final.csv", "\n".join(lines) + "\n")
        z.writestr("IPIP-FFM-data-8Nov2018/codebook.txt", "codebook")


EVENTS = ("open", "os.rename", "os.mkdir", "os.remove", "os.rmdir", "os.link", "os.symlink", "os.truncate", "shutil.copyfile", "shutil.move", "tempfile.mkstemp")


class Child:
    """One call of big_five in a forked process.  crash=k: dies at the k-th event; limit=n: dies when a file would grow beyond n bytes;
    fail=step: that step raises; gate: (read fd, write fd) of the scheduler."""

    def __init__(self, home, zip_path, crash=None, limit=None, fail=None, gate=None, network=True):
        self.r, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 3
            try:
                os.close(self.r)
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1), os.dup2(devnull, 2)
                self.child(w, home, zip_path, crash, limit, fail, gate, network)
                code = 0
            except BaseException:
                code = 3
            finally:
                os._exit(code)
        os.close(w)

    def child(self, w, home, zip_path, crash, limit, fail, gate, network):
        import urllib.request
        os.environ["HOME"] = home
        tmp = os.path.join(home, "tmp")
        os.makedirs(tmp, exist_ok=True)
        tempfile.tempdir = tmp
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        count = [0]
        live = [False]

        def point(*a):
            if not live[0]:
                return
            count[0] += 1
            if gate is not None:
                os.write(gate[1], b"p")
                if os.read(gate[0], 1) == b"":
                    os._exit(9)
            if crash is not None and count[0] == crash:
                os._exit(9)

        def hook(event, args):
            if live[0] and event in EVENTS and (event != "open" or isinstance(args[0], str) and args[0].startswith(home)):
                live[0] = False
                try:
                    self_point()
                finally:
                    live[0] = True

        def self_point():
            live[0] = True
            point()
        sys.addaudithook(hook)

        def retrieve(url, filename=None, *a, **k):
            point()
            if not network or fail == "download":
                raise OSError("no network")
            data = open(zip_path, "rb").read()
            with open(filename, "wb") as f:
                half = len(data) // 2
                f.write(data[:half])
                f.flush()
                point()
                if fail == "half download":
                    raise OSError("connection lost")
                f.write(data[half:])
            return filename, None
        urllib.request.urlretrieve = retrieve
        dump0 = pickle.dump

        def dump(obj, f, *a, **k):
            data = pickle.dumps(obj, *a, **k)
            n = max(1, len(data) // 2)
            f.write(data[:n])
            f.flush()
            point()
            if fail == "dump":
                raise OSError("disk full")
            f.write(data[n:])
            f.flush()
            point()
        pickle.dump = dump
        if fail == "unpack":
            def bad(*a, **k):
                raise shutil.ReadError("not a zip file")
            shutil.unpack_archive = bad
        from irtorch.load_dataset import big_five
        if limit is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        live[0] = True
        try:
            data, original, items = big_five()
            res = ("ok", data, (list(original.columns), original.shape, original.iloc[:, :50].fillna(-9).to_numpy().tolist()), items)
        except Exception as e:
            res = ("error", f"{type(e).__name__}: {e}", count[0], None)
        live[0] = False
        if limit is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        blob = pickle.dumps((res, count[0]))
        os.write(w, struct.pack("<Q", len(blob)))
        while blob:
            blob = blob[os.write(w, blob):]
        if gate is not None:
            os.write(gate[1], b"d")

    def result(self):
        """('ok', ...), ('error', ...) or ('dead',), and the number of events."""
        buf = b""
        while True:
            c = os.read(self.r, 1 << 20)
            if not c:
                break
            buf += c
        os.close(self.r)
        os.waitpid(self.pid, 0)
        if len(buf) < 8:
            return ("dead",), None
        return pickle.loads(buf[8:])


class Home:
    def __init__(self, ctx):
        base = os.environ.get("MC_TMP") or tempfile.gettempdir()
        self.path = tempfile.mkdtemp(prefix="bigfive-", dir=base)

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def right(res, kind, what):
    require(res[0] == "ok", f"{what}: {res[:2]}")
    rows, want = download(kind)
    equal(res[1], torch.tensor(want), f"{what}: data")
    require(res[1].dtype == torch.float32, "type")
    cols, shape, orig = res[2]
    require(shape == (len(rows), 110) and cols[:50] == NAMES, f"{what}: original data of shape {shape}")
    require([[float(x) for x in r] for r in orig] == [[-9.0 if x is None else float(x) for x in r[0]] for r in rows], f"{what}: original responses")
    require(isinstance(res[3], list) and len(res[3]) == 50, f"{what}: items")


def aftermath(ctx, home, z, kind, what):
    """Any later call gives nothing or the right data, and recovers."""
    res, _ = Child(home, z, network=False).result()
    if res[0] == "ok":
        right(res, kind, f"offline call after {what}")
    ctx.outcome(res[0])
    res, _ = Child(home, z).result()
    right(res, kind, f"call after {what}")
    res, _ = Child(home, z, network=False).result()
    right(res, kind, f"cached call after {what}")
    ctx.step(3)


def schedule_run(home, z, switches, first):
    """Two calls, switching between them after the given numbers of points; then each runs to its end."""
    kids = []
    for _ in range(2):
        a, b = os.pipe(), os.pipe()
        c = Child(home, z, gate=(a[0], b[1]))
        os.close(a[0]), os.close(b[1])
        kids.append([c, a[1], b[0], False])

    def advance(k):
        """Run k to its next point; True if it stopped there, False when it has ended."""
        if kids[k][3]:
            return False
        ch = os.read(kids[k][2], 1)
        if ch != b"p":
            kids[k][3] = True
            return False
        return True
    points = [0, 0]
    waiting = [advance(0), advance(1)]
    cur, budget = first, list(switches)
    while any(waiting):
        if not waiting[cur]:
            cur = 1 - cur
            continue
        if budget and budget[0] == 0:
            budget.pop(0)
            if waiting[1 - cur]:
                cur = 1 - cur
                continue
        if budget:
            budget[0] -= 1
        os.write(kids[cur][1], b"g")
        points[cur] += 1
        waiting[cur] = advance(cur)
    res = []
    for c, a, b, _ in kids:
        res.append(c.result()[0])
        os.close(a), os.close(b)
    return res, points


def run(ctx):
    torch.set_num_threads(1)
    with Home(ctx) as zd:
        zips = {}
        for kind in ("few", "more"):
            zips[kind] = os.path.join(zd, kind + ".zip")
            write_zip(zips[kind], kind)
        # how many events a clean call and a cached call have
        with Home(ctx) as h:
            res0, n_clean = Child(h, zips["few"]).result()
            res1, n_cached = Child(h, zips["few"], network=False).result()
            size = max([os.path.getsize(os.path.join(d, f)) for d, _, fs in os.walk(h) for f in fs] or [0])
        n_clean, n_cached = n_clean or 0, n_cached or 0
        ctx.notes["events_per_call"] = [n_clean, n_cached]
        for kind in ctx.each(["few", "more"]):
            with ctx.case("preprocessing", download=kind), Home(ctx) as h:
                for what, net in (("first call", True), ("cached call", False), ("cached call online", True)):
                    right(Child(h, zips[kind], network=net).result()[0], kind, what)
                ctx.state("pre", kind)
                ctx.step(3)
        for fail in ctx.each(["download", "half download", "unpack", "dump"]):
            for twice in (False, True):
                with ctx.case("failure", step=fail, twice=twice), Home(ctx) as h:
                    for _ in range(1 + twice):
                        res, _ = Child(h, zips["few"], fail=fail).result()
                        if res[0] == "ok":
                            right(res, "few", f"call with failing {fail}")
                    aftermath(ctx, h, zips["few"], "few", f"failing {fail}")
                    ctx.state("fail", fail, twice)
        for k in ctx.each(range(1, n_clean + 1)):
            with ctx.case("crash", event=k), Home(ctx) as h:
                require(Child(h, zips["few"], crash=k).result()[0][0] == "dead", "the call outlived its crash")
                aftermath(ctx, h, zips["few"], "few", f"a crash at event {k}")
                ctx.state("crash", k)
            for k2 in range(1, n_clean + 1, 1 if ctx.thorough else 4):
                with ctx.case("two crashes", events=[k, k2]), Home(ctx) as h:
                    Child(h, zips["few"], crash=k).result()
                    Child(h, zips["few"], crash=k2).result()
                    aftermath(ctx, h, zips["few"], "few", f"crashes at events {k} and {k2}")
                    ctx.state("crash", k, k2)
        for k in ctx.each(range(1, n_cached + 1)):
            with ctx.case("crash of a cached call", event=k), Home(ctx) as h:
                right(Child(h, zips["few"]).result()[0], "few", "first call")
                Child(h, zips["few"], crash=k).result()
                right(Child(h, zips["few"], network=False).result()[0], "few", f"cached call after a crash of a cached call at {k}")
                ctx.state("cached", k)
        limits = sorted({0, 1, 32, 100, 512, 1000, 4095, 4096, 8192, *range(16, size + 300, max(16, size // (40 if not ctx.thorough else 300)))})
        for n in ctx.each(limits):
            with ctx.case("torn write", bytes=n), Home(ctx) as h:
                res, _ = Child(h, zips["few"], limit=n).result()
                if res[0] == "ok":
                    right(res, "few", f"call with files of at most {n} bytes")
                aftermath(ctx, h, zips["few"], "few", f"a write torn at {n} bytes")
                ctx.state("torn", n)
        pts = range(0, n_clean + 1)
        scheds = [()] + [(a,) for a in pts]
        inner = range(0, n_clean + 1, 1 if ctx.thorough else 3)
        scheds += [(a, b) for a in (pts if ctx.thorough else pts[::2]) for b in inner]
        for sw in ctx.each(scheds):
            with ctx.case("two calls", switches=list(sw)), Home(ctx) as h:
                res, points = schedule_run(h, zips["few"], sw, 0)
                for r in res:
                    right(r, "few", f"concurrent call ({points} events)")
                right(Child(h, zips["few"], network=False).result()[0], "few", "cached call after concurrent calls")
                ctx.state("sched", sw)
                ctx.step(sum(points))
        for sw in ctx.each([(a,) for a in range(0, n_clean + 1, 2)]):
            with ctx.case("two calls after a crash", switches=list(sw)), Home(ctx) as h:
                Child(h, zips["few"], crash=max(1, n_clean - 1)).result()
                res, points = schedule_run(h, zips["few"], sw, 1)
                for r in res:
                    right(r, "few", "concurrent call after a crash")
                ctx.state("sched crash", sw)
                ctx.step(sum(points))
    for name in ctx.each(["swedish_national_mathematics_1", "swedish_national_mathematics_2", "swedish_sat_quantitative", "swedish_sat_verbal", "swedish_sat", "swedish_sat_binary"]):
        with ctx.case("bundled", dataset=name):
            import irtorch.load_dataset as L
            from irtorch.utils import get_item_categories
            a, b = getattr(L, name)(), getattr(L, name)()
            key = None
            if isinstance(a, tuple):
                a, key = a
                b = b[0]
            equal(torch.nan_to_num(a, nan=-7.), torch.nan_to_num(b, nan=-7.), "two loads")
            ok = a[~a.isnan()]
            require(bool((ok == ok.round()).all()) and float(ok.min()) >= 0, "responses are categories")
            cats = get_item_categories(a)
            if key is not None:
                require(len(key) == a.shape[1] and all(0 <= k < c for k, c in zip(key, cats)), "scoring key")
            if name in ("swedish_sat", "swedish_sat_binary"):
                (q, kq), (v, kv) = L.swedish_sat_quantitative(), L.swedish_sat_verbal()
                both = torch.cat((q, v), 1)
                if key is not None:
                    require(key == kq + kv, "key of the whole test")
                    equal(torch.nan_to_num(a, nan=-7.), torch.nan_to_num(both, nan=-7.), "whole test")
                else:
                    equal(a, (both == torch.tensor(kq + kv)).float(), "scored test")
            ctx.state("bundled", name)
