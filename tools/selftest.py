"""setup_cmd: nothing to build (the checks import /repo's working tree); verify that the explorer itself can fail."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V]
from mc import core
ctx = core.Ctx("SELFTEST", "quick", 1)
with ctx.case("ok"):
    core.close([1.0], [1.0], "same")
assert ctx.traces == 1 and not ctx.violations
with ctx.case("bad"):
    core.close([1.0], [1.1], "different")
assert len(ctx.violations) == 1

class C:
    def __init__(self): self.n = 0; self.m = 0
def inc(p): p.n += 1; p.m = (p.m + 1) % 3      # the "implementation" forgets to wrap
def chk(p, h): core.require(p.n == p.m, f"{p.n} {p.m}")
ctx = core.Ctx("SELFTEST", "quick", 1)
try:
    core.bfs_histories(ctx, C, [("inc", inc)], lambda p: p.m, chk, 5, "counter")
except core.Stop:
    pass
assert ctx.violations and len(ctx.violations[0]["case"]["history"]) == 3
print("selftest ok")
