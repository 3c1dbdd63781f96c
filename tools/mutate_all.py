"""Development tool for mutate.py: like check.py, with all monitors of the market simulator in every run."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check  # noqa: E402
from dst import checks_market as M, registry  # noqa: E402

KINDS = [c() for c in M.CHECKS]


class All(M.MarketCheck):
    id = "ALL"
    quick_runs = 500

    def generate(self, R, tier, i):
        c = KINDS[i % len(KINDS)]
        sc = c.generate(R, tier, i)
        sc["of"] = i % len(KINDS)
        return sc

    def monitors(self, sc):
        own = KINDS[sc["of"]]
        out = own.monitors(sc)
        for c in KINDS:
            if c.id not in (own.id, "C11", "C23", "C17") and own.id != "C23":
                out += c.monitors(sc)
        return out


load = registry.load
registry.load = lambda pid: All() if pid == "ALL" else load(pid)
rc = check.main()
sys.stdout.flush()
os._exit(rc)
