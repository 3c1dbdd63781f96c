from . import common  # noqa


def load(pid):
    from . import checks_market
    mods = [checks_market]
    for name in ("checks_process", "checks_files", "checks_session", "checks_page", "checks_scripts", "checks_solver"):
        try:
            mods.append(__import__("dst." + name, fromlist=["x"]))
        except ImportError as e:
            if "dst." + name not in str(e) and name not in str(e):
                raise
    for m in mods:
        for c in m.CHECKS:
            if c.id == pid:
                return c()
    raise SystemExit("unknown property " + pid)
