"""The drawing back end behind a seam: a picture is written as the data it shows instead of being rendered.

Rendering takes most of the time of an execution with graphs and decides nothing; what is drawn (lines, points, areas, tables of
the figure handed to the back end) is kept. The stand-in writes through an ordinary open(), as the real back end does, so the file
is still subject to injected faults. A few runs keep the real back end."""
import contextlib
import json

HEAD = b"\x89PNG\r\n\x1a\n"


def number(x):
    try:
        x = float(x)
    except (TypeError, ValueError):
        return str(x)
    return None if x != x else x


def content(fig):
    axes = []
    for ax in fig.axes:
        d = {"lines": [], "points": [], "areas": [], "texts": [t.get_text() for t in ax.texts],
             "x": ax.get_xlabel(), "y": ax.get_ylabel(), "title": ax.get_title()}
        for line in ax.lines:
            d["lines"].append([[number(v) for v in line.get_xdata()], [number(v) for v in line.get_ydata()], str(line.get_label())])
        for col in ax.collections:
            off = col.get_offsets()
            name = type(col).__name__
            if name == "PathCollection":
                import numpy as np
                off = np.ma.filled(np.ma.asarray(off, dtype=float), np.nan)
                d["points"].append([[number(a), number(b)] for a, b in off])
            elif name.endswith("PolyCollection"):
                d["areas"].append([[[number(a), number(b)] for a, b in p.vertices] for p in col.get_paths()])
        axes.append(d)
    return axes


def savefig(fig, fname, *args, **kw):
    data = HEAD + b"drawn " + json.dumps(content(fig)).encode() + b" " * 1024
    if hasattr(fname, "write"):
        fname.write(data)
        return
    with open(fname, "wb") as f:
        f.write(data)


@contextlib.contextmanager
def recorded():
    import matplotlib.figure
    old = matplotlib.figure.Figure.savefig
    matplotlib.figure.Figure.savefig = savefig
    try:
        yield
    finally:
        matplotlib.figure.Figure.savefig = old


def read(path):
    """What a picture shows: None if it is a real picture; ValueError if it is none."""
    with open(path, "rb") as f:
        data = f.read()
    if data[:8] != HEAD:
        raise ValueError("not a picture")
    if data[8:14] != b"drawn ":
        if len(data) < 1000:
            raise ValueError("a picture of %d bytes" % len(data))
        return None
    return json.loads(data[14:].decode())


def same(a, b):
    return a == b or a is not None and b is not None and abs(a - b) <= 1e-12 * max(1, abs(a), abs(b))


def has_line(axes, ys, xs=None):
    """Some line of the picture shows exactly these values."""
    ys = [number(y) for y in ys]
    for ax in axes:
        for x, y, _ in ax["lines"]:
            if len(y) == len(ys) and all(same(a, b) for a, b in zip(y, ys)) and (xs is None or x == [float(v) for v in xs]):
                return True
    return False
