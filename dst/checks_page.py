"""C25: the page of the interactive mode. The page that the real server renders runs in a simulated browser (page.js: node's vm with a
small document and virtual timers) and talks to the real message handler over a simulated connection with chosen delays."""
import copy
import importlib
import json
import os
import re
import select
import subprocess
import sys
from collections import deque

from . import common as C
from . import market as MK
from .checks_files import plain
from .checks_process import virtual_clock
from .checks_session import load, Wire, Conn, MINE, ORDERS, POOLS, clamp, user_param, disk_full, DiskFull
from .common import Violation, HarnessError


class Browser:
    """The node process that runs the pages of one worker."""
    own = {}

    @classmethod
    def get(cls):
        pid = os.getpid()
        b = cls.own.get(pid)
        if b is None or b.p.poll() is not None:
            b = cls.own[pid] = cls()
        return b

    def __init__(self):
        self.p = subprocess.Popen(["node", os.path.join(C.VERIF, "dst", "page.js")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, close_fds=True)
        self.buf = b""

    def ask(self, **req):
        try:
            self.p.stdin.write(json.dumps(req).encode() + b"\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            raise HarnessError("the simulated browser is gone")
        while b"\n" not in self.buf:
            ready, _, _ = select.select([self.p.stdout], [], [], 120)
            chunk = os.read(self.p.stdout.fileno(), 1 << 20) if ready else b""
            if not ready:
                self.p.kill()
                self.p.wait()
                raise Violation("page-hang", "the page does not come back from %s" % {k: v for k, v in req.items() if k in ("op", "id", "param")})
            if not chunk:
                raise HarnessError("the simulated browser ended")
            self.buf += chunk
        line, self.buf = self.buf.split(b"\n", 1)
        out = json.loads(line)
        if "harness" in out:
            raise HarnessError(out["harness"])
        return out


LIBS = {"chart": r"^chart[-.\d]*(min\.)?js$", "jquery": r"^jquery[-.\d]*(min\.)?js$", "slider": r"^bootstrap-slider", "switch": r"^bootstrap-switch",
        "bootstrap": r"^bootstrap(\.bundle)?(\.min)?\.js$"}


def scripts_of(app, html):
    """The scripts a browser would run, in order: (name, code); which third-party libraries the page loads."""
    MV = importlib.import_module("mesa.visualization.ModularVisualization")
    static = app.static_handler[2]["path"]
    own = os.path.join(os.path.dirname(MV.__file__), "templates")
    local = os.path.join(C.REPO, "interactiveViz", app.local_handler[2]["path"])  # the server is started there
    libs = {k: False for k in LIBS}
    out = []
    for n, m in enumerate(re.finditer(r"<script\b([^>]*)>(.*?)</script>", html, re.S | re.I)):
        src = re.search(r"src\s*=\s*['\"]([^'\"]+)['\"]", m.group(1))
        if not src:
            out.append({"name": "inline%d.js" % n, "code": m.group(2)})
            continue
        url = src.group(1)
        base = url.split("/")[-1].lower()
        if url.startswith("/static/"):
            places = [os.path.join(static, url[8:]), os.path.join(own, url[8:])]  # mesa's files: from the browser's cache (see runViz.py)
        elif url.startswith("/local/"):
            places = [os.path.join(local, url[7:])]
        else:
            places = []
        path = next((p for p in places if os.path.isfile(p)), None)
        if path is None:
            continue  # not found: the browser goes on without it
        kind = next((k for k, pattern in LIBS.items() if re.search(pattern, base)), None)
        if kind:
            libs[kind] = True
        else:
            with open(path, encoding="utf-8") as f:
                out.append({"name": base, "code": f.read()})
    return out, libs


def numbers(text):
    return [float(x) for x in re.findall(r"-?\d+(?:\.\d+)?(?:e-?\d+)?", str(text))]


def near(a, b, tol=6e-5):
    return a is not None and b is not None and abs(a - b) <= tol + 1e-9 * abs(b)


class Page:
    def __init__(self, world, pid):
        self.w, self.pid = world, pid
        self.load()

    def load(self):
        w = self.w
        self.up, self.down = deque(), deque()
        self.alive = True
        self.running = self.finished = False
        self.tick = None
        self.text = None
        self.fps = 3
        self.answers = []
        self.clean, self.model = False, None  # clean: nothing was under way at the last reset
        self.orderly = True                    # since then each round was asked for after the answer to the previous one
        self.timers, self.newest = [], 0
        self.charts = []
        self.handler = w.handler_class(w.app, w.request("/ws"))
        self.wire = self.handler.ws_connection = Wire()
        html = w.render_page()
        scripts, libs = scripts_of(w.app, html)
        w.stats.add("pages loaded")
        self.do("opening the page", [], op="open", html=html, scripts=scripts, libs=libs, seed=w.sc["seed"] % 2 ** 32, check=False)
        if len(self.charts) != len(w.kinds):
            raise Violation("charts", "the page has %d charts, %d are configured" % (len(self.charts), len(w.kinds)))
        self.handler.open()
        self.collect()

    def collect(self):
        for m in self.wire.sent:
            self.down.append(m)
        self.wire.sent = []

    # ---- one event in the page
    def do(self, what, expected, check=True, **req):
        r = self.w.browser.ask(page=self.pid, **req)
        self.w.stats.add("page events")
        if r["errors"]:
            raise Violation("script-error", "%s: the page fails: %s" % (what, r["errors"][0][:300]))
        if r["charts"] is not None:
            self.charts = r["charts"]
        before, self.timers = self.timers, r["timers"]
        self.newest = max([self.newest] + [t[0] for t in self.timers])
        sent = [json.loads(m) for m in r["sent"]]
        if (self.up or self.down) and sent and sent[0].get("type") == "get_step":
            self.orderly = False
        if callable(expected):
            expected(sent)
        elif sent != expected:
            raise Violation("sent", "%s: the page sends %s instead of %s" % (what, json.dumps(sent)[:200], json.dumps(expected)[:200]))
        for m in r["sent"]:
            self.up.append(m)
            self.w.stats.add("messages")
        if not check:
            return r
        if self.tick is not None and str(r["tick"]) != str(self.tick):
            raise Violation("round-shown", "%s: the page shows round %s instead of %s" % (what, r["tick"], self.tick))
        if self.text is not None and r["play"] != self.text:
            raise Violation("state-shown", "%s: the button says %r instead of %r" % (what, r["play"], self.text))
        self.compare(what)
        return before

    def no_new_timers(self, what, before):
        if not {t[0] for t in self.timers} <= {t[0] for t in before}:
            raise Violation("timer", "%s: the page plans another round" % what)

    def click(self, button):
        if button == "play":
            if self.running:
                self.running, self.text = False, "Start"
                self.no_new_timers("stopping", self.do("stopping", [], op="click", id="play-pause"))
            elif not self.finished:
                self.running, self.text = True, "Stop"
                self.tick += 1
                self.do("starting", [{"type": "get_step", "step": self.tick}], op="click", id="play-pause")
            else:
                self.no_new_timers("a click on Done", self.do("a click on Done", [], op="click", id="play-pause"))
        elif button == "step":
            ok = not self.running and not self.finished
            if ok:
                self.tick += 1
            before = self.do("a click on Step", [{"type": "get_step", "step": self.tick}] if ok else [], op="click", id="step")
            self.no_new_timers("a click on Step", before)
        else:
            self.clean = not self.up and not self.down
            self.model = None
            self.tick, self.answers, self.orderly = 0, [], True
            if self.finished:
                self.finished, self.text = False, "Start"
            last = max([t[0] for t in self.timers] or [0])
            before = self.do("a click on Reset", [{"type": "reset"}], op="click", id="reset")
            self.no_new_timers("a click on Reset", before)
            if last and last == self.newest and last in [t[0] for t in self.timers]:
                raise Violation("timer", "a click on Reset leaves the planned round planned")
            self.w.stats.add("resets")

    def fire(self, k):
        if not self.timers:
            return
        tid = self.timers[k % len(self.timers)][0]
        tick = self.tick

        def expected(sent):
            if sent == [{"type": "get_step", "step": tick + 1}]:
                self.tick = tick + 1
            elif self.running or sent:
                raise Violation("sent", "a timer: the page sends %s instead of asking for round %d" % (json.dumps(sent)[:200], tick + 1))
        self.do("a timer", expected, op="timer", id=tid)
        self.w.stats.add("timers fired")

    def deliver(self):
        """One message arrives at the page."""
        text = self.down.popleft()
        m = json.loads(text)
        if m["type"] == "model_params":
            self.tick, self.answers = 0, []
            self.clean = not self.down and not self.up
            self.do("the start", [{"type": "reset"}], op="message", text=text)
            self.shown(m["params"])
        elif m["type"] == "viz_state":
            self.answers.append((self.tick, m["data"]))
            self.w.stats.add("answers shown")
            before = self.do("an answer", [], op="message", text=text)
            fresh = [t for t in self.timers if t[0] not in {b[0] for b in before}]
            if self.running and not self.timers:
                raise Violation("stalled", "the page runs but plans no further round after an answer")
            if not self.running and fresh:
                raise Violation("timer", "the page is stopped but plans another round after an answer")
            for t in fresh:
                want = 1000 / self.fps if self.fps > 0 else 0
                if not near(t[1], want, 1e-6):
                    raise Violation("timer", "the next round is planned after %s ms at %s frames per second" % (t[1], self.fps))
        elif m["type"] == "end":
            self.running, self.finished, self.text = False, True, "Done"
            before = self.do("the end", [], op="message", text=text)
            self.no_new_timers("the end", before)
            self.w.stats.add("ends shown")
        else:
            raise Violation("answer", "the server answers with %s" % text[:100])

    def shown(self, params):
        names = sorted(p for p in params if params[p].get("param_type") != "static_text")
        answer = self.w.browser.ask(op="shown", page=self.pid, params=names)
        got, text = answer["inputs"], answer["text"]
        for p in params:
            label = params[p].get("value") if p not in names else params[p].get("name")
            if label and str(label) not in text:
                raise Violation("inputs", "the page does not show %r" % (label,))
        for p in names:
            if not got[p]:
                raise Violation("inputs", "the page offers no control for %s" % p)
            if got[p]["copies"] > 1:
                raise Violation("inputs", "the page offers %d controls for %s" % (got[p]["copies"], p))
            if got[p].get("choices"):  # a list to click on
                if got[p]["choices"] != len(params[p]["choices"]) or not all(str(c) in text for c in params[p]["choices"]):
                    raise Violation("inputs", "the page offers %d choices for %s instead of %s" % (got[p]["choices"], p, params[p]["choices"]))
                if got[p].get("value") is not None and got[p]["value"] != str(params[p]["value"]):
                    raise Violation("inputs", "the control for %s shows %s instead of %s" % (p, got[p]["value"], params[p]["value"]))
            want = {"value": params[p]["value"]}
            if params[p]["param_type"] == "slider":
                want.update(min=params[p]["min_value"], max=params[p]["max_value"], step=params[p]["step"])
            for key in want:
                if got[p]["kind"] != "choice" and got[p].get(key) != want[key]:
                    raise Violation("inputs", "the control for %s shows %s %s instead of %s" % (p, key, got[p].get(key), want[key]))

    def set(self, name, value):
        spec = self.w.spec[name]
        value = clamp(spec, value)
        index = spec[1].index(value) if spec[0] == "choice" else None
        self.do("setting " + name, [{"type": "submit_params", "param": name, "value": value}], op="set", param=name, value=value, index=index)
        if index is not None:
            shows = self.w.browser.ask(op="shown", page=self.pid, params=[name])["inputs"][name].get("value")
            if shows is not None and shows != value:
                raise Violation("inputs", "after %s is set to %s its control shows %s" % (name, value, shows))
        self.w.stats.add("parameters set")

    # ---- what the charts must show
    def expected(self, i):
        kind, labels = self.w.kinds[i]
        got = [(t, a[i]) for t, a in self.answers]
        ticks = [t for t, _ in got]
        if kind == "line":
            return ticks, [[d[s] for _, d in got if s < len(d)] for s in range(len(labels))]
        if kind == "stack":
            width = max([len(d[1]) for _, d in got] or [0])
            return ticks, [[d[1][s] for _, d in got if s < len(d[1])] for s in range(width)]
        flat = got[-1][1] if got else []
        return None, [[dict(x=flat[j], y=flat[j + 1], r=3 + 20 * flat[j + 2], pool_id=flat[j + 3], owner_id=flat[j + 4])
                       for j in range(0, len(flat), 5) if flat[j] > 0]]

    def compare(self, what):
        for i, (kind, labels) in enumerate(self.w.kinds):
            c = self.charts[i]
            title = "chart %d (%s)" % (i + 1, kind)
            if not c["placed"]:
                raise Violation("charts", "%s is not on the page" % title)
            ticks, sets = self.expected(i)
            got = dict((k, v) for k, v in c["sets"])
            if ticks is not None and c["labels"] != ticks:
                raise Violation("rounds", "after %s %s has the rounds %s instead of %s" % (what, title, c["labels"][-8:], ticks[-8:]))
            for k in range(max([len(sets)] + [k + 1 for k in got])):
                g, w = got.get(k, []), sets[k] if k < len(sets) else []
                if kind == "bubble":
                    same = len(g) == len(w) and all(a.get(key) == b[key] or key == "r" and near(a.get(key), b[key], 1e-9) for a, b in zip(g, w) for key in b)
                else:
                    same = g == w
                if not same:
                    raise Violation("data", "after %s %s shows %s instead of %s in series %d" % (what, title, json.dumps(g[-4:]), json.dumps(w[-4:]), k + 1))
            self.w.stats.add("charts compared")
        self.w.stats.seen("pages shown", C.digest([self.charts and [c["sets"][-3:] for c in self.charts], self.tick, self.running]))

    def hover(self, i, where):
        """The texts shown for a position of a chart."""
        i %= len(self.w.kinds)
        kind, labels = self.w.kinds[i]
        ticks, sets = self.expected(i)
        n = max([len(s) for s in sets] or [0])
        if not n:
            return
        where %= n
        r = self.w.browser.ask(op="tooltip", page=self.pid, chart=i, index=where)
        if r["errors"]:
            raise Violation("script-error", "pointing at chart %d: the page fails: %s" % (i + 1, r["errors"][0][:300]))
        if r["text"] is None:
            return
        self.w.stats.add("positions pointed at")
        bad = None
        if kind == "bubble":
            p = sets[0][where]
            head = numbers(r["text"][0])
            ids = [int(x) for x in head]
            body = numbers(r["text"][1][0][1])
            if ids != [p["pool_id"], p["owner_id"]]:
                bad = (r["text"][0], [p["pool_id"], p["owner_id"]])
            elif len(body) != 3 or not (near(body[0], p["x"]) and near(body[1], p["y"]) and near(body[2], (p["r"] - 3) / 20)):
                bad = (r["text"][1][0][1], [p["x"], p["y"], (p["r"] - 3) / 20])
        elif kind == "stack":
            want = {k: s[where] for k, s in enumerate(sets) if where < len(s) and s[where] != 0}
            keys = [a[i][0] for _, a in self.answers if a[i][0]][where]
            if not want:
                return
            got = {k: text for k, text in r["text"][1]} if r["text"] else {}
            if sorted(got) != sorted(want):
                bad = (sorted(got), sorted(want))
            else:
                for k in want:
                    x = numbers(got[k])
                    if len(x) < 2 or x[-2] != keys[k] or not near(x[-1], want[k]):
                        bad = (got[k], [keys[k], want[k]])
            if numbers(r["text"][0])[-1:] != [self.charts[i]["labels"][where]]:
                bad = (r["text"][0], self.charts[i]["labels"][where])
        else:
            for k, text in r["text"][1]:
                if not near((numbers(text) or [None])[0], sets[k][where]):
                    bad = (text, sets[k][where])
            if numbers(r["text"][0])[-1:] != [self.charts[i]["labels"][where]]:
                bad = (r["text"][0], self.charts[i]["labels"][where])
        if bad:
            raise Violation("text", "pointing at position %d of chart %d gives %r, there is %s" % (where, i + 1, bad[0], bad[1]))

    def recorded(self):
        """Nothing else in between: the page shows what the simulation recorded."""
        m = self.w.app.model
        if not self.clean or self.model is not m or self.up or self.down or self.w.shared:
            return
        mv = m.datacollector.model_vars
        for i, (kind, labels) in enumerate(self.w.kinds):
            got = dict((k, v) for k, v in self.charts[i]["sets"])
            for s, label in enumerate(labels):
                if label not in mv:
                    continue
                series = json.loads(json.dumps([plain(x) if not isinstance(x, dict) else [[plain(k), plain(y)] for k, y in x.items()] for x in mv[label]]))
                if kind == "line":
                    want = {s: series} if series else {}
                    have = {s: got[s]} if s in got else {}
                elif kind == "stack":
                    want = {k: [row[k][1] for row in series] for k in range(len(series[0]))} if series else {}
                    have = got
                else:
                    cols = dict(map(tuple, series[-1])) if series else {}
                    rows = zip(*(cols.get(c, []) for c in ("x", "y", "r", "pool_id", "owner_id")))
                    want = [[a, b, 3 + 20 * c, d, e] for a, b, c, d, e in rows if a > 0]
                    have = [[p[q] for q in ("x", "y", "r", "pool_id", "owner_id")] for p in got.get(0, [])]
                if have != want:
                    raise Violation("recorded", "chart %d (%s) does not show the recorded series '%s': %s instead of %s"
                                    % (i + 1, kind, label, json.dumps(have)[-200:], json.dumps(want)[-200:]))
            if kind == "line" and labels[0] in mv and self.orderly and self.charts[i]["labels"] != list(range(len(mv[labels[0]]) + 1)):
                raise Violation("recorded", "chart %d shows the rounds %s, %d were recorded" % (i + 1, self.charts[i]["labels"][-5:], len(mv[labels[0]])))
        self.w.stats.add("pages equal to the recorded series")


class World:
    def __init__(self, sc, stats, root):
        self.sc, self.stats, self.root = sc, stats, root
        self.browser = Browser.get()
        self.browser.ask(op="clear")
        self.RV, self.MMV = load()
        import logic.sim as S
        MV = importlib.import_module("mesa.visualization.ModularVisualization")
        self.S, self.MV = S, MV
        self.shared = sc["pages"] > 1
        self.full_next = None
        self.build()
        self.pages = [Page(self, k) for k in range(sc["pages"])]

    def build(self):
        sc = self.sc
        if sc["server"] == "runviz":
            from mesa.visualization.UserParam import UserSettableParameter
            app = self.RV.server
            app.model_kwargs = copy.deepcopy(self.RV._dst_params)
            self.spec = {}
            for name, p in app.model_kwargs.items():
                if isinstance(p, UserSettableParameter):
                    self.spec[name] = ("slider", p.min_value, p.max_value) if p.param_type == "slider" else ("number",)
                    if name in sc["initial"]:
                        p.value = sc["initial"][name]
            app.model_kwargs.update(sc["fixed"])
            app.reset_model()
            self.app = app
            self.kinds = [[{"MyChartModule": "line", "BubbleChartModule": "bubble", "StackedChartModule": "stack"}[type(e).__name__],
                           [s.get("label", s.get("Label")) for s in e.series]] for e in app.visualization_elements]
            self.handler_class = app.socket_handler[1]
        else:
            self.spec = MINE
            params = {}
            for name, s in MINE.items():
                kw = dict(lo=s[1], hi=s[2], step=0.001) if s[0] == "slider" else dict(choices=list(s[1])) if s[0] == "choice" else {}
                params[name] = user_param(s[0], "The " + name.replace("_", " "), sc["initial"][name], **kw)
            params["note"] = user_param("static_text", "note", "a text")
            params.update(sc["fixed"])
            server = self.MMV.MyModularServer if sc["server"] == "mine" else self.MV.ModularServer
            self.app = server(self.S.Simulation, self.elements(), "session", params)
            self.kinds = sc["charts"]
            self.handler_class = self.app.socket_handler[1]
        self.app.verbose = False

    def elements(self):
        from interactiveViz.myChartModule import MyChartModule
        from interactiveViz.bubbleChartModule import BubbleChartModule
        from interactiveViz.stackedChartModule import StackedChartModule
        out = []
        for n, (kind, labels) in enumerate(self.sc["charts"]):
            if kind == "line":
                out.append(MyChartModule([{"label": x, "title": x, "xLabel": "Round", "yLabel": x, "tooltipText": " units", "color": "Blue" if n % 2 else "#10a0ff"}
                                          for x in labels]))
            elif kind == "bubble":
                out.append(BubbleChartModule([{"Label": x} for x in labels]))
            else:
                out.append(StackedChartModule([{"Label": x, "tooltipText": " Agent", "xLabel": "Round", "yLabel": "", "Num_pools": 40} for x in labels]))
        return out

    def request(self, uri):
        from tornado.httputil import HTTPServerRequest, HTTPHeaders
        return HTTPServerRequest(method="GET", uri=uri, headers=HTTPHeaders({"Host": "localhost"}), connection=Conn(), host="localhost")

    def render_page(self):
        h = self.app.page_handler[1](self.app, self.request("/"))
        got = []
        h.finish = lambda chunk=None: got.append(chunk)
        h.get()
        if not got:
            raise Violation("page", "the server gives no page")
        return got[0].decode() if isinstance(got[0], bytes) else str(got[0])

    # ---- one message arrives at the server
    def serve(self, page):
        text = page.up.popleft()
        kind = json.loads(text).get("type")
        model = self.app.model
        hits = []
        with disk_full(self.full_next is not None and kind != "get_step", self.full_next or 0, hits):
            try:
                page.handler.on_message(text)
            except DiskFull:
                pass
        if kind != "get_step":
            self.full_next = None
        page.collect()
        self.stats.add("messages served")
        if self.app.model is not model:
            self.stats.add("executions")
        if hits:
            self.stats.add("fault:disk_full_during_reset")
            if not page.down or self.app.model is model:
                self.cut(page)  # tornado closes the connection of a failed handler
                return
        if kind == "reset":
            page.model = self.app.model
        if kind == "get_step":
            self.stats.add("rounds")

    def cut(self, page):
        page.alive = False
        page.up.clear()
        page.down.clear()
        self.stats.add("fault:connection_lost")

    def drain(self, page):
        n = 0
        while page.alive and (page.up or page.down):
            if page.up:
                self.serve(page)
            else:
                page.deliver()
            n += 1
            if n > 500:
                raise Violation("chatter", "the page and the server do not come to rest")

    def ready(self, page):
        """The user acts on a page once it shows the current parameters."""
        while page.alive and page.tick is None and page.down:
            page.deliver()

    def act(self, a):
        page = self.pages[a[1] % len(self.pages)]
        kind = a[0]
        if not page.alive:
            if kind != "reload":
                return
        if kind == "reload":
            if page.alive and page.down:
                self.stats.add("fault:page_closed_with_answers_in_flight")
            page.load()
            self.stats.add("fault:reload")
            return
        if kind == "serve":
            if page.up:
                self.serve(page)
            return
        if kind == "deliver":
            if page.down:
                page.deliver()
            return
        if kind == "cut":
            self.cut(page)
            return
        if kind == "full":
            self.full_next = a[2]
            return
        self.ready(page)
        if kind == "timer":
            page.fire(a[2])
            return
        if self.sc["polite"]:
            self.drain(page)
            if not page.alive:
                return
        elif page.up or page.down:
            self.stats.add("fault:click_with_messages_in_flight")
        if kind == "click":
            page.click(a[2])
        elif kind == "set":
            if a[2] in self.spec:
                page.set(a[2], a[3])
        elif kind == "fps":
            page.fps = a[2]
            page.do("setting the speed", [], op="fps", value=a[2])
        elif kind == "hover":
            page.hover(a[2], a[3])

    def close(self):
        """Faults stop: every page that is run to the end says so and shows all rounds."""
        self.full_next = None
        for page in self.pages:
            if not page.alive:
                page.load()
            self.drain(page)
            self.ready(page)
            if page.alive:
                page.recorded()
        page = self.pages[0]
        if self.sc["close"] == "reset" or page.finished:
            page.click("reset")
            self.drain(page)
        if not page.running:
            page.click("play")
            self.drain(page)
        for _ in range(self.app.model.max_iterations + 5 + len(page.timers)):
            self.drain(page)
            if page.finished:
                break
            page.fire(0)
        else:
            raise Violation("liveness", "the page does not come to the end of the execution (round %s)" % page.tick)
        self.drain(page)
        while page.timers:  # planned before the end: harmless
            page.fire(0)
            self.drain(page)
        page.recorded()
        for i in range(len(self.kinds)):
            page.hover(i, self.sc["seed"])
        if page.text != "Done":
            raise Violation("state-shown", "the page does not say that the execution has ended")
        self.stats.add("sessions run to the end")


class C25:
    id = "C25"
    cpu_limit = 240
    quick_runs, thorough_runs = 1200, 16000
    soft_monitors = False
    real = ["the page that the server renders: mesa's or the repository's template", "runcontrol.js / myruncontrol.js", "the three chart scripts",
            "the chart modules (Python)", "ModularServer / MyModularServer and their socket and page handlers", "Simulation"]
    stubs = ["the browser: document, timers, websocket, seeded Math.random (node's vm)", "Chart.js, sliders, switches and jQuery",
             "the network (two queues per page)", "tornado's listening loop", "wall clock", "open() (only to inject a full disk)"]
    distinct_set = "pages shown"
    rule = ("a case is one session of one or two pages: clicks, timers and single message deliveries in a chosen order; "
            "distinct_nontrivial counts distinct contents of pages compared")

    def generate(self, R, tier, i):
        server = R.choice(["runviz", "runviz", "mine", "mesa"])
        lo = {"inactive_stake_fraction_known": lambda: R.random() < 0.5, "agent_activation_order": lambda: R.choice(ORDERS),
              "seed": lambda: R.randint(0, 10 ** 6), "n": lambda: R.choice([3, 5, 8, 12, 20]), "k": lambda: R.choice([1, 2, 4, 7, 10]),
              "a0": lambda: R.choice([0, 0.1, 0.3, 1]), "cost_min": lambda: R.choice([0.0001, 0.0005, 0.001]),
              "cost_max": lambda: R.choice([0.001, 0.002, 0.05]), "inactive_stake_fraction": lambda: R.choice([0, 0.1, 0.3]),
              "extra_pool_cost_fraction": lambda: R.choice([0, 0.2, 0.4, 1]), "max_iterations": lambda: R.choice([1, 2, 5, 12, 40])}
        fixed = {"execution_id": "session", "iterations_after_convergence": R.choice([1, 2, 3]), "generate_graphs": False}
        if server == "runviz":
            lo.update(n=lambda: R.choice([10, 20]), cost_min=lambda: R.choice([0.001, 0.002]), cost_max=lambda: R.choice([0.002, 0.01]),
                      k=lambda: R.choice([1, 2, 4, 10]))
            for key in ("inactive_stake_fraction_known", "agent_activation_order", "max_iterations"):
                lo.pop(key)
            fixed["max_iterations"] = R.choice([1, 3, 8, 20])
            fixed["agent_activation_order"] = R.choice(ORDERS)
            x = R.random()
            if x < 0.05:  # many rounds
                fixed.update(max_iterations=R.choice([150, 320]), iterations_after_convergence=400)
            elif x < 0.12:  # many stakeholders
                lo["n"] = lambda: R.choice([110, 250, 400, 600])
                fixed["max_iterations"] = R.choice([1, 3])
        else:
            fixed["metrics"] = [1, 2, 3, 9, 21, 26, 27]
        initial = {k: f() for k, f in lo.items()}
        labels = [POOLS, "Mean pledge", "Total pledge", "Nakamoto coefficient"]
        charts = []
        for _ in range(R.randint(1, 4)):
            kind = R.choice(["line", "bubble", "stack"])
            charts.append([kind, R.sample(labels, R.randint(1, 2)) if kind == "line" else ["StakePairs"] if kind == "bubble" else ["Stake per agent id"]])
        pages = R.choice([1, 1, 1, 2])
        polite = R.random() < 0.5
        faults = {f for f in ("cut", "reload", "full") if R.random() < 0.25}
        slow = R.choice([0.2, 0.5, 0.8])
        acts = []
        for _ in range(R.choice([10, 40, 120])):
            p = R.randrange(pages)
            x = R.random()
            if x < 0.6:
                acts.append([R.choice(["serve", "deliver"]) if R.random() < slow else "serve", p])
                if R.random() > slow:
                    acts.append(["deliver", p])
            elif x < 0.78:
                acts.append(["timer", p, R.randint(0, 3)])
            elif x < 0.90:
                acts.append(["click", p, R.choice(["play", "play", "step", "step", "step", "reset"])])
            elif x < 0.94:
                q = R.choice(sorted(initial))
                acts.append(["set", p, q, lo[q]()])
            elif x < 0.95:
                acts.append(["fps", p, R.choice([1, 3, 10, 20, 0])])
            elif x < 0.98:
                acts.append(["hover", p, R.randint(0, 3), R.randint(0, 40)])
            elif faults:
                f = R.choice(sorted(faults))
                acts.append([f, p] + ([R.randint(0, 2)] if f == "full" else []))
                if f != "reload" and R.random() < 0.7:
                    if f == "full":
                        acts.append(["click", p, "reset"])
                        acts.append(["serve", p])
                    acts.append(["reload", p])
        return {"server": server, "initial": initial, "fixed": fixed, "charts": charts, "pages": pages, "polite": polite, "acts": acts,
                "close": R.choice(["reset", "on"]), "seed": R.randint(0, 2 ** 31)}

    def prepare(self):
        try:
            load()
        except Exception:
            pass  # reported by the runs

    def execute(self, sc, stats):
        with C.in_scratch() as root, virtual_clock():
            w = World(sc, stats, root)
            stats.add("sessions of " + sc["server"])
            for a in sc["acts"]:
                stats.add("events")
                w.act(a)
            w.close()

    def shrink(self, sc):
        def put(**kw):
            d = copy.deepcopy(sc)
            d.update(kw)
            return d
        for cand in MK.shrink_list(sc["acts"]):
            yield put(acts=cand)
        if sc["server"] != "runviz":
            for i in range(len(sc["charts"])):
                if len(sc["charts"]) > 1:
                    yield put(charts=sc["charts"][:i] + sc["charts"][i + 1:])
        if sc["pages"] > 1:
            yield put(pages=1)
        if sc["close"] != "on":
            yield put(close="on")

    def describe(self, sc):
        return {"server": sc["server"], "initial": sc["initial"], "charts": sc["charts"] if sc["server"] != "runviz" else "those of runViz.py",
                "pages": sc["pages"], "polite": sc["polite"], "acts": sc["acts"][:40]}


CHECKS = [C25]
