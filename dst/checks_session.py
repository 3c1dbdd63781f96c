"""C22: interactive sessions. The real server applications and message handlers run on a simulated network and clock; a
reference session (a plain record of the parameters plus a directly driven twin simulation) says what they must answer."""
import builtins
import contextlib
import copy
import errno
import importlib
import json
import os
import random
import sys
import warnings

from . import common as C
from . import market as MK
from .checks_files import plain
from .checks_process import virtual_clock
from .common import Violation, HarnessError

POOLS = "Pool count"


def load():
    """The modules of the interactive mode; the module that starts the server is imported with the listening loop cut off."""
    C.import_repo()
    warnings.filterwarnings("ignore", module="mesa")
    MV = importlib.import_module("mesa.visualization.ModularVisualization")
    if "interactiveViz.runViz" not in sys.modules:
        old = MV.ModularServer.launch
        MV.ModularServer.launch = lambda self, *a, **kw: None
        try:
            with C.in_scratch(), C.quiet():
                importlib.import_module("interactiveViz.runViz")
        finally:
            MV.ModularServer.launch = old
        RV = sys.modules["interactiveViz.runViz"]
        RV._dst_params = copy.deepcopy(RV.server.model_kwargs)
    MMV = importlib.import_module("interactiveViz.myModularVisualization")
    return sys.modules["interactiveViz.runViz"], MMV


class Wire:
    """The server's end of one websocket."""

    def __init__(self):
        self.sent = []
        self.broken = False
        self.client_terminated = False

    def is_closing(self):
        return self.broken

    def write_message(self, message, binary=False):
        self.sent.append(message)


class Conn:
    def set_close_callback(self, cb):
        pass


# parameters: name -> (kind, low, high); what a page lets the user set
def user_param(kind, name, value, lo=None, hi=None, step=1, choices=None):
    from mesa.visualization.UserParam import UserSettableParameter as U
    if kind == "slider":
        return U("slider", name, value, lo, hi, step)
    if kind == "number":
        return U("number", name, value)
    if kind == "checkbox":
        return U("checkbox", name, value)
    if kind == "choice":
        return U("choice", name, value=value, choices=choices)
    return U("static_text", value=value)


ORDERS = ["random", "sequential", "simultaneous", "semisimultaneous"]
MINE = {  # the parameters offered by the page in sessions of MyModularServer
    "n": ("slider", 3, 30), "k": ("slider", 1, 20), "a0": ("slider", 0, 1), "cost_min": ("slider", 0.0001, 0.001),
    "cost_max": ("slider", 0.001, 0.1), "seed": ("number",), "inactive_stake_fraction": ("slider", 0.0, 0.5),
    "extra_pool_cost_fraction": ("slider", 0.0, 1.0), "agent_activation_order": ("choice", ORDERS),
    "inactive_stake_fraction_known": ("checkbox",), "max_iterations": ("slider", 1, 40),
}


def clamp(spec, value):
    if spec[0] == "slider":
        return min(max(value, spec[1]), spec[2])
    if spec[0] == "choice":
        return value if value in spec[1] else spec[1][0]
    return value


class DiskFull(OSError):
    pass


@contextlib.contextmanager
def disk_full(active, after, hits):
    if not active:
        yield
        return
    real = builtins.open
    left = [after]

    def opener(file, mode="r", *a, **kw):
        if isinstance(file, (str, os.PathLike)) and any(c in mode for c in "wax+"):
            if left[0] == 0:
                hits.append(str(file))
                raise DiskFull(errno.ENOSPC, "No space left on device (injected)")
            left[0] -= 1
        return real(file, mode, *a, **kw)
    builtins.open = opener
    import io
    old_io = io.open
    io.open = opener
    try:
        yield
    finally:
        builtins.open = real
        io.open = old_io


class Session:
    def __init__(self, sc, stats):
        self.sc, self.stats = sc, stats
        self.RV, self.MMV = load()
        self.kind = sc["server"]
        self.values = dict(sc["initial"])      # what the user asked for last
        self.fixed = dict(sc["fixed"])
        self.broken_reset = False
        import logic.sim as S
        self.S = S
        os.makedirs("server", exist_ok=True)
        os.makedirs("twin", exist_ok=True)
        self.build()

    # ---- the real side
    def build(self):
        if self.kind == "mine":
            spec = MINE
            params = {}
            for name, s in spec.items():
                kw = {}
                if s[0] == "slider":
                    kw = dict(lo=s[1], hi=s[2], step=0.001)
                elif s[0] == "choice":
                    kw = dict(choices=list(s[1]))
                params[name] = user_param(s[0], name, self.values[name], **kw)
            params["note"] = user_param("static_text", "note", "a text")
            params.update(self.fixed)
            self.spec = spec
            charts = self.charts()
            with self.at("server"):
                self.app = self.MMV.MyModularServer(self.S.Simulation, charts, "session", params)
            self.handler_class = self.MMV.MySocketHandler
        else:
            app = self.RV.server
            MV = sys.modules["mesa.visualization.ModularVisualization"]
            app.model_kwargs = copy.deepcopy(self.RV._dst_params)
            self.spec = {}
            from mesa.visualization.UserParam import UserSettableParameter
            own = {}
            for name, p in app.model_kwargs.items():
                if not isinstance(p, UserSettableParameter):
                    own[name] = p  # not for the user to set
                    continue
                self.spec[name] = ("slider", p.min_value, p.max_value) if p.param_type == "slider" else ("number",)
                if name in self.values:
                    p.value = self.values[name]
                else:
                    self.values[name] = p.value
            app.model_kwargs.update(self.fixed)
            self.fixed = dict(own, **self.fixed)
            self.app = app
            with self.at("server"):
                app.reset_model()
            self.handler_class = MV.SocketHandler
        self.app.verbose = False
        self.clients = []
        for _ in range(self.sc["clients"]):
            self.clients.append(self.connect())
        self.new_twin()

    def charts(self):
        from interactiveViz.myChartModule import MyChartModule
        from interactiveViz.bubbleChartModule import BubbleChartModule
        from interactiveViz.stackedChartModule import StackedChartModule
        out = []
        for kind, labels in self.sc["charts"]:
            if kind == "line":
                out.append(MyChartModule([{"label": x, "title": x, "xLabel": "Round", "yLabel": x, "tooltipText": "", "color": "Blue"}
                                          for x in labels]))
            elif kind == "bubble":
                out.append(BubbleChartModule([{"Label": x} for x in labels]))
            else:
                out.append(StackedChartModule([{"Label": x, "tooltipText": "", "xLabel": "", "yLabel": "", "Num_pools": 10} for x in labels]))
        return out

    @contextlib.contextmanager
    def at(self, d):
        old = os.getcwd()
        os.chdir(os.path.join(self.sc_root(), d))
        try:
            yield
        finally:
            os.chdir(old)

    def sc_root(self):
        return self.sc["_root"]

    def connect(self):
        from tornado.httputil import HTTPServerRequest, HTTPHeaders
        req = HTTPServerRequest(method="GET", uri="/ws", headers=HTTPHeaders({"Host": "localhost"}), connection=Conn(), host="localhost")
        h = self.handler_class(self.app, req)
        h.ws_connection = Wire()
        h.open()
        msgs = [json.loads(m) for m in h.ws_connection.sent]
        h.ws_connection.sent = []
        if len(msgs) != 1 or msgs[0].get("type") != "model_params":
            raise Violation("greeting", "a new client is greeted with %s" % [m.get("type") for m in msgs])
        shown = {k: v.get("value") for k, v in msgs[0]["params"].items() if k in self.spec}
        want = {k: self.values[k] for k in self.spec}
        if shown != want:
            bad = sorted(k for k in want if shown.get(k) != want[k])
            raise Violation("greeting", "the page shows %s for %s, last set: %s" % ([shown.get(k) for k in bad], bad, [want[k] for k in bad]))
        return h

    # ---- the reference side
    def args(self):
        a = {k: self.values[k] for k in self.spec}
        a.update(self.fixed)
        return a

    def new_twin(self):
        with self.at("twin"):
            self.twin = self.S.Simulation(**copy.deepcopy(self.args()))
        self.stats.add("executions")

    def state(self):
        m = self.app.model
        return MK.canon(m), {k: [plain(x) for x in v] for k, v in m.datacollector.model_vars.items()}

    def compare(self, what):
        got, gm = self.state()
        want = MK.canon(self.twin)
        wm = {k: [plain(x) for x in v] for k, v in self.twin.datacollector.model_vars.items()}
        self.stats.add("states compared")
        if got != want:
            raise Violation("state", "after %s the session's market differs from the expected one in %s"
                            % (what, [k for k in want if got.get(k) != want[k]]))
        if gm != wm:
            raise Violation("metrics", "after %s the session recorded other metrics: %s" % (what, [k for k in wm if gm.get(k) != wm[k]]))
        self.stats.seen("session states", C.digest([got["pools"], got["step"]]))

    def expected_view(self):
        out = []
        mv = self.twin.datacollector.model_vars
        charts = self.sc["charts"] if self.kind == "mine" else [["line", [POOLS]], ["stack", ["Stake per agent id"]], ["bubble", ["StakePairs"]]]
        for kind, labels in charts:
            if kind == "line":
                out.append([plain(mv[x][-1]) for x in labels if x in mv and mv[x]])
            elif kind == "bubble":
                flat = []
                for x in labels:
                    if x in mv and mv[x]:
                        d = mv[x][-1]
                        for row in zip(*(d[c] for c in ("x", "y", "r", "pool_id", "owner_id"))):
                            flat += [plain(y) for y in row]
                out.append(flat)
            else:
                keys, vals = [], []
                for x in labels:
                    if x in mv and mv[x]:
                        keys, vals = [plain(y) for y in mv[x][-1].keys()], [plain(y) for y in mv[x][-1].values()]
                out.append([keys, vals])
        return json.loads(json.dumps(out))

    def all_charts_served(self):
        """The page that the repository ships gets the data that each of its charts shows."""
        if self.kind == "mine" or "metrics" in self.sc["fixed"]:
            return
        recorded = self.app.model.datacollector.model_vars
        for element in self.app.visualization_elements:
            for s in element.series:
                label = s.get("label", s.get("Label"))
                if not recorded.get(label):
                    raise Violation("empty-chart", "the chart of '%s' on the page gets no data: the metric is not recorded" % label)
        self.stats.add("rounds of the shipped page with data for every chart")

    # ---- one delivered message
    def deliver(self, ev):
        st = self.stats
        c, text, extra = ev["client"], ev["text"], ev
        h = self.clients[c % len(self.clients)]
        wire = h.ws_connection
        wire.sent = []
        wire.broken = bool(ev.get("broken"))
        st.add("events")
        st.add("messages")
        hits = []
        raised = None
        before_model = self.app.model
        with self.at("server"), disk_full(ev.get("full") is not None, ev.get("full") or 0, hits):
            try:
                h.on_message(text)
            except DiskFull as e:
                raised = e
            except (ValueError, KeyError, TypeError, AttributeError) as e:
                raised = e
                if ev["kind"] != "malformed":
                    raise
            except Exception as e:
                if type(e).__name__ != "WebSocketClosedError":
                    raise
                raised = e
        replies = [json.loads(m) for m in wire.sent]
        if wire.broken:
            st.add("fault:connection_lost_before_reply")
            wire.broken = False
            self.clients[c % len(self.clients)] = None
        if hits:
            st.add("fault:disk_full_during_reset")
        self.expect(ev, replies, raised, bool(hits), before_model)
        if self.clients[c % len(self.clients)] is None:
            self.clients[c % len(self.clients)] = self.connect()
            st.add("fault:reconnect")

    def expect(self, ev, replies, raised, hit, before_model):
        kind, broken = ev["kind"], ev.get("broken")
        what = "the message %s" % ev["text"][:80]
        answer = None
        if kind == "step":
            if not self.twin.running:
                answer = {"type": "end"}
                if self.app.model is not before_model:
                    raise Violation("replaced", "%s replaced the simulation" % what)
                self.stats.add("steps after the end")
            else:
                with self.at("twin"):
                    self.twin.step()
                self.stats.add("rounds")
                if self.app.model is not before_model:
                    raise Violation("replaced", "%s replaced the simulation" % what)
                answer = {"type": "viz_state", "data": self.expected_view()}
                self.all_charts_served()
        elif kind == "reset" or (kind == "submit" and ev["param"] in self.spec):
            if kind == "submit":
                self.values[ev["param"]] = clamp(self.spec[ev["param"]], ev["value"])
                self.stats.add("parameters submitted")
            if kind == "reset" or self.kind == "mine":
                if hit and raised is not None:
                    if self.app.model is not before_model:
                        raise Violation("damaged", "%s failed (disk full) but replaced the simulation" % what)
                    self.compare("%s, which failed because the disk was full," % what)
                    return
                if self.app.model is before_model:
                    raise Violation("not-reset", "%s did not start a new execution" % what)
                self.new_twin()
                self.stats.add("resets")
                if kind == "reset":
                    answer = {"type": "viz_state", "data": self.expected_view()}
        else:
            if self.app.model is not before_model:
                raise Violation("replaced", "the invalid %s replaced the simulation" % what)
            self.stats.add("fault:invalid_message")
        if not broken:
            if answer is None and replies:
                raise Violation("reply", "%s is answered with %s" % (what, json.dumps(replies)[:200]))
            if answer is not None and replies != [answer]:
                raise Violation("reply", "%s is answered with %s instead of %s" % (what, json.dumps(replies)[:300], json.dumps([answer])[:300]))
            if answer is not None:
                self.stats.add("replies checked")
        self.compare(what)


class C22:
    id = "C22"
    quick_runs, thorough_runs = 900, 12000
    soft_monitors = False
    real = ["MyModularServer", "MySocketHandler (constructed and fed by the simulated network)", "interactiveViz.runViz's server object "
            "with mesa's SocketHandler", "the chart modules", "Simulation", "mesa's user parameters"]
    stubs = ["the websocket connection", "tornado's listening loop", "wall clock", "open() (only to inject a full disk)"]
    distinct_set = "session states"
    rule = ("a case is one session: the messages of one to three clients, after loss, duplication, reordering and corruption by the "
            "simulated network, delivered one by one to the real handler; distinct_nontrivial counts distinct market states compared")

    def generate(self, R, tier, i):
        server = "mine" if R.random() < 0.75 else "runviz"
        lo = {"inactive_stake_fraction_known": lambda: R.random() < 0.5, "agent_activation_order": lambda: R.choice(ORDERS),
              "seed": lambda: R.randint(0, 10 ** 6), "n": lambda: R.choice([3, 5, 8, 12, 20]), "k": lambda: R.choice([1, 2, 4, 7, 10]),
              "a0": lambda: R.choice([0, 0.1, 0.3, 1]), "cost_min": lambda: R.choice([0.0001, 0.0005, 0.001]),
              "cost_max": lambda: R.choice([0.001, 0.002, 0.05]), "inactive_stake_fraction": lambda: R.choice([0, 0.1, 0.3]),
              "extra_pool_cost_fraction": lambda: R.choice([0, 0.2, 0.4, 1]), "max_iterations": lambda: R.choice([1, 2, 5, 12, 40])}
        if server == "runviz":
            lo.update(n=lambda: R.choice([10, 20]), cost_min=lambda: R.choice([0.001, 0.002]), cost_max=lambda: R.choice([0.002, 0.01]),
                      k=lambda: R.choice([1, 2, 4, 10]))
            for key in ("inactive_stake_fraction_known", "agent_activation_order", "max_iterations"):
                lo.pop(key)
        out_of_range = {"n": [-5, 10000], "k": [0, -1, 1000], "a0": [-1, 7], "cost_max": [0, 5], "extra_pool_cost_fraction": [-0.1, 3],
                        "agent_activation_order": ["Nonsense"], "max_iterations": [0]}
        if server == "runviz":
            out_of_range["n"] = [1]
            out_of_range["k"] = [0, -3]
        else:
            out_of_range["n"] = [-5, 400]
        initial = {k: f() for k, f in lo.items()}
        metrics = R.choice([[1, 2, 9, 21, 27], [1, 3, 21, 26, 27], MK.ALL_METRICS, [1], None, [2, 4, 27]])
        if server == "runviz" and R.random() < 0.7:
            metrics = None  # those of the page
        fixed = {"execution_id": "session", "iterations_after_convergence": R.choice([1, 2, 3]), "generate_graphs": False}
        if metrics is not None:
            fixed["metrics"] = metrics
        if server == "runviz":
            fixed["max_iterations"] = R.choice([1, 3, 8, 20])
            fixed["agent_activation_order"] = R.choice(ORDERS)
        labels = [POOLS, "Mean pledge", "Total pledge", "Nakamoto coefficient", "Nothing like that"]
        charts = []
        for _ in range(R.randint(1, 4)):
            kind = R.choice(["line", "bubble", "stack"])
            charts.append([kind, R.sample(labels, R.randint(1, 3)) if kind == "line" else ["StakePairs"] if kind == "bubble" else ["Stake per agent id"]])
        # clients and the network
        clients = R.choice([1, 1, 2, 3])
        faults = {f for f in ("drop", "dup", "reorder", "garbage", "break", "full", "clock") if R.random() < 0.45}
        wire = []
        for c in range(clients):
            for _ in range(R.choice([5, 15, 40])):
                x = R.random()
                if x < 0.7:
                    m = {"kind": "step", "text": json.dumps({"type": "get_step", "step": R.randint(0, 50)})}
                elif x < 0.78:
                    m = {"kind": "reset", "text": json.dumps({"type": "reset"})}
                elif x < 0.93 or "garbage" not in faults:
                    p = R.choice(sorted(initial))
                    v = lo[p]() if R.random() < 0.8 or p not in out_of_range else R.choice(out_of_range[p])
                    m = {"kind": "submit", "param": p, "value": v, "text": json.dumps({"type": "submit_params", "param": p, "value": v})}
                else:
                    m = {"kind": "malformed", "text": R.choice([
                        "", "{", "null", "[]", "17", json.dumps({"type": "get_steps"}), json.dumps({"step": 3}), json.dumps({"type": None}),
                        json.dumps({"type": "submit_params"}), json.dumps({"type": "submit_params", "param": "k"}),
                        json.dumps({"type": "submit_params", "param": "pools", "value": 3}), json.dumps({"type": "get_params"}),
                        json.dumps({"type": "submit_params", "param": "running", "value": False}), '{"type": "get_step"', json.dumps({"type": "RESET"}),
                        json.dumps({"type": "submit_params", "param": "execution_id", "value": "stolen"}),
                        json.dumps({"type": "submit_params", "param": "iterations_after_convergence", "value": 1})])}
                wire.append((len(wire) / clients + R.random() * (5 if "reorder" in faults else 1), dict(m, client=c)))
        if clients > 1 or "reorder" in faults:
            R.shuffle(wire) if R.random() < 0.2 else wire.sort(key=lambda x: x[0])
        events = []
        counts = {"drop": 0, "dup": 0}
        for _, m in wire:
            if "drop" in faults and R.random() < 0.1:
                counts["drop"] += 1
                continue
            if "break" in faults and R.random() < 0.05:
                m = dict(m, broken=True)
            if "full" in faults and m["kind"] in ("reset", "submit") and R.random() < 0.4:
                m = dict(m, full=R.randint(0, 2))
            events.append(m)
            if "dup" in faults and R.random() < 0.15:
                counts["dup"] += 1
                events.append(copy.deepcopy(m))
            if "clock" in faults and R.random() < 0.05:
                events.append({"kind": "clock", "dt": R.choice([-1e5, 3600, 1e7])})
        return {"server": server, "initial": initial, "fixed": fixed, "charts": charts, "clients": clients, "events": events,
                "network": dict(counts, reorder="reorder" in faults or clients > 1)}

    def prepare(self):
        try:
            load()
        except Exception:
            pass  # reported by the runs

    def execute(self, sc, stats):
        for k, v in sc.get("network", {}).items():
            if v:
                stats.add("fault:message_" + k, int(v))
        with C.in_scratch() as root, virtual_clock():
            s = Session(dict(sc, _root=root), stats)
            s.compare("the start")
            stats.add("sessions of " + sc["server"])
            for ev in sc["events"]:
                if ev["kind"] == "clock":
                    MK.CLOCK.jump(ev["dt"])
                    stats.add("fault:clock_jump")
                else:
                    s.deliver(ev)

    def shrink(self, sc):
        def put(**kw):
            d = copy.deepcopy(sc)
            d.update(kw)
            return d
        for cand in MK.shrink_list(sc["events"]):
            yield put(events=cand)
        for key in ("broken", "full"):
            for i, e in enumerate(sc["events"]):
                if e.get(key) is not None:
                    ev = copy.deepcopy(sc["events"])
                    ev[i].pop(key)
                    yield put(events=ev)
        for i in range(len(sc["charts"])):
            if len(sc["charts"]) > 1:
                yield put(charts=sc["charts"][:i] + sc["charts"][i + 1:])
        if sc["clients"] > 1:
            yield put(clients=1)

    def describe(self, sc):
        return {"server": sc["server"], "initial": sc["initial"], "fixed": {k: v for k, v in sc["fixed"].items() if k != "metrics"},
                "clients": sc["clients"], "messages": [e.get("text", e["kind"]) for e in sc["events"][:30]],
                "faulty": [[i, e.get("broken"), e.get("full")] for i, e in enumerate(sc["events"]) if e.get("broken") or e.get("full") is not None][:10]}


CHECKS = [C22]
