BUGS = []


def bug(id, property, needs, breaks, edits, demo, **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))


IV = "interactiveViz/"
NODE = '''
import json, subprocess
def node(code):
    head = """
const fs = require("fs"), vm = require("vm");
const REPO = %s;
const el = () => ({ appendChild() {}, append() {}, getContext() { return {}; }, firstElementChild: {}, style: {} });
const charts = [];
const g = { console, Math, control: { tick: 0, running: true }, document: { getElementById: el, createElement: el, body: el() },
  Chart: class { constructor(c, o) { o.data.labels = o.data.labels || []; this.config = o; this.data = o.data; this.options = o.options; charts.push(this); } update() {} } };
g.window = g;
vm.createContext(g);
const load = (f) => vm.runInContext(fs.readFileSync(REPO + "/interactiveViz/" + f, "utf8"), g);
const need = (x, m) => { if (!x) { console.error(m); process.exit(1); } };
""" %% json.dumps(REPO)
    r = subprocess.run(["node", "-e", head + code], stdout=subprocess.DEVNULL)
    assert r.returncode == 0, "the page's script misbehaves"
'''.replace("%%", "%")

bug("one-bubble-per-owner", "C25", "an owner with several pools", "the bubble chart shows only the first pool of each owner",
    [(IV + "bubbleChartModule.js", "            if (data[i] > 0) {", "            if (data[i] > 0 && !pointData.some((p) => p.owner_id === data[i+4])) {")],
    NODE + '''
node("""
load("bubbleChartModule.js");
const m = vm.runInContext("new BubbleChartModule([{Label: 'x'}], 500, 200)", g);
m.render([0.1, 0.2, 0.3, 1, 7, 0.1, 0.25, 0.3, 2, 7]);
need(charts[0].data.datasets[0].data.length === 2, "bubbles");
""")
''')

bug("scripts-cap-margins", "C25", "a pool with a margin above one half", "its bubble is as large as that of a margin of one half",
    [(IV + "bubbleChartModule.js", "r: 3 + 20*data[i+2],", "r: 3 + 20*Math.min(data[i+2], 0.5),")],
    NODE + '''
node("""
load("bubbleChartModule.js");
const m = vm.runInContext("new BubbleChartModule([{Label: 'x'}], 500, 200)", g);
m.render([0.1, 0.2, 0.75, 1, 7]);
need(charts[0].data.datasets[0].data[0].r === 18, "size");
""")
''')

bug("only-the-last-hundred-rounds", "C25", "an execution of more than 100 rounds", "the line chart loses its first points while its axis keeps the rounds",
    [(IV + "myChartModule.js", "            chart.data.datasets[i].data.push(data[i]);",
      "            chart.data.datasets[i].data = chart.data.datasets[i].data.concat([data[i]]).slice(-100);")],
    NODE + '''
node("""
load("myChartModule.js");
const m = vm.runInContext("new MyChartModule([{label: 'x', title: 'x', color: 'Blue'}], 500, 200)", g);
for (let i = 0; i < 130; i++) m.render([i]);
need(charts[0].data.datasets[0].data[0] === 0, "first point");
""")
''')

bug("reset-keeps-the-planned-round", "C25", "a reset while the next round of a running page is planned", "after the reset two chains of rounds run, and the next round is asked for before the answer to the reset",
    [(IV + "templates/js/myruncontrol.js", "        clearTimeout(this.timeout)\n", "        if (!this.running) { clearTimeout(this.timeout) }\n")],
    NODE + '''
node("""
let timers = new Map(), id = 0, els = {}, socket;
g.setTimeout = (f) => { timers.set(++id, f); return id; };
g.clearTimeout = (k) => timers.delete(k);
g.document.getElementById = (k) => els[k] || (els[k] = { firstElementChild: {} });
g.location = { protocol: "http:", host: "x" };
g.WebSocket = class { constructor() { socket = this; } send() {} };
const w = new Proxy(function () {}, { get: () => w, apply: () => w });
g.$ = w;
load("templates/js/myruncontrol.js");
els["play-pause"].onclick();
socket.onmessage({ data: JSON.stringify({ type: "viz_state", data: [] }) });
need(timers.size === 1, "a round is planned");
els["reset"].onclick();
need(timers.size === 0, "it is not planned any more");
""")
''')

bug("sliders-submit-whole-numbers", "C25", "a parameter with a fraction set with its slider", "the page submits it without the fraction",
    [(IV + "templates/js/myruncontrol.js", '''            ticks_positions: [0, 100]
        });
        sliderInput.on('change', function () {
            onSubmitCallback(param, Number($(this).val()));''', '''            ticks_positions: [0, 100]
        });
        sliderInput.on('change', function () {
            onSubmitCallback(param, parseInt($(this).val()));''')],
    NODE + '''
node("""
let els = {}, socket, sent = [], change = [];
g.setTimeout = () => 1; g.clearTimeout = () => {};
g.document.getElementById = (k) => els[k] || (els[k] = { firstElementChild: {} });
g.location = { protocol: "http:", host: "x" };
g.WebSocket = class { constructor() { socket = this; } send(m) { sent.push(JSON.parse(m)); } };
const w = { append() { return w; }, slider() { return w; }, on(e, f) { change.push(f); return w; }, val() { return "0.25"; }, tooltip() { return w; } };
g.$ = () => w;
load("templates/js/myruncontrol.js");
socket.onmessage({ data: JSON.stringify({ type: "model_params", params: { a0: { param_type: "slider", name: "a0", value: 0, min_value: 0, max_value: 1, step: 0.01, description: null } } }) });
change[change.length - 1].call({});
need(sent.some((m) => m.type === "submit_params" && m.value === 0.25), JSON.stringify(sent));
""")
''')

bug("room-for-a-hundred-stakeholders", "C25", "the shipped page with more than 100 stakeholders", "the page's script fails at the first round and every later one",
    [(IV + "runViz.py", '"Num_pools": MAX_NUM_POOLS', '"Num_pools": 100')],
    '''
import mesa.visualization.ModularVisualization
MV = sys.modules["mesa.visualization.ModularVisualization"]
MV.ModularServer.launch = lambda self, *a, **kw: None
import re
with quiet():
    import interactiveViz.runViz as R
code = "".join(R.server.js_code)
most = R.server.model_kwargs["n"].max_value
room = [int(x) for x in re.findall(r'"Num_pools": *(\\d+)', code)]
assert room and min(room) >= most, (room, most)
''')

bug("stacks-of-the-first-round-agents", "C25", "a reset after the number of stakeholders was lowered", "the stacked chart keeps the old stakes of the agents that no longer exist",
    [(IV + "stackedChartModule.js", '''        while (chart.data.labels.length) { chart.data.labels.pop(); }
        chart.data.datasets.forEach(function(dataset) {
            while (dataset.data.length) { dataset.data.pop(); }
        });''', '''        var rounds = chart.data.labels.splice(0).length;
        chart.data.datasets.filter((dataset) => dataset.data.length + 1 >= rounds).forEach(function(dataset) {
            while (dataset.data.length) { dataset.data.pop(); }
        });''')],
    NODE + '''
node("""
load("stackedChartModule.js");
const m = vm.runInContext("new StackedChartModule([{Label: 'x', tooltipText: '', xLabel: '', yLabel: '', Num_pools: 5}], 500, 200)", g);
m.render([[], []]);
m.render([[0, 1, 2], [0.1, 0.2, 0.3]]);
m.render([[0, 1], [0.1, 0.2]]);
m.render([[0, 1], [0.1, 0.2]]);
m.reset();
need(charts[0].data.datasets.every((d) => d.data.length === 0), "empty after a reset");
""")
''')
