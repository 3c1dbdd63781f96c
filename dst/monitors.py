"""Monitors: one per market property."""
import random
from math import fsum, inf, isclose, isnan

from . import common as C
from . import ref
from .common import Violation, digest
from .market import (Monitor, agent_state, agent_view, market_view, pool_state, profile_of, snapshot)

EPS = 1e-10


def near(a, b, tol=EPS):
    return abs(a - b) <= tol


def state_digest(sim):
    return digest([[(int(i), p.owner, round(float(p.stake), 12), round(float(p.pledge), 12), round(float(p.margin), 9))
                    for i, p in sorted(sim.pools.items())]])


class Coverage(Monitor):
    """Counts distinct market states; attached to every market check."""

    def post_round(self, run):
        run.stats.seen("market states", state_digest(run.sim))

    def end(self, run):
        s = run.stats
        s.add("ended converged" if run.sim.has_converged() else "ended at limit" if run.ended else "cut")
        s.add("order:" + run.cfg["agent_activation_order"])
        s.add("scheme:%d" % run.cfg["reward_scheme"])
        s.max("pools", len(run.sim.pools))


class Ledger(Monitor):  # C01
    def boundary(self, run):
        run.stats.add("ledger checks")
        sim = run.sim
        agents = {a.unique_id: a for a in sim.schedule.agents}
        for pid, p in sim.pools.items():
            total = p.pledge + fsum(p.delegators.values())
            if not near(p.stake, total):
                raise Violation("pool-stake", "pool %s has stake %r but pledge %r plus delegations add up to %r"
                                % (pid, float(p.stake), float(p.pledge), float(total)))
            for aid, amount in p.delegators.items():
                if not amount > 0:
                    raise Violation("non-positive-delegation", "pool %s records delegation %r of %s" % (pid, amount, aid))
                ag = agents.get(aid)
                st = ag.strategy.stake_allocations if ag is not None and ag.strategy is not None else {}
                if pid not in st:
                    raise Violation("unmatched-delegator", "pool %s records a delegation of %r by %s, who does not delegate to it"
                                    % (pid, float(amount), aid))
                if not near(st[pid], amount, 1e-12):
                    raise Violation("amount-mismatch", "pool %s records %r from %s, who delegates %r"
                                    % (pid, float(amount), aid, float(st[pid])))
            if p.delegators:
                run.stats.add("pools with delegators")
        for a in agents.values():
            if a.strategy is None:
                continue
            for pid, amount in a.strategy.stake_allocations.items():
                p = sim.pools.get(pid)
                if p is None:
                    raise Violation("delegation-to-nothing", "%s delegates %r to pool %s, which is not open"
                                    % (a.unique_id, float(amount), pid))
                if amount > 1e-15 and a.unique_id not in p.delegators:
                    raise Violation("unrecorded-delegation", "%s delegates %r to pool %s, which does not record it"
                                    % (a.unique_id, float(amount), pid))

    def begin(self, run):
        self.boundary(run)

    def post_round(self, run):
        self.boundary(run)

    def restored(self, run):
        self.boundary(run)


class Budget(Monitor):  # C02
    def begin(self, run):
        sim = run.sim
        self.stakes = {a.unique_id: a.stake for a in sim.schedule.agents}
        f = run.cfg["inactive_stake_fraction"]
        self.active = 1 - f
        total = fsum(self.stakes.values())
        if not near(total, 1 - f, 1e-9):
            raise Violation("active-stake", "the stakes add up to %r instead of %r" % (float(total), 1 - f))
        self.boundary(run)

    def boundary(self, run):
        run.stats.add("budget checks")
        sim = run.sim
        agents = sim.schedule.agents
        if len(agents) != len(self.stakes):
            raise Violation("population-changed", "there are %d stakeholders instead of %d" % (len(agents), len(self.stakes)))
        used = {a.unique_id: 0.0 for a in agents}
        total = 0.0
        for pid, p in sim.pools.items():
            if p.pledge < 0 or p.stake < -EPS:
                raise Violation("negative", "pool %s has pledge %r and stake %r" % (pid, p.pledge, p.stake))
            used[p.owner] += p.pledge
            total += p.stake
            for aid, x in p.delegators.items():
                if x < 0:
                    raise Violation("negative", "pool %s records delegation %r of %s" % (pid, x, aid))
                used[aid] += x
        for a in agents:
            if a.stake != self.stakes[a.unique_id] or a.stake < 0:
                raise Violation("stake-changed", "the stake of %s changed from %r to %r"
                                % (a.unique_id, self.stakes[a.unique_id], a.stake))
            if used[a.unique_id] > a.stake + EPS:
                raise Violation("overspent", "%s owns %r but pledges and delegates %r"
                                % (a.unique_id, float(a.stake), float(used[a.unique_id])))
            if a.strategy is not None:
                s = a.strategy
                own = fsum(p.pledge for p in s.owned_pools.values()) + fsum(s.stake_allocations.values())
                if own > a.stake + EPS:
                    raise Violation("overspent", "the strategy of %s uses %r of a stake of %r"
                                    % (a.unique_id, float(own), float(a.stake)))
                if any(x < 0 for x in s.stake_allocations.values()):
                    raise Violation("negative", "%s delegates a negative amount" % a.unique_id)
        if total > self.active + 1e-9:
            raise Violation("more-than-active", "the pools hold %r, the active stake is %r" % (float(total), self.active))

    def post_round(self, run):
        self.boundary(run)


class Ownership(Monitor):  # C03
    def begin(self, run):
        self.ids_seen = {}
        self.closed = set()
        self.open = {}
        self.boundary(run)

    def restored(self, run):
        self.boundary(run)

    def boundary(self, run):
        run.stats.add("reference checks")
        sim = run.sim
        agents = {a.unique_id: a for a in sim.schedule.agents}
        owners = {}
        for a in agents.values():
            ab = profile_of(a) == "ab"
            s = a.strategy
            if s is None:
                if not ab:
                    raise Violation("no-strategy", "%s has no strategy" % a.unique_id)
                continue
            if ab and (s.owned_pools or s.stake_allocations):
                raise Violation("abstainer-acts", "abstainer %s owns pools or delegates" % a.unique_id)
            for pid, p in s.owned_pools.items():
                if pid in owners:
                    raise Violation("two-owners", "pool %s is listed by %s and %s" % (pid, owners[pid], a.unique_id))
                owners[pid] = a.unique_id
                q = sim.pools.get(pid)
                if q is None:
                    raise Violation("owns-closed-pool", "%s lists pool %s, which is not open" % (a.unique_id, pid))
                if q is not p:
                    raise Violation("not-the-same-pool", "%s lists another version of pool %s than the open one" % (a.unique_id, pid))
                if q.owner != a.unique_id:
                    raise Violation("wrong-owner", "pool %s names owner %s but is listed by %s" % (pid, q.owner, a.unique_id))
                if p.id != pid:
                    raise Violation("wrong-id", "pool %s is listed as %s" % (p.id, pid))
            for pid in s.stake_allocations:
                q = sim.pools.get(pid)
                if q is None:
                    raise Violation("delegates-to-closed", "%s delegates to pool %s, which is not open" % (a.unique_id, pid))
                if q.owner == a.unique_id:
                    raise Violation("delegates-to-self", "%s delegates to own pool %s" % (a.unique_id, pid))
        for pid, p in sim.pools.items():
            if p.id != pid:
                raise Violation("wrong-id", "pool %s is registered as %s" % (p.id, pid))
            if owners.get(pid) is None:
                raise Violation("unowned", "pool %s (owner %s) is not listed by its owner" % (pid, p.owner))
            if p.owner in p.delegators:
                raise Violation("delegates-to-self", "pool %s records its owner as delegator" % pid)
            if pid in self.closed:
                raise Violation("id-reused", "the identifier %s of a closed pool is used again" % pid)
            if pid in self.open and self.open[pid] != p.owner:
                raise Violation("id-reused", "pool %s changed from owner %s to %s" % (pid, self.open[pid], p.owner))
        now = {pid: p.owner for pid, p in sim.pools.items()}
        gone = set(self.open) - set(now)
        if gone:
            run.stats.add("pools closed", len(gone))
            self.closed |= gone
        new = set(now) - set(self.open)
        for pid in new:
            if self.open and False:
                pass
        run.stats.add("pools opened", len(new))
        self.open = now

    def post_round(self, run):
        self.boundary(run)


class Privacy(Monitor):  # C04
    def begin(self, run):
        self.known = {}
        self.boundary(run)

    def restored(self, run):
        self.known = {}
        for pid, p in run.sim.pools.items():
            self.known[pid] = (id(p), p.is_private)

    def boundary(self, run):
        sim = run.sim
        P = run.params()
        for pid, p in sim.pools.items():
            k = self.known.get(pid)
            if k is None or k[0] != id(p):
                thr = ref.threshold(P, p.pledge)
                if abs(p.pledge - thr) > 1e-13 or p.pledge == thr:
                    want = p.pledge >= thr
                    if bool(p.is_private) != want:
                        raise Violation("wrong-flag", "pool %s was set up with pledge %r, saturation point %r, and is %s"
                                        % (pid, float(p.pledge), float(thr), "private" if p.is_private else "public"))
                if k is not None and p.is_private and not k[1]:
                    run.stats.add("pools turned private")
                run.stats.add("private set-ups" if p.is_private else "public set-ups")
            elif k[1] != p.is_private:
                raise Violation("flag-changed", "pool %s changed to %s without its owner" % (pid, p.is_private))
            self.known[pid] = (id(p), p.is_private)
            if p.is_private:
                if p.delegators:
                    raise Violation("delegators", "private pool %s holds delegations %s" % (pid, dict(p.delegators)))
                if not near(p.stake, p.pledge):
                    raise Violation("stake", "private pool %s has stake %r and pledge %r" % (pid, float(p.stake), float(p.pledge)))
        for pid in list(self.known):
            if pid not in sim.pools:
                del self.known[pid]
        for a in sim.schedule.agents:
            if a.strategy is not None:
                for pid in a.strategy.stake_allocations:
                    p = sim.pools.get(pid)
                    if p is not None and p.is_private:
                        raise Violation("delegates-to-private", "%s delegates to private pool %s" % (a.unique_id, pid))

    def post_round(self, run):
        self.boundary(run)


class Rankings(Monitor):  # C05
    def begin(self, run):
        self.boundary(run)

    def restored(self, run):
        self.boundary(run)

    def boundary(self, run):
        run.stats.add("ranking checks")
        sim = run.sim
        P = run.params()
        pools = sim.pools
        own = {}
        for p in pools.values():
            own[p.owner] = own.get(p.owner, 0) + 1
            pp = ref.potential_profit(P, p.pledge, p.cost)
            if not near(p.potential_profit, pp, 1e-12 + 1e-9 * abs(pp)):
                raise Violation("stale-profit", "pool %s has potential profit %r instead of %r" % (p.id, float(p.potential_profit), float(pp)))
            d = ref.desirability(p.margin, pp)
            if not near(p.desirability, d, 1e-12 + 1e-9 * abs(d)):
                raise Violation("stale-desirability", "pool %s has desirability %r instead of %r" % (p.id, float(p.desirability), float(d)))
        most = max(own.values(), default=0)
        for name, ranking in (("long-term", sim.pool_rankings), ("current", sim.pool_rankings_myopic)):
            items = list(ranking)
            listed = [p for p in items if p is not None]
            if len(listed) != len(pools) or {id(p) for p in listed} != {id(p) for p in pools.values()}:
                raise Violation("content", "the %s ranking lists pools %s, open are %s"
                                % (name, sorted(p.id for p in listed), sorted(pools)))
            empty = len(items) - len(listed)
            if empty + len(listed) - most < P.k:
                raise Violation("too-short", "the %s ranking has %d places for others, k is %d" % (name, empty + len(listed) - most, P.k))
            if name == "long-term":
                val = {p.id: float(p.desirability) for p in listed}
            else:
                val = {p.id: float(ref.desirability(p.margin, ref.reward(P, p.pledge, p.stake) - p.cost)) for p in listed}
            for a, b in zip(listed, listed[1:]):
                x, y = val[a.id], val[b.id]
                if x < y - 1e-13:
                    raise Violation("order", "the %s ranking puts pool %s (%r) before %s (%r)" % (name, a.id, x, b.id, y))
                if name == "long-term" and x == y:
                    if a.potential_profit < b.potential_profit:
                        raise Violation("tie", "the %s ranking puts pool %s before %s despite lower potential profit" % (name, a.id, b.id))
                    if a.potential_profit == b.potential_profit and a.id > b.id:
                        raise Violation("tie", "the %s ranking puts the younger pool %s before %s" % (name, a.id, b.id))
                if name == "current" and (a.pledge, a.stake, a.cost, a.margin) == (b.pledge, b.stake, b.cost, b.margin) and a.id > b.id:
                    raise Violation("tie", "the %s ranking puts the younger pool %s before %s" % (name, a.id, b.id))
                if x == y:
                    run.stats.add("ties ranked")
            seen_empty = False
            for p in items:
                if p is None:
                    seen_empty = True
                elif seen_empty and val[p.id] > 1e-13:
                    raise Violation("order", "the %s ranking puts an empty place before pool %s" % (name, p.id))
            for p in listed:
                try:
                    ranking.index(p)
                except ValueError:
                    raise Violation("lost", "the %s ranking cannot find pool %s, which it lists" % (name, p.id))
        for a in sim.schedule.agents:
            prof = profile_of(a)
            if prof == "ab":
                continue
            want = sim.pool_rankings if prof == "nm" else sim.pool_rankings_myopic
            if a.rankings is not want:
                raise Violation("not-shared", "stakeholder %s does not consult the ranking of the simulation" % a.unique_id)

    def post_round(self, run):
        self.boundary(run)


class LaterRankings(Rankings):  # C12: the rankings follow the parameters of the later phases
    def boundary(self, run):
        if run.sim.current_phase > 0:
            Rankings.boundary(self, run)


def diff_pools(before, after, tol=1e-11):
    """Describe differences of two pool snapshots, ignoring floating point dust."""
    out = {}
    for pid in before.keys() | after.keys():
        a, b = before.get(pid), after.get(pid)
        if a is None or b is None:
            out[pid] = "opened" if a is None else "closed"
            continue
        why = []
        for name, x, y in zip(("owner", "pledge", "stake", "cost", "margin", "private", "pp", "des"), a, b):
            if name in ("owner", "private"):
                if x != y:
                    why.append(name)
            elif abs(x - y) > tol:
                why.append(name)
        da, db = a[8], b[8]
        for i in da.keys() | db.keys():
            if abs(da.get(i, 0) - db.get(i, 0)) > tol:
                why.append(("delegator", i))
        if why:
            out[pid] = why
    return out


def same_agent(a, b, tol=1e-11):
    if a is None or b is None:
        return a is b
    for x, y in ((a[0], b[0]),):
        for i in x.keys() | y.keys():
            if abs(x.get(i, 0) - y.get(i, 0)) > tol:
                return False
    if a[1].keys() != b[1].keys():
        return False
    return all(abs(u - v) <= tol for i in a[1] for u, v in zip(a[1][i], b[1][i]))


class Isolation(Monitor):  # C06
    def begin(self, run):
        self.pre = None

    def ranking_ids(self, sim):
        return ([None if p is None else p.id for p in sim.pool_rankings],
                [None if p is None else p.id for p in sim.pool_rankings_myopic])

    def pending(self, sim, but):
        return {a.unique_id: (dict(a.new_strategy.stake_allocations), sorted(a.new_strategy.owned_pools))
                for a in sim.schedule.agents if a.unique_id != but and getattr(a, "new_strategy", None) is not None}

    def pre_step(self, run, agent):
        self.pre = (snapshot(run.sim), self.ranking_ids(run.sim), self.pending(run.sim, agent.unique_id), agent.unique_id)

    def decided(self, run, agent):
        if self.pre is None or self.pre[3] != agent.unique_id:
            return
        before, rank, pend, _ = self.pre
        self.pre = None
        run.stats.add("decisions checked")
        sim = run.sim
        after = snapshot(sim)
        d = diff_pools(before[0], after[0])
        if d:
            raise Violation("decision-changes-pools", "deciding, %s changed pools: %s" % (agent.unique_id, d))
        for i in before[1]:
            if not same_agent(before[1][i], after[1][i]):
                raise Violation("decision-changes-strategy", "deciding, %s changed the current strategy of %s: %s -> %s"
                                % (agent.unique_id, i, before[1][i], after[1][i]))
        if self.ranking_ids(sim) != rank:
            now = self.ranking_ids(sim)
            # a change of order within floating point dust of the current desirability is no observable change
            P = run.params()
            val = {p.id: ref.desirability(p.margin, ref.reward(P, p.pledge, p.stake) - p.cost) for p in sim.pools.values()}
            for old, new, which in ((rank[0], now[0], "long-term"), (rank[1], now[1], "current")):
                if len(old) != len(new) or any(x != y and (x is None or y is None or which == "long-term" or
                                                           abs(val[x] - val[y]) > 1e-13) for x, y in zip(old, new)):
                    raise Violation("decision-changes-ranking", "deciding, %s changed the %s ranking: %s -> %s"
                                    % (agent.unique_id, which, old, new))
        if self.pending(sim, agent.unique_id) != pend:
            raise Violation("decision-changes-pending", "deciding, %s changed somebody else's pending move" % agent.unique_id)

    def post_step(self, run, agent):
        self.decided(run, agent)

    def pre_apply(self, run, agent):
        self.decided(run, agent)
        self.before = snapshot(run.sim)

    def post_apply(self, run, agent):
        before, after = self.before, snapshot(run.sim)
        me = agent.unique_id
        run.stats.add("applications checked")
        if not run._before_apply:
            if diff_pools(before[0], after[0]) or any(not same_agent(before[1][i], after[1][i]) for i in before[1]):
                raise Violation("nothing-to-apply", "without a decided move, activating %s changed the market" % me)
            return
        d = diff_pools(before[0], after[0])
        lost = set()  # own pools that let go their delegators
        for pid, why in d.items():
            st = before[0].get(pid) or after[0][pid]
            if st[0] == me:
                if why == "closed" or (why != "opened" and after[0][pid][5]):
                    lost.add(pid)
                elif why != "opened":
                    ch = [w for w in why if isinstance(w, tuple)]
                    if ch:
                        raise Violation("own-pool-delegators", "the move of %s changed the delegations held by own pool %s: %s" % (me, pid, ch))
                else:
                    if after[0][pid][8]:
                        raise Violation("born-with-delegators", "pool %s opened with delegations" % pid)
                continue
            if why in ("opened", "closed"):
                raise Violation("foreign-pool", "the move of %s %s pool %s of %s" % (me, why, pid, st[0]))
            bad = [w for w in why if w not in ("stake", ("delegator", me))]
            if bad:
                raise Violation("foreign-pool", "the move of %s changed %s of pool %s of %s" % (me, bad, pid, st[0]))
        for i, x in before[1].items():
            if i == me or x is None:
                continue
            y = after[1][i]
            want = ({p: v for p, v in x[0].items() if p not in lost}, x[1])
            if not same_agent(want, y):
                raise Violation("foreign-strategy", "the move of %s changed the strategy of %s from %s to %s" % (me, i, x, y))
            if len(want[0]) != len(x[0]):
                run.stats.add("delegators displaced")


class Rational(Monitor):  # C07
    TOL = 1e-12
    PROBE = 0.4  # share of the decisions taken under a threshold that is just below or just above the best option's gain

    def begin(self, run):
        self.view = None
        self.saved = None
        self.R = random.Random("probe %r" % run.cfg["seed"])

    def pre_step(self, run, agent):
        self.view = self.cached = None
        if profile_of(agent) == "ab":
            self.view = (None, None, agent.unique_id)
            return
        self.view = (market_view(run), agent_view(agent), agent.unique_id)
        if self.R.random() < self.PROBE:
            self.probe(run, *self.view[:2])

    def probe(self, run, M, ag):
        """Let the stakeholder decide under a utility threshold right beside what its best option gains, so that the decision
        shows whether it values the option as it should."""
        if M.shaky(ag):
            return
        sim, R = run.sim, self.R
        cur, expc, D, dusty, close, ops = self.values(M, ag)
        have = max(cur, expc)
        below = R.random() < 0.5
        gains = [x - have for x in [D] + [b[0 if below else 1] for b in ops.values()] if x > have]
        if close or not gains:
            return
        gain = max(gains) if R.random() < 0.8 else R.choice(gains)
        eps = max(1e-9 * gain, 5e-12)
        gain = gain - eps if below else gain + eps
        if gain <= 0:
            return
        self.saved = (sim.relative_utility_threshold, sim.absolute_utility_threshold)
        rel, ab = (gain / have, 0) if have > 1e-6 and R.random() < 0.3 else (0, gain)
        sim.relative_utility_threshold = M.P.rel = float(rel)
        sim.absolute_utility_threshold = M.P.abs = float(ab)
        run.stats.add("decisions at the threshold")

    def values(self, M, ag):
        if self.cached is None:
            dal, dusty = ref.waterfill(M, ag, ag.stake)
            opts, us, close = ref.local_optima(M, ag)
            self.cached = (ref.current_utility(M, ag), ref.expected_current(M, ag), ref.delegation_utility(M, ag, dal), dusty,
                           close, {t: ref.operator_option(M, ag, t, m) for t, m in opts.items()})
        return self.cached

    def pre_apply(self, run, agent):
        self.decided(run, agent)

    def post_step(self, run, agent):
        self.decided(run, agent)

    def decided(self, run, agent):
        if self.view is None or self.view[2] != agent.unique_id:
            return
        M, ag, _ = self.view
        self.view = None
        if self.saved is not None:
            run.sim.relative_utility_threshold, run.sim.absolute_utility_threshold = self.saved
            self.saved = None
        new = agent.new_strategy
        if M is None:
            if new is not None:
                raise Violation("abstainer-moves", "abstainer %s decided a move" % agent.unique_id)
            return
        run.stats.add("decisions checked")
        if M.shaky(ag):
            run.stats.add("ambiguous decisions skipped")
            return
        P = M.P
        cur, expc, D, dusty, close, ops = self.values(M, ag)
        have = max((1 + P.rel) * cur, cur + P.abs, (1 + P.rel) * expc, expc + P.abs)
        if close:
            run.stats.add("ambiguous decisions skipped")
            return
        tol = self.TOL
        lowest = min((lo for lo, hi in ops.values()), default=-inf)
        info = dict(agent=ag.id, profile=ag.profile, have=float(have), current=float(cur), expected=float(expc),
                    delegation=float(D), operation={t: [float(a), float(b)] for t, (a, b) in ops.items()})
        if new is None:
            run.stats.add("kept")
            if D > have + tol and not dusty:
                raise Violation("missed-delegation", "%s stays although delegating promises %r > %r" % (ag.id, float(D), float(have)), **info)
            if lowest > have + tol:
                raise Violation("missed-operation", "%s stays although operating pools promises %r > %r" % (ag.id, float(lowest), float(have)), **info)
            return
        if not new.owned_pools:
            run.stats.add("chose delegation")
            Du = ref.delegation_utility(M, ag, {p: a for p, a in new.stake_allocations.items()})
            if Du <= have - tol:
                raise Violation("unprofitable-delegation", "%s switches to delegation for %r, having %r" % (ag.id, float(Du), float(have)), **info)
            if not ag.owned and list(new.stake_allocations.items()) == list(ag.allocs.items()):
                raise Violation("empty-move", "%s changes to exactly the strategy that is already current" % ag.id, **info)
            if lowest > Du + tol:
                raise Violation("missed-operation", "%s delegates for %r although operating pools promises %r" % (ag.id, float(Du), float(lowest)), **info)
            return
        run.stats.add("chose operation")
        plan = []
        for pid, p in new.owned_pools.items():
            plan.append(ref.V(pid, ag.id, p.pledge, p.stake, p.cost, p.margin, p.is_private, p.potential_profit, p.desirability))
        O = ref.operation_utility(M, ag, plan) + ref.delegation_utility(M, ag, dict(new.stake_allocations))
        if O <= have - tol:
            raise Violation("unprofitable-operation", "%s switches to operating pools for %r, having %r" % (ag.id, float(O), float(have)), **info)
        if D > O + tol and not dusty:
            raise Violation("missed-delegation", "%s operates pools for %r although delegating promises %r" % (ag.id, float(O), float(D)), **info)


def compare_alloc(a, b, tol=1e-11):
    for i in a.keys() | b.keys():
        if abs(a.get(i, 0) - b.get(i, 0)) > tol:
            return False
    return True


class Waterfill(Monitor):  # C08
    def begin(self, run):
        self.view = None

    def pre_step(self, run, agent):
        self.view = None
        if profile_of(agent) != "ab":
            self.view = (market_view(run), agent_view(agent), agent.unique_id)

    def pre_apply(self, run, agent):
        self.decided(run, agent)

    def post_step(self, run, agent):
        self.decided(run, agent)

    def decided(self, run, agent):
        if self.view is None or self.view[2] != agent.unique_id:
            return
        M, ag, _ = self.view
        self.view = None
        new = agent.new_strategy
        if new is None:
            return
        al = {int(i): float(x) for i, x in new.stake_allocations.items()}
        amount = ag.stake
        if new.owned_pools:
            amount = ag.stake - fsum(p.pledge for p in new.owned_pools.values())
            if amount > 1e-12:
                run.stats.add("operators with stake to delegate")
        self.check(run, M, ag, al, amount)

    def check(self, run, M, ag, al, amount):
        P = M.P
        run.stats.add("delegations checked")
        total = fsum(al.values())
        if total > amount + 1e-11:
            raise Violation("too-much", "%s has %r to delegate but delegates %r" % (ag.id, float(amount), float(total)))
        elig = [v for v in M.ranking(ag.profile) if v.owner != ag.id and not v.private]
        eids = {v.id for v in elig}
        for pid, a in al.items():
            if pid not in eids:
                raise Violation("ineligible", "%s delegates %r to pool %s, which is private, own or closed" % (ag.id, a, pid))
        if elig and total < amount - 1e-11:
            thr = [ref.threshold(P, v.pledge) - v.stake + v.delegators.get(ag.id, 0) for v in elig]
            room = fsum(max(0, x) for x in thr)
            full = [v.id for v, x in zip(elig, thr) if x <= 0]
            if full or room > total + 1e-11:
                raise Violation("idle-stake", "%s leaves %r undelegated although there are full pools %s and room %r"
                                % (ag.id, float(amount - total), full[:5], float(room)))
        if amount < 1e-13:
            return
        want, dusty = ref.waterfill(M, ag, amount)
        if compare_alloc(want, al):
            if len(want) > 1:
                run.stats.add("spread over several pools")
            if any(a > ref.threshold(P, M.by_id[p].pledge) - M.by_id[p].stake + M.by_id[p].delegators.get(ag.id, 0) + 1e-12
                   for p, a in want.items()):
                run.stats.add("overflow into a full pool")
            return
        if M.shaky(ag):
            run.stats.add("ambiguous skipped")
            return
        if dusty:  # the overflow may go to a pool that is full up to floating point dust, or not
            run.stats.add("dusty cases")
            strict_full = [p for p in want if p not in al or abs(want[p] - al[p]) > 1e-11]
            moved = [p for p in al if p not in want or abs(want[p] - al[p]) > 1e-11]
            if all(p in dusty or p in want for p in moved) and any(p in dusty for p in moved + strict_full):
                return
        raise Violation("not-in-order", "%s delegates %s, the ranking demands %s" % (ag.id, al, want),
                        ranking=[(v.id, float(ref.threshold(P, v.pledge) - v.stake + v.delegators.get(ag.id, 0))) for v in elig][:12])


class Plans(Monitor):  # C09
    def begin(self, run):
        self.view = None

    def pre_step(self, run, agent):
        self.view = None
        if profile_of(agent) != "ab":
            self.view = (market_view(run), agent_view(agent), agent.unique_id)

    def pre_apply(self, run, agent):
        self.decided(run, agent)

    def post_step(self, run, agent):
        self.decided(run, agent)

    def decided(self, run, agent):
        if self.view is None or self.view[2] != agent.unique_id:
            return
        M, ag, _ = self.view
        self.view = None
        new = agent.new_strategy
        if new is None or not new.owned_pools:
            return
        P = M.P
        run.stats.add("plans checked")
        pools = new.owned_pools
        t = len(pools)
        run.stats.max("pools in a plan", t)
        if not 1 <= t <= P.k:
            raise Violation("count", "%s plans %d pools, k is %d" % (ag.id, t, P.k))
        pledge, cost = min(ag.stake / t, P.beta), ref.avg_cost(ag.cost, t, P.phi)
        pp = ref.potential_profit(P, pledge, cost)
        for pid, p in pools.items():
            if p.owner != ag.id or p.id != pid:
                raise Violation("identity", "%s plans pool %s with owner %s" % (ag.id, pid, p.owner))
            if not near(p.pledge, pledge, 1e-13):
                raise Violation("pledge", "%s plans %d pools and pledges %r instead of %r" % (ag.id, t, float(p.pledge), float(pledge)))
            if not near(p.cost, cost, 1e-13 + 1e-12 * cost):
                raise Violation("cost", "%s plans %d pools at a cost of %r instead of %r" % (ag.id, t, float(p.cost), float(cost)))
            if not near(p.potential_profit, pp, 1e-13 + 1e-10 * abs(pp)):
                raise Violation("profit", "%s plans a pool with potential profit %r instead of %r" % (ag.id, float(p.potential_profit), float(pp)))
            if not near(p.desirability, ref.desirability(p.margin, pp), 1e-12 + 1e-10 * abs(pp)):
                raise Violation("desirability", "%s plans a pool with desirability %r instead of %r"
                                % (ag.id, float(p.desirability), float(ref.desirability(p.margin, pp))))
            if not 0 <= p.margin <= 1:
                raise Violation("margin-range", "%s plans a margin of %r" % (ag.id, p.margin))
        kept = set(pools) & set(ag.owned)
        fresh = set(pools) - kept
        want = ref.pools_to_keep(M, ag, t)
        if kept != set(want):
            raise Violation("kept", "%s keeps pools %s instead of %s" % (ag.id, sorted(kept), sorted(want)))
        if len(kept) < len(ag.owned):
            run.stats.add("reductions")
        for pid in kept:
            old = M.by_id[pid]
            if not near(pools[pid].stake, old.stake - old.pledge + pledge):
                raise Violation("kept-stake", "pool %s is kept with stake %r instead of %r"
                                % (pid, float(pools[pid].stake), float(old.stake - old.pledge + pledge)))
        for pid in fresh:
            if pid in M.by_id:
                raise Violation("identity", "%s plans to open pool %s, which exists" % (ag.id, pid))
            if not near(pools[pid].stake, pledge, 1e-13) or pools[pid].delegators:
                raise Violation("new-stake", "new pool %s starts with stake %r, pledge %r" % (pid, float(pools[pid].stake), float(pledge)))
        opts, us, close = ref.local_optima(M, ag)
        if close or M.shaky(ag):
            run.stats.add("ambiguous skipped")
            return
        if t > 1:
            run.stats.add("splits")
        if t not in opts:
            raise Violation("not-optimal", "%s plans %d pools although its estimates are %s" % (ag.id, t, [float(u) for u in us[max(0, t - 2):t + 1]]))
        a, b = sorted(opts[t]), sorted(float(p.margin) for p in pools.values())
        for x, y in zip(a, b):
            if abs(x - y) > 1e-9 and abs(x - y) * abs(pp) > 1e-14:
                raise Violation("margins", "%s plans %d pools with margins %s instead of %s" % (ag.id, t, b, [float(z) for z in a]))


class Termination(Monitor):  # C10
    def begin(self, run):
        self.idle = 0
        self.phase = 0
        self.eq = []
        self.done = None
        self.change_rounds = []
        if not run.sim.running:
            raise Violation("dead-start", "the execution is over before it started")

    def pre_round(self, run):
        self.before = snapshot(run.sim)
        self.max_it = run.expected.value("max_iterations", self.phase)
        self.rnd = run.sim.schedule.steps

    def post_round(self, run):
        sim = run.sim
        run.stats.add("rounds checked")
        iac = run.cfg["iterations_after_convergence"]
        if self.done:
            raise Violation("zombie", "the execution went on after its end")
        if self.rnd >= self.max_it:
            if sim.schedule.steps != self.rnd:
                raise Violation("beyond-limit", "round %d was played with a limit of %d" % (self.rnd, self.max_it))
            self.done = "limit"
            if sim.running:
                raise Violation("beyond-limit", "the execution is still running after %d rounds, the limit is %d" % (self.rnd, self.max_it))
            return
        if sim.schedule.steps != self.rnd + 1:
            raise Violation("round-count", "the round count went from %d to %d" % (self.rnd, sim.schedule.steps))
        after = snapshot(sim)
        content = any(not same_agent(self.before[1][i], after[1][i], 1e-9) for i in self.before[1])
        # strategies that changed count as a move; purged delegations follow from somebody's move
        if content and not run.moved:
            raise Violation("silent-change", "strategies changed in round %d without any applied move" % self.rnd)
        if run.moved:
            self.idle = 0
            run.stats.add("active rounds")
        else:
            self.idle += 1
            run.stats.add("idle rounds")
        if not run.moved and self.idle >= iac:
            self.eq.append(self.rnd - iac)
            if self.phase < run.expected.phases - 1:
                self.phase += 1
                self.idle = 0
                run.stats.add("phase changes")
            else:
                self.done = "equilibrium"
        if bool(sim.running) != (self.done is None):
            raise Violation("early-end" if not sim.running else "late-end",
                            "after round %d with %d idle rounds of %d in phase %d of %d the execution is %s"
                            % (self.rnd, self.idle, iac, self.phase + 1, run.expected.phases,
                               "running" if sim.running else "over"))
        if sim.current_phase != self.phase:
            raise Violation("phase", "after round %d the execution is in phase %d instead of %d" % (self.rnd, sim.current_phase, self.phase))
        if self.done != "equilibrium" and sim.consecutive_idle_steps != self.idle:
            raise Violation("idle-count", "after round %d the idle count is %d instead of %d" % (self.rnd, sim.consecutive_idle_steps, self.idle))
        if list(sim.equilibrium_steps) != self.eq:
            raise Violation("equilibrium-rounds", "reported equilibria %s instead of %s" % (list(sim.equilibrium_steps), self.eq))

    def end(self, run):
        if not run.ended:
            if run.round >= run.sc.get("limit", 400):
                raise Violation("endless", "the execution did not end within %d rounds" % run.round)
            return
        if bool(run.sim.has_converged()) != (self.done == "equilibrium"):
            raise Violation("report", "the execution ended by %s but reports %s" % (self.done, run.sim.has_converged()))
        d = C.output_json(run.dir / "final-state-descriptors.json")
        if d["Equilibrium reached"] != ("Yes" if self.done == "equilibrium" else "No"):
            raise Violation("report", "the execution ended by %s but reports equilibrium: %s" % (self.done, d["Equilibrium reached"]))
        run.stats.add("ended by " + self.done)


class FixedPoint(Monitor):  # C11
    def __init__(self, rng_seed):
        self.seed = rng_seed

    def begin(self, run):
        self.pre = None

    def end(self, run):
        import random
        sim = run.sim
        if not run.ended or not sim.has_converged():
            return
        run.stats.add("equilibria examined")
        R = random.Random(self.seed)
        agents = list(sim.schedule.agents)
        sim_order = "simultaneous" in run.cfg["agent_activation_order"]
        before = snapshot(sim)
        for rep in range(3):
            order = list(agents)
            R.shuffle(order)
            if rep == 2:
                order = [R.choice(agents) for _ in range(len(agents))]
            i = 0
            while i < len(order):
                size = R.choice([1, 2, 5, len(order)]) if sim_order else 1
                batch = order[i:i + size]
                i += size
                for a in batch:
                    a.step()
                    run.stats.add("extra activations")
                    if getattr(a, "new_strategy", None) is not None:
                        s = a.new_strategy
                        raise Violation("wants-to-move", "after the reported equilibrium stakeholder %s wants to change to %s"
                                        % (a.unique_id, (dict(s.stake_allocations), {k: float(p.margin) for k, p in s.owned_pools.items()})))
                if sim_order:
                    for a in batch:
                        a.advance()
        after = snapshot(sim)
        if diff_pools(before[0], after[0]) or any(not same_agent(before[1][i], after[1][i]) for i in before[1]):
            raise Violation("moved", "after the reported equilibrium activations changed the market: %s" % diff_pools(before[0], after[0]))


class Phases(Monitor):  # C12
    def begin(self, run):
        self.phase = 0
        self.pivots = []
        self.check_params(run)
        if run.sim.total_phases != run.expected.phases:
            raise Violation("phase-count", "%d phases instead of %d" % (run.sim.total_phases, run.expected.phases))

    def check_params(self, run):
        sim, e, ph = run.sim, run.expected, self.phase
        rs = sim.reward_scheme
        for name, have, want in (
                ("k", rs.k, e.k(ph)), ("a0", rs.a0, e.value("a0", ph)),
                ("saturation point", rs.global_saturation_threshold, e.beta(ph)),
                ("extra pool cost fraction", sim.extra_pool_cost_fraction, e.value("extra_pool_cost_fraction", ph)),
                ("relative threshold", sim.relative_utility_threshold, e.value("relative_utility_threshold", ph)),
                ("absolute threshold", sim.absolute_utility_threshold, e.value("absolute_utility_threshold", ph)),
                ("maximum number of rounds", sim.max_iterations, e.value("max_iterations", ph))):
            if abs(have - want) > 1e-12 * max(1, abs(want)):
                raise Violation("parameter", "in phase %d the %s is %r instead of %r" % (ph + 1, name, have, want))
        P = ref.Params(run.cfg["reward_scheme"], e.k(ph), e.value("a0", ph), e.beta(ph), 0, 1, 0, 0)
        for pledge, stake in ((0.0, 0.03), (0.01, 0.05), (0.2, 0.5), (0.5, 1.0)):
            if not near(rs.calculate_pool_reward(pool_pledge=pledge, pool_stake=stake), ref.reward(P, pledge, stake), 1e-12):
                raise Violation("rewards", "in phase %d rewards do not follow the parameters in force" % (ph + 1))
            if not near(rs.get_pool_saturation_threshold(pledge), ref.threshold(P, pledge), 1e-13):
                raise Violation("saturation", "in phase %d saturation does not follow the parameters in force" % (ph + 1))
        return P

    def pre_round(self, run):
        self.before = snapshot(run.sim)
        self.at_apply = None

    def post_apply(self, run, agent):
        self.at_apply = None

    def post_round(self, run):
        sim = run.sim
        if sim.current_phase == self.phase:
            if list(sim.pivot_steps) != self.pivots:
                raise Violation("pivots", "recorded change rounds %s instead of %s" % (list(sim.pivot_steps), self.pivots))
            return
        if sim.current_phase != self.phase + 1:
            raise Violation("phase-jump", "the phase went from %d to %d" % (self.phase, sim.current_phase))
        self.phase += 1
        run.stats.add("phase changes checked")
        self.pivots.append(sim.schedule.steps)
        if list(sim.pivot_steps) != self.pivots:
            raise Violation("pivots", "recorded change rounds %s instead of %s" % (list(sim.pivot_steps), self.pivots))
        P = self.check_params(run)
        after = snapshot(sim)
        # the round that ends a phase is idle: open pools and strategies stay, only derived values change
        for pid, b in self.before[0].items():
            a = after[0].get(pid)
            if a is None:
                raise Violation("pool-lost", "pool %s is gone after the phase change" % pid)
            for i, name in enumerate(("owner", "pledge", "stake", "cost", "margin", "private")):
                if abs(a[i] - b[i]) > 1e-11:
                    raise Violation("pool-changed", "%s of pool %s changed from %r to %r in a phase change" % (name, pid, b[i], a[i]))
            if {i: round(x, 10) for i, x in a[8].items()} != {i: round(x, 10) for i, x in b[8].items()}:
                raise Violation("pool-changed", "the delegations of pool %s changed in a phase change" % pid)
            pp = ref.potential_profit(P, a[1], a[3])
            if not near(a[6], pp, 1e-12 + 1e-9 * abs(pp)):
                raise Violation("stale-profit", "after the phase change pool %s has potential profit %r instead of %r" % (pid, a[6], float(pp)))
            if not near(a[7], ref.desirability(a[4], pp), 1e-12 + 1e-9 * abs(pp)):
                raise Violation("stale-desirability", "after the phase change pool %s has desirability %r instead of %r"
                                % (pid, a[7], float(ref.desirability(a[4], pp))))
        if set(after[0]) != set(self.before[0]):
            raise Violation("pool-born", "pools appeared in a phase change")
        if self.before[0]:
            run.stats.add("phase changes with open pools")


class Reporting(Monitor):  # C15
    def begin(self, run):
        from . import metrics
        self.metrics = metrics
        import logic.model_reporters as R
        self.names = {i: R.REPORTER_IDS[i] for i in run.cfg["metrics"]}
        self.rows = 0

    def pre_round(self, run):
        self.want = {i: self.metrics.evaluate(i, run) for i in self.names}

    def post_round(self, run):
        mv = run.sim.datacollector.model_vars
        self.rows += 1
        for i, name in self.names.items():
            vals = mv[name]
            if len(vals) != self.rows:
                raise Violation("row-count", "metric %s has %d records after %d rounds" % (name, len(vals), self.rows))
            run.stats.add("metric values checked")
            if not self.metrics.equal(vals[-1], self.want[i]):
                raise Violation("value:%d" % i, "%s is recorded as %r instead of %r in round %d"
                                % (name, vals[-1], self.want[i], self.rows - 1))
        if not run.sim.pools:
            run.stats.add("rounds without pools")


class Payouts(Monitor):  # C16
    def begin(self, run):
        self.post_round(run)

    def post_round(self, run):
        sim = run.sim
        P = run.params()
        rs = sim.reward_scheme
        total_r, total_net = 0, 0
        for p in sim.pools.values():
            r = rs.calculate_pool_reward(pool_pledge=p.pledge, pool_stake=p.stake)
            w = ref.reward(P, p.pledge, p.stake)
            run.stats.add("pool rewards checked")
            if not near(r, w, 1e-12):
                raise Violation("formula", "pool %s earns %r instead of %r" % (p.id, float(r), float(w)))
            if P.scheme != 3 and r < -1e-12:
                raise Violation("negative", "pool %s earns %r" % (p.id, float(r)))
            total_r += r
            total_net += r - p.cost
        if P.scheme != 3 and total_r > 1 + 1e-9:
            raise Violation("too-much", "the pools earn %r in total" % float(total_r))
        M = market_view(run)
        paid = 0
        for a in sim.schedule.agents:
            if a.strategy is None:
                continue
            u = a.calculate_current_utility()
            w = ref.current_utility(M, agent_view(a))
            if not near(u, w, 1e-11):
                raise Violation("credit", "stakeholder %s is credited %r instead of %r" % (a.unique_id, float(u), float(w)))
            if not a.strategy.owned_pools and u < 0:
                raise Violation("delegator-loss", "delegator %s is credited %r" % (a.unique_id, float(u)))
            paid += u
        run.stats.add("payout rounds checked")
        if not near(paid, total_net, 1e-9):
            raise Violation("not-shared-out", "the pools make %r, the stakeholders are credited %r" % (float(total_net), float(paid)))

    def restored(self, run):
        self.post_round(run)


class Turns(Monitor):  # C17
    def begin(self, run):
        self.orders = []
        self.parts = []
        self.ids = [a.unique_id for a in run.sim.schedule.agents]

    def pre_round(self, run):
        self.ev = []
        self.steps = run.sim.schedule.steps
        self.time = run.sim.schedule.time
        self.limit = run.expected.value("max_iterations", run.sim.current_phase)
        self.decided = {}
        self.applied = {}

    def pre_step(self, run, agent):
        self.ev.append(("s", agent.unique_id))

    def pre_apply(self, run, agent):
        self.ev.append(("a", agent.unique_id))
        if agent.new_strategy is not None:
            self.applied[agent.unique_id] = self.applied.get(agent.unique_id, 0) + 1
            self.applying = agent.new_strategy
        else:
            self.applying = None

    def post_apply(self, run, agent):
        if self.applying is not None:
            if agent.new_strategy is not None:
                raise Violation("not-applied", "the move of %s is still pending after it was applied" % agent.unique_id)
            if agent.strategy is None or set(agent.strategy.owned_pools) != set(self.applying.owned_pools) or \
                    set(agent.strategy.stake_allocations) != set(self.applying.stake_allocations):
                raise Violation("not-applied", "the move of %s was not carried out as decided" % agent.unique_id)
            run.stats.add("applied moves")

    def post_step(self, run, agent):
        if agent.new_strategy is not None:
            self.decided[agent.unique_id] = True

    def post_round(self, run):
        sim = run.sim
        order = run.cfg["agent_activation_order"]
        if self.steps >= self.limit:
            if self.ev:
                raise Violation("overtime", "stakeholders were activated after the last round")
            return
        if sim.schedule.steps != self.steps + 1:
            raise Violation("counter", "the round counter went from %d to %d" % (self.steps, sim.schedule.steps))
        if sim.schedule.time != self.time + 1:
            raise Violation("counter", "the time went from %s to %s in one round" % (self.time, sim.schedule.time))
        run.stats.add("rounds checked")
        turns = [i for k, i in self.ev if k == "s"]
        if sorted(turns) != sorted(self.ids):
            extra = sorted(i for i in set(turns) if turns.count(i) > 1)
            missing = sorted(set(self.ids) - set(turns))
            raise Violation("turns", "in round %d %s had no turn and %s several (order %s, %d stakeholders)"
                            % (self.steps, missing[:8], extra[:8], order, len(self.ids)))
        for a in sim.schedule.agents:
            if a.new_strategy is not None:
                raise Violation("left-pending", "the move of %s is not applied at the end of the round" % a.unique_id)
        for i in self.decided:
            if self.applied.get(i, 0) != 1:
                raise Violation("applied-count", "the move of %s was applied %d times" % (i, self.applied.get(i, 0)))
        if order == "sequential" and turns != sorted(turns):
            raise Violation("order", "turns in sequential order: %s" % turns)
        if order == "simultaneous":
            ks = "".join(k for k, _ in self.ev)
            if "as" in ks:
                raise Violation("order", "a move was applied before everybody had decided")
            self.check_applies(self.ids, self.ev)
        if order == "semisimultaneous":
            groups, cur, phase = [], [], "s"
            for k, i in self.ev:
                if k == "s" and phase == "a":
                    groups.append(cur)
                    cur, phase = [], "s"
                if k == "a":
                    phase = "a"
                cur.append((k, i))
            groups.append(cur)
            for g in groups:
                members = [i for k, i in g if k == "s"]
                if not 1 <= len(members) <= 5:
                    raise Violation("group-size", "a group of %d stakeholders acted at once" % len(members))
                self.check_applies(members, g)
            run.stats.add("groups checked", len(groups))
            self.parts.append([frozenset(i for k, i in g if k == "s") for g in groups])
        self.orders.append(tuple(turns))

    def check_applies(self, members, ev):
        ap = [i for k, i in ev if k == "a"]
        if sorted(ap) != sorted(members):
            raise Violation("applies", "of the group %s these got to apply their moves: %s" % (sorted(members), sorted(ap)))

    def end(self, run):
        order = run.cfg["agent_activation_order"]
        n, r = len(self.ids), len(self.parts)
        if r and n > 5 and n * n * (4 / (n - 1)) ** r < 1e-10:
            # the chance that two stakeholders are in the same group in every round is (size - 1) / (n - 1) per round
            run.stats.add("group checks")
            together = None
            for groups in self.parts:
                pairs = {(a, b) for g in groups for a in g for b in g if a < b}
                together = pairs if together is None else together & pairs
            if together:
                raise Violation("not-random", "%s acted together in all %d rounds" % (sorted(together)[:4], r))
        if order in ("random", "semisimultaneous") and len(self.ids) >= 8 and len(self.orders) >= 3:
            run.stats.add("permutation checks")
            if len(set(self.orders)) == 1:
                raise Violation("not-random", "all %d rounds had the same order %s" % (len(self.orders), self.orders[0][:10]))
            if all(list(o) == sorted(o) for o in self.orders):
                raise Violation("not-random", "all rounds went by identifier")
            firsts = {o[0] for o in self.orders}
            if len(self.orders) >= 20 and len(firsts) == 1:
                raise Violation("not-random", "all rounds started with %s" % firsts)
            # what a fresh random permutation per round keeps with a probability below 1e-10
            n, r = len(self.ids), len(self.orders)
            rank = {i: x for x, i in enumerate(sorted(self.ids))}
            for x, o in enumerate(self.orders[:60]):
                for step in (1, -1):
                    if sum(rank[b] - rank[a] == step for a, b in zip(o, o[1:])) >= 15:
                        raise Violation("not-random", "round %d went by identifier in large part: %s" % (x, o))
                for y in range(x):
                    if sum(a == b for a, b in zip(o, self.orders[y])) >= 15:
                        raise Violation("not-random", "the order of round %d is mostly that of round %d: %s" % (x, y, o))
            if n >= 25:
                for x, groups in enumerate(self.parts[:60]):
                    if sum(len(g) == 5 and max(rank[i] for i in g) - min(rank[i] for i in g) == 4 for g in groups) >= 5:
                        raise Violation("not-random", "the groups of round %d are made by identifier: %s" % (x, groups))
                    for y in range(x):
                        if len({g for g in groups if len(g) == 5} & set(self.parts[y])) >= 5:
                            raise Violation("not-random", "the groups of round %d are those of round %d: %s" % (x, y, groups))
            pos = {i: x for x, i in enumerate(sorted(self.ids))}
            for step in (1, -1):
                follow = sum((pos[b] - pos[a]) % n == step % n for o in self.orders for a, b in zip(o, o[1:]))
                if r * (n - 1) >= 40 and follow > 0.6 * r * (n - 1):
                    raise Violation("not-random", "in %d of %d cases a stakeholder was followed by the neighbour by identifier" % (follow, r * (n - 1)))
            same = sum(a[i] == b[i] for a, b in zip(self.orders, self.orders[1:]) for i in range(n))
            if (r - 1) * n >= 40 and same > 0.6 * (r - 1) * n:
                raise Violation("not-random", "the order of a round is mostly that of the round before: %s, %s" % self.orders[:2])
            if n * n * 0.5 ** r < 1e-10:
                before = {i: set(self.ids) for i in self.ids}
                for o in self.orders:
                    seen = set()
                    for i in o:
                        before[i] &= seen
                        seen.add(i)
                for i in self.ids:
                    if before[i]:
                        raise Violation("not-random", "stakeholder %s came after %s in all %d rounds" % (i, sorted(before[i])[:4], r))


class Population(Monitor):  # C23
    def sampled(self, values, stakes, active):
        """The values of the distribution file the stakeholders got: all of them in order if there are as many as
        stakeholders, otherwise a sample, without replacement if there are more."""
        from collections import Counter
        if len(values) == len(stakes):
            return values
        for v in sorted(set(values)):
            unit = v / stakes[0]
            got = []
            for x in stakes:
                c = min(values, key=lambda y: abs(y - x * unit))
                if abs(c - x * unit) > 1e-9 * c:
                    break
                got.append(c)
            if len(got) == len(stakes) and (len(values) < len(stakes) or not Counter(got) - Counter(values)):
                return got
        raise Violation("proportions", "the stakes %s are no sample of the distribution file's values %s" % (stakes[:6], values[:8]))

    def begin(self, run):
        from . import metrics
        sim, cfg = run.sim, run.cfg
        agents = sim.schedule.agents
        n = cfg["n"]
        run.stats.add("populations checked")
        if [a.unique_id for a in agents] != list(range(n)):
            raise Violation("count", "the stakeholders are %s, configured are %d" % ([a.unique_id for a in agents][:10], n))
        if sim.pools or any(a.strategy is not None and (a.strategy.owned_pools or a.strategy.stake_allocations) for a in agents):
            raise Violation("not-empty", "there are pools or delegations at the start")
        if any(p is not None for p in list(sim.pool_rankings) + list(sim.pool_rankings_myopic)):
            raise Violation("not-empty", "there are ranked pools at the start")
        stakes = [float(a.stake) for a in agents]
        active = 1 - cfg["inactive_stake_fraction"]
        if any(not x > 0 for x in stakes):
            raise Violation("stake", "a stakeholder has stake %r" % min(stakes))
        if not near(fsum(stakes), active, 1e-12 * max(1, n)):
            raise Violation("active-stake", "the stakes add up to %r instead of %r" % (fsum(stakes), active))
        src = cfg["stake_distr_source"].lower()
        raw = None
        if "stakes" in run.sc:
            raw = run.sc["stakes"][:n]
        elif "file" in run.sc:
            raw = self.sampled(run.sc["file"]["values"], stakes, active)
        elif src == "flat":
            raw = [1.0] * n
        elif src == "disparity":
            raw = [0.1] * 3 + [0.7 / (n - 3)] * (n - 3)
        elif src == "pareto":
            # Pareto stakes are at least the mode: the smallest is positive and proportions are at least 1
            m = min(stakes)
            import numpy as np
            raw = list((np.random.default_rng(seed=int(cfg["seed"])).pareto(cfg["pareto_param"], n) + 1.0))
        if raw is not None:
            s = fsum(raw)
            for i, (x, r) in enumerate(zip(stakes, raw)):
                if abs(x - r / s * active) > 1e-12 + 1e-9 * x:
                    raise Violation("proportions", "stakeholder %d starts with %r instead of %r" % (i, x, r / s * active))
        for a in agents:
            if not cfg["cost_min"] <= a.cost <= cfg["cost_max"]:
                raise Violation("cost", "stakeholder %s has cost %r outside [%r, %r]" % (a.unique_id, a.cost, cfg["cost_min"], cfg["cost_max"]))
            w = cfg["agent_profile_distr"][("nm", "my", "ab").index(profile_of(a))]
            if w == 0:
                raise Violation("profile", "stakeholder %s has a profile of weight 0" % a.unique_id)
            if (a.strategy is None) != (profile_of(a) == "ab"):
                raise Violation("profile", "stakeholder %s starts with strategy %r" % (a.unique_id, a.strategy))
        if n >= 20 and cfg["cost_max"] > cfg["cost_min"] and len({float(a.cost) for a in agents}) < n // 2:
            raise Violation("cost", "costs are not spread: %s" % sorted({float(a.cost) for a in agents})[:5])
        if n >= 25:
            kinds = {profile_of(a) for a in agents}
            for tag, w in zip(("nm", "my", "ab"), cfg["agent_profile_distr"]):
                if w / sum(cfg["agent_profile_distr"]) > 0.49 and tag not in kinds:
                    raise Violation("profile", "nobody of %d stakeholders has profile %s with weight %r" % (n, tag, w))
        d = C.output_json(run.dir / "initial-state-descriptors.json")
        srt = sorted(stakes)
        mean = fsum(stakes) / n
        med = srt[n // 2] if n % 2 else (srt[n // 2 - 1] + srt[n // 2]) / 2
        sd = (fsum((x - mean) ** 2 for x in stakes) / n) ** 0.5
        P = run.expected.params(0)
        eff = [ref.potential_profit(P, a.stake, a.cost) for a in agents]
        want = {"Randomness seed": cfg["seed"], "Active stake": active, "Max stake": srt[-1], "Min stake": srt[0],
                "Mean stake": mean, "Median stake": med, "Standard deviation of stake": sd}
        for key, w in want.items():
            v = float(d[key])
            if abs(v - w) > 1e-9 * max(1, abs(w)):
                raise Violation("descriptor", "%s is described as %r instead of %r" % (key, d[key], w))
        nak = metrics.nakamoto(stakes)
        if not metrics.equal(int(d["Nakamoto coefficient prior"]), nak):
            raise Violation("descriptor", "the initial Nakamoto coefficient is described as %r instead of %r" % (d["Nakamoto coefficient prior"], nak))
        if all(abs(x) > 1e-13 for x in eff) and int(d["Cost efficient agents"]) != sum(x > 0 for x in eff):
            raise Violation("descriptor", "cost efficient agents are described as %r instead of %d" % (d["Cost efficient agents"], sum(x > 0 for x in eff)))
