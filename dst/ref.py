"""Executable reference model: the documented economics, written independently of the code under test.

All functions take plain records. `Params` holds the reward parameters in force, `V` views of pools."""
from itertools import product
from math import factorial, fsum, inf

MIN_UNIT = 2.2e-17
BOOST = 1e-6


class Params:
    __slots__ = ("scheme", "k", "a0", "beta", "phi", "total", "rel", "abs")

    def __init__(self, scheme, k, a0, beta, phi, total, rel, abs_):
        self.scheme, self.k, self.a0, self.beta = scheme, k, a0, beta
        self.phi, self.total, self.rel, self.abs = phi, total, rel, abs_


def threshold(P, pledge):
    if P.scheme == 4:
        return min(P.a0 * pledge, P.beta)
    return P.beta


def reward(P, pledge, stake):
    b, a0 = P.beta, P.a0
    s = min(stake, b)
    if P.scheme in (0, 3):
        if P.scheme == 0:
            p = min(pledge, b)
        else:
            p = min(pledge ** (1 / 3) * (b / 8) ** (2 / 3), b)
        return 1 / (1 + a0) * (s + p * a0 * ((s - p * (1 - s / b)) / b))
    if P.scheme == 1:
        return s / (1 + a0) * (1 + a0 * min(pledge, b) / b)
    if P.scheme == 2:
        return (s + a0 * min(pledge, b)) / (1 + a0)
    if P.scheme == 4:
        return min(stake, threshold(P, pledge))
    raise ValueError(P.scheme)


def potential_profit(P, pledge, cost):
    return reward(P, pledge, threshold(P, pledge)) - cost


def desirability(margin, pp):
    return max((1 - margin) * pp, 0)


def operator_share(P, pledge, stake, margin, cost):
    profit = reward(P, pledge, stake) - cost
    if profit <= 0:
        return profit
    frac = pledge / stake if stake > 0 else 1
    return profit * (margin + (1 - margin) * frac)


def delegator_share(P, pledge, stake, margin, cost, amount):
    profit = reward(P, pledge, stake) - cost
    return max((1 - margin) * (amount / stake) * profit, 0)


def avg_cost(c, t, phi):
    return c * (1 + (t - 1) * phi) / t


class V:
    """View of a pool."""
    __slots__ = ("id", "owner", "pledge", "stake", "cost", "margin", "private", "pp", "des", "delegators", "myd", "obj")

    def __init__(self, id, owner, pledge, stake, cost, margin, private, pp, des, delegators=None, obj=None):
        self.id, self.owner, self.pledge, self.stake, self.cost, self.margin = id, owner, pledge, stake, cost, margin
        self.private, self.pp, self.des, self.delegators, self.obj = private, pp, des, delegators, obj
        self.myd = None


def my_desirability(P, v):
    return desirability(v.margin, reward(P, v.pledge, v.stake) - v.cost)


def key_nm(v):
    return (-v.des, -v.pp, v.id)


def key_my(v):
    return (-v.myd, v.id)


NONE_KEY = (0, 0, 0)


class Market:
    """Snapshot of what a stakeholder sees when deciding."""

    def __init__(self, P, views, published=None):
        """published: identifiers in the order of the ranking by current desirability that the stakeholders consult; it only
        decides between pools whose desirabilities agree up to rounding."""
        self.P = P
        self.views = views
        for v in views:
            v.myd = my_desirability(P, v)
        self.by_id = {v.id: v for v in views}
        self._nm = sorted(views, key=key_nm)
        self._my = sorted(views, key=key_my)
        if published is not None:
            place = {pid: i for i, pid in enumerate(published)}
            groups = []
            for v in self._my:
                if groups and groups[-1][-1].myd - v.myd < 1e-13:
                    groups[-1].append(v)
                else:
                    groups.append([v])
            self._my = [v for g in groups for v in sorted(g, key=lambda v: place.get(v.id, 1e9))]
        self._rank_stake = {}
        acc = []
        for v in self._nm:  # saturation stake of all better pools, by the non-myopic ranking
            self._rank_stake[("nm", v.id)] = fsum(acc)
            acc.append(threshold(P, v.pledge))

    def ranking(self, profile):
        return self._nm if profile == "nm" else self._my

    def shaky(self, ag):
        """Can withdrawing and returning the stakeholder's delegations, as deliberating does, reorder pools by rounding alone?"""
        if ag.profile == "nm":
            return False
        return any(a.myd - b.myd < 1e-13 and a.myd > 0 and (a.id in ag.allocs or b.id in ag.allocs)
                   for a, b in zip(self._my, self._my[1:]))


def nm_stake(P, v, better_stake):
    if P.total - better_stake > 1e-12:
        return max(threshold(P, v.pledge), v.stake)
    return v.pledge


class Agent:
    __slots__ = ("id", "stake", "cost", "profile", "allocs", "owned")

    def __init__(self, id, stake, cost, profile, allocs, owned):
        self.id, self.stake, self.cost, self.profile, self.allocs, self.owned = id, stake, cost, profile, allocs, owned


def waterfill(M, ag, amount):
    """Returns (allocations, dusty) or (None-like {}, False). dusty: pools whose room is floating point dust."""
    if amount < MIN_UNIT:
        return {}, []
    P = M.P
    alloc = {}
    best_full = None
    dusty = []
    left = amount
    elig = [v for v in M.ranking(ag.profile) if v.owner != ag.id and not v.private]
    for v in elig:
        own = v.delegators.get(ag.id, 0) if v.delegators else 0
        room = threshold(P, v.pledge) - (v.stake - own)
        if 0 < room < 1e-15:
            dusty.append(v.id)
        if room < MIN_UNIT:
            if best_full is None:
                best_full = v
            continue
        a = min(left, room)
        left -= a
        alloc[v.id] = a
        if left < MIN_UNIT:
            break
    if left >= MIN_UNIT and best_full is not None:
        alloc[best_full.id] = left
    return alloc, dusty


def delegation_utility(M, ag, allocs):
    P = M.P
    u = 0
    for pid, a in allocs.items():
        v = M.by_id.get(pid)
        if v is None:
            continue
        prev = ag.allocs.get(pid, 0)
        st = v.stake - prev + a
        if ag.profile == "nm":
            st = max(nm_stake(P, v, M._rank_stake[("nm", pid)]), st)
        u += delegator_share(P, v.pledge, st, v.margin, v.cost, a)
    return u


def operation_utility(M, ag, plan):
    """plan: list of V, the pools the stakeholder would run."""
    P = M.P
    if ag.profile == "my":
        return sum(operator_share(P, v.pledge, v.stake, v.margin, v.cost) for v in plan)
    allp = sorted([v for v in M.views if v.owner != ag.id] + plan, key=key_nm)
    acc, u = [], 0
    mine = {id(v) for v in plan}
    for v in allp:
        if id(v) in mine:
            u += operator_share(P, v.pledge, nm_stake(P, v, fsum(acc)), v.margin, v.cost)
        acc.append(threshold(P, v.pledge))
    return u


def current_utility(M, ag):
    P = M.P
    u = 0
    for pid in ag.owned:
        v = M.by_id[pid]
        u += operator_share(P, v.pledge, v.stake, v.margin, v.cost)
    for pid, a in ag.allocs.items():
        v = M.by_id[pid]
        u += delegator_share(P, v.pledge, v.stake, v.margin, v.cost, a)
    return u


def expected_current(M, ag):
    u = 0
    if ag.owned:
        u += operation_utility(M, ag, [M.by_id[i] for i in ag.owned])
    return u + delegation_utility(M, ag, ag.allocs)


def targets(M, ag):
    """The competitors' ranking without own pools, empty places after the last pool with positive desirability."""
    key = key_nm if ag.profile == "nm" else key_my
    return [v for v in M.ranking(ag.profile) if v.owner != ag.id and key(v) < NONE_KEY]


def suitable_margin(pp, target):
    return max(1 - target / pp, 0) if pp > 0 else 0


def margins_and_utility(M, ag, t, others):
    """Margins for t pools and the stakeholder's own estimate of the utility; third value: comparison too close to call."""
    P = M.P
    cost = avg_cost(ag.cost, t, P.phi)
    pledge = min(ag.stake / t, P.beta)
    thr = threshold(P, pledge)
    margins, u, close = [], 0, False
    if ag.profile == "nm":
        pp = potential_profit(P, pledge, cost)
    else:
        held = max(sum(M.by_id[i].stake for i in ag.owned), ag.stake)
        pp = reward(P, pledge, held / t) - cost
    for j in range(1, t + 1):
        idx = P.k - j
        c = others[idx] if idx < len(others) else None
        if ag.profile == "nm":
            d, cpp = (c.des, c.pp) if c is not None else (0, 0)
            d += BOOST
            if abs(pp - d) < 1e-13:
                close = True
            if pp < d:
                margins.append(0)
                u += operator_share(P, pledge, pledge, 0, cost)
                continue
            d = max(d, cpp)
        else:
            d = (c.myd if c is not None else 0) + BOOST
        m = suitable_margin(pp, d)
        margins.append(m)
        u += operator_share(P, pledge, thr, m, cost)
    return margins, u, close


def local_optima(M, ag, eps=1e-13):
    """All numbers of pools that are no worse than their neighbours, with their margins. Also: anything too close."""
    others = targets(M, ag)
    us, ms, close = [], [], False
    for t in range(1, M.P.k + 1):
        m, u, c = margins_and_utility(M, ag, t, others)
        us.append(u)
        ms.append(m)
        close = close or c
    res = {}
    for i, u in enumerate(us):
        lo = us[i - 1] if i > 0 else -inf
        hi = us[i + 1] if i + 1 < len(us) else -inf
        if u >= lo - eps and u >= hi - eps:
            res[i + 1] = ms[i]
    return res, us, close


def pools_to_keep(M, ag, t):
    if t < len(ag.owned):
        mine = sorted((M.by_id[i] for i in ag.owned), key=lambda v: (v.des, v.pp, v.stake, -v.id), reverse=True)
        return [v.id for v in mine[:t]]
    return list(ag.owned)


def build_plan(M, ag, t, margins, order=None):
    P = M.P
    pledge = min(ag.stake / t, P.beta)
    cost = avg_cost(ag.cost, t, P.phi)
    pp = potential_profit(P, pledge, cost)
    keep = order if order is not None else pools_to_keep(M, ag, t)
    plan = []
    for i in range(t):
        if i < len(keep):
            old = M.by_id[keep[i]]
            pid, stake = old.id, old.stake - (old.pledge - pledge)
        else:
            pid, stake = 10 ** 9 + i, pledge
        plan.append(V(pid, ag.id, pledge, stake, cost, margins[i], pledge >= threshold(P, pledge), pp,
                      desirability(margins[i], pp)))
    return plan


def distinct_permutations(xs):
    if not xs:
        return [[]]
    out = []
    for x in sorted(set(xs)):
        rest = list(xs)
        rest.remove(x)
        out += [[x] + tail for tail in distinct_permutations(rest)]
    return out


def operator_option(M, ag, t, margins):
    """(lowest, highest) expected utility of running t pools (margins may be assigned to kept pools in any order when
    their number is reduced)."""
    P = M.P
    keep = pools_to_keep(M, ag, t)
    pledge = min(ag.stake / t, P.beta)
    rest = ag.stake - pledge * t
    du = 0
    if rest > 0:
        al, _ = waterfill(M, ag, rest)
        du = delegation_utility(M, ag, al)
    assignments = [margins]
    if t < len(ag.owned) and len(keep) > 1 and len(set(margins)) > 1:
        counts, ways = {}, factorial(t)
        for m in margins:
            counts[m] = counts.get(m, 0) + 1
        for c in counts.values():
            ways //= factorial(c)
        if ways > 150:
            return -inf, inf
        assignments = distinct_permutations(margins)
    us = []
    for ms in assignments:
        plan = build_plan(M, ag, t, ms, keep)
        if ag.profile == "nm":
            # which of two pools whose desirabilities agree up to rounding ranks first is anybody's guess
            tied = [v for v in plan if any(abs(v.des - o.des) < 1e-13 for o in M.views if o.owner != ag.id)]
            if len(tied) > 4 or len(tied) > 2 and len(assignments) > 10:
                return -inf, inf
            orig = [v.des for v in tied]
            for shifts in product((-1e-13, 1e-13), repeat=len(tied)):
                for v, d, x in zip(tied, orig, shifts):
                    v.des = d + x
                us.append(operation_utility(M, ag, plan) + du)
        else:
            us.append(operation_utility(M, ag, plan) + du)
    return min(us), max(us)
