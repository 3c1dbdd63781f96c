"""Independent definitions of the recorded metrics (the wording of the documentation and metric names)."""
from fractions import Fraction
from math import fsum, inf, isinf, isnan

from . import ref


def mean(xs):
    return fsum(xs) / len(xs) if xs else 0


def median(xs):
    xs = sorted(xs)
    n = len(xs)
    if not n:
        return 0
    return xs[n // 2] if n % 2 else (xs[n // 2 - 1] + xs[n // 2]) / 2


class Either:
    """Several admissible values, where a comparison is too close to call."""

    def __init__(self, *vals):
        self.vals = vals

    def __repr__(self):
        return " or ".join(map(repr, self.vals))


def gini(xs):
    xs = list(xs)
    s = fsum(xs)
    if not xs or s == 0:
        return -1
    d = fsum(abs(a - b) for i, a in enumerate(xs) for b in xs[i + 1:])
    return d / (len(xs) * s)


def nakamoto(xs, plain=False):
    """How many of the largest are needed for more than half. A prefix that comes within rounding of one half may count or not,
    unless all the numbers are such that no sum of them is rounded (plain: also if there are just two equal ones)."""
    xs = sorted((Fraction(float(x)) for x in xs), reverse=True)
    total = sum(xs)
    if total == 0:
        return Either(0, 1)
    exact = plain and xs[0] == xs[1] or all((x * 2 ** 40).denominator == 1 for x in xs)
    ok, acc = [], 0
    for j, x in enumerate(xs, 1):
        acc += x
        d = acc - total / 2
        if d > 1e-12 or exact and d > 0:
            ok.append(j)
            break
        if abs(d) <= 1e-12 and not exact:
            ok.append(j)
    return Either(*ok)


def evaluate(i, run):
    sim = run.sim
    pools = list(sim.pools.values())
    agents = list(sim.schedule.agents)
    P = run.expected.params(sim.current_phase)
    owners = {}
    held = {}
    for p in pools:
        owners[p.owner] = owners.get(p.owner, 0) + 1
        held[p.owner] = held.get(p.owner, 0) + p.stake
    if i == 1:
        return len(pools)
    if i == 2:
        return fsum(p.pledge for p in pools)
    if i == 3:
        return mean([p.pledge for p in pools])
    if i == 4:
        return median([p.pledge for p in pools])
    if i == 5:
        return len(pools) / len(owners) if pools else 0
    if i == 6:
        return max(owners.values(), default=0)
    if i == 7:
        return median(list(owners.values()))
    if i == 8:
        rates = [p.stake / ref.threshold(P, p.pledge) if ref.threshold(P, p.pledge) > 0 else inf for p in pools]
        return mean(rates) if not any(isinf(x) for x in rates) else inf
    if i == 9:
        if not pools:
            return 0
        return nakamoto(list(held.values()), plain=len(owners) == len(pools) == 2)
    if i == 10:
        if not pools:
            return 0
        return fsum(abs(held.get(a.unique_id, 0) - a.stake) for a in agents) / 2
    if i == 12:
        if not pools:
            return 0
        s = fsum(p.stake for p in pools)
        return fsum(p.pledge for p in pools) / s
    if i == 13:
        if not pools:
            return 0
        return fsum(p.stake for p in pools) / (len(pools) * max(p.stake for p in pools))
    if i == 14:
        return sim.schedule.steps
    if i in (15, 16, 17, 18):
        if not pools:
            return 0
        if i in (15, 17):
            order = sorted(agents, key=lambda a: (-a.stake, a.unique_id))
        else:
            order = sorted(agents, key=lambda a: (a.cost, a.unique_id))
        rank = {a.unique_id: r + 1 for r, a in enumerate(order)}
        xs = [rank[p.owner] for p in pools]
        v = mean(xs) if i in (15, 16) else median(xs)
        return round(v) if abs(v % 1 - 0.5) > 1e-9 or i in (17, 18) else Either(int(v), int(v) + 1)
    if i == 19:
        return sum(1 for c in owners.values() if c > 1)
    if i == 20:
        xs = [ref.potential_profit(P, a.stake, a.cost) for a in agents]
        sure = sum(x > 1e-14 for x in xs)
        maybe = sum(abs(x) <= 1e-14 for x in xs)
        return Either(*range(sure, sure + maybe + 1))
    if i == 21:
        st = {a.unique_id: a.stake for a in agents}
        return {"x": [st[p.owner] for p in pools], "y": [p.stake for p in pools], "r": [p.margin for p in pools],
                "pool_id": [p.id for p in pools], "owner_id": [p.owner for p in pools]}
    if i == 22:
        return gini(owners.values())
    if i == 23:
        return gini(held.values())
    if i == 24:
        return mean([p.margin for p in pools])
    if i == 25:
        return median([p.margin for p in pools])
    if i == 26:
        return [held.get(a, 0) for a in range(run.cfg["n"])]
    if i == 27:
        return {a: held.get(a, 0) for a in range(run.cfg["n"])}
    if i == 28:
        return fsum(p.stake for p in pools)
    if i == 29:
        return 1 - run.cfg["inactive_stake_fraction"]
    if i == 30:
        return len(owners)
    raise ValueError(i)


def equal(have, want, tol=1e-9):
    if isinstance(want, Either):
        return any(equal(have, w, tol) for w in want.vals)
    if isinstance(want, dict):
        return isinstance(have, dict) and set(have) == set(want) and all(equal(have[k], want[k], tol) for k in want)
    if isinstance(want, (list, tuple)):
        return isinstance(have, (list, tuple)) and len(have) == len(want) and all(equal(a, b, tol) for a, b in zip(have, want))
    have, want = float(have), float(want)
    if isinf(want) or isinf(have):
        return have == want
    return abs(have - want) <= tol * max(1, abs(want))
