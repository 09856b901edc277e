"""Totality of all mechanisms (a valid outcome on every valid market, with and without tracing), and their symmetries."""
import logging, math
from core import Facet, Property, require
import gen, oracle
from adapt import (SINGLE, Outcome, market_of, run_tree, quiet, submultiset, snapshot, recipetree, recipetree_integer, AgentCategory, Market,
                   mcafee_protocol, trade_reduction_protocol, ascending_auction_protocol, rt_protocol, ri_protocol, prices, prices_integer)
from p_market import clone
from p_tree import nodes_of
import p_single
from p_single import used

# ------------------------------------------------------------------ totality


def variants(case):
    recipe = case.get("recipe")
    if recipe is None:
        return ["rt", "ri"] if case["counts"] is None else ["ri"]
    out = ["asc", "tr", "tr_strict"]
    return out + (["mcafee", "mcafee_plain"] if all(r == 1 for r in recipe) else [])


def go(variant, market, case):
    if variant in ("rt", "ri"):
        return run_tree(variant, market, clone(case["tree"]), None if case["counts"] is None else list(case["counts"]))
    return SINGLE[variant](market, list(case["recipe"]))


class Recorder(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.lines = 0

    def emit(self, record):
        record.getMessage()
        self.lines += 1

    def handle(self, record):    # do not swallow errors
        self.emit(record)


def loggers():
    return [m.logger for m in (mcafee_protocol, trade_reduction_protocol, ascending_auction_protocol, rt_protocol, ri_protocol, prices, prices_integer)
            if isinstance(getattr(m, "logger", None), logging.Logger)]


class traced:
    def __enter__(self):
        self.recorder = Recorder()
        self.saved = [(l, l.level, list(l.handlers), l.propagate) for l in loggers()]
        for l, _, _, _ in self.saved:
            l.handlers = [self.recorder]
            l.propagate = False
            l.setLevel(logging.DEBUG)
        return self.recorder

    def __exit__(self, *args):
        for l, level, handlers, propagate in self.saved:
            l.handlers, l.propagate = handlers, propagate
            l.setLevel(level)


def total_run(case):
    cats = case["cats"]
    n = len(cats)
    labels = []
    for variant in variants(case):
        names = case.get("names")
        m = market_of(cats, names)
        with quiet():
            t = go(variant, m, case)
            text = repr(t)
        o = Outcome(t, n)
        gain = t.gain_from_trade()
        require(math.isfinite(gain), "{}: the gain is {}", variant, gain)
        require(isinstance(text, str) and text != "", "{}: printed as {!r}", variant, text)
        which = used(case["recipe"]) if case.get("recipe") else nodes_of(case["tree"])
        for i in which:
            require(submultiset(o.values[i], cats[i]), "{}: category {} trades {} but the agents are {}", variant, i, o.values[i], cats[i])
        if o.k:
            o.check_prices(which)
            labels.append("deals")
        with quiet(), traced() as rec:
            t2 = go(variant, market_of(cats, names), case)
        o2 = Outcome(t2, n)
        require((o2.k, o2.values) == (o.k, o.values) and (o.k == 0 or o2.prices == o.prices), "{}: the outcome with tracing is {} {} {} and without {} {} {}",
                variant, o2.k, o2.values, o2.prices, o.k, o.values, o.prices)
        if rec.lines:
            labels.append("traced")
        if hasattr(t, "optimal_trade"):
            with quiet():
                t.optimal_trade()
    empty = any(not c for c in cats)
    if empty:
        labels.append("empty category")
    if empty or "deals" in labels:
        labels.append("nontrivial")
    labels.append("float values" if any(v != int(v) for c in cats for v in c) else "integer values")
    return labels


def stress_values(rng, n, lo, hi):
    style = rng.random()
    if style < 0.3:
        return [rng.uniform(lo, hi) for _ in range(n)]
    if style < 0.5:
        return [round(rng.uniform(lo, hi), rng.randint(1, 3)) for _ in range(n)]
    if style < 0.6:
        return [rng.choice([lo, hi, 0, (lo + hi) / 3]) for _ in range(n)]
    if style < 0.7:   # nearly equal values
        base = rng.uniform(lo, hi)
        return [min(hi, max(lo, base + rng.choice([0, 1e-9, -1e-9, 1e-12]))) for _ in range(n)]
    return [rng.randint(math.ceil(lo), math.floor(hi)) for _ in range(n)]


def stress_single(rng):
    recipe = rng.choice([lambda: gen.recipe_bulk(rng, "int", zeros=True), lambda: gen.recipe_bulk(rng, "ones"),
                         lambda: [rng.randint(1, 40) for _ in range(rng.randint(1, 3))], lambda: [1] * rng.randint(6, 12)])()
    k = len(recipe)
    top = rng.choice([1, 5, 100, 1e4, 0.9e8 / (sum(recipe) + 1)])
    units = rng.choice([0, 1, 2, 3, 5, 8]) if rng.random() < .94 else min(rng.choice([20, 60, 200]), max(3, 3000 // (sum(recipe) + 1)))
    cats = []
    rich = rng.randrange(k) if units > 8 or rng.random() < .2 else None      # most agents trade
    for i, r in enumerate(recipe):
        lo, hi = (top * .9, top) if i == rich else rng.choice([(-top / 40, 0), (-top / 99, top / 99)]) if rich is not None else rng.choice([(-top, 0), (-top, 0), (0, top), (-top, top), (0, 0), (-top, -top / 2), (top / 2, top)])
        cats.append(stress_values(rng, max(0, r * units + rng.choice([-r, -1, 0, 0, 1, r])), lo, hi))
    if rng.random() < 0.2:
        cats[rng.randrange(k)] = []
    return {"cats": cats, "recipe": recipe}


def stress_tree(rng):
    kind = rng.choice(["any", "any", "chain", "star", "single"])
    if kind == "any":
        tree, n = gen.tree_bulk(rng, 10)
    elif kind == "chain":
        tree, n = gen.tree_bulk(rng, 10, chain=True, max_depth=10)
    elif kind == "single":
        tree, n = [0, None], 1
    else:
        n = rng.randint(2, 9)
        tree = [0, sum([[i, None] for i in range(1, n)], [])]
    total = n + rng.choice([0, 0, 0, 1])
    counts = None if rng.random() < 0.5 else [rng.choice([1, 1, 2, 3, 5, 10]) for _ in range(total)]
    top = rng.choice([1, 5, 100, 1e4, 1e6])
    cats = []
    units = rng.choice([0, 1, 2, 4, 8]) if rng.random() < .95 else rng.choice([20, 40])
    rich = tree[0] if units > 8 or rng.random() < .2 else None
    for i in range(total):
        c = counts[i] if counts else 1
        lo, hi = (top * .9, top) if i == rich else (-top / 60, 0) if rich is not None else rng.choice([(-top, 0), (-top, 0), (0, top), (0, 5 * top), (-top, top), (0, 0), (-top, -top / 2), (top / 2, top)])
        cats.append(stress_values(rng, max(0, c * units + rng.choice([-c, -1, 0, 0, 1, c])), lo, hi))
    for _ in range(rng.choice([0, 0, 1, 2])):
        cats[rng.randrange(total)] = []
    return {"cats": cats, "tree": tree, "counts": counts}


def named(bulk):
    def f(rng):
        case = bulk(rng)
        if rng.random() < .2:
            case["names"] = odd_names(rng, len(case["cats"]))
        return case
    return f


# ------------------------------------------------------------------ symmetries

def outcome(variant, cats, case, names=None):
    with quiet():
        t = go(variant, market_of(cats, names), case)
    o = Outcome(t, len(cats))
    return t, o


def same(a, b, f=lambda x: x):
    return a.k == b.k and [[f(v) for v in c] for c in a.values] == b.values and (a.k == 0 or [f(p) for p in a.prices] == b.prices)


def trading(case, o):
    """The categories whose agents trade (the price of an empty category depends on the bound on the values)."""
    if case.get("recipe"):
        return used(case["recipe"])
    cnt = case["counts"] or [1] * len(o.values)
    return sorted({i for p in gen.tree_paths(case["tree"]) if all(len(o.values[q]) >= cnt[q] for q in p) for i in p})


def symmetry_run(case):
    cats, n = case["cats"], len(case["cats"])
    labels = []
    for variant in variants(case):
        t, o = outcome(variant, cats, case, ["c%d" % i for i in range(n)])
        require(all(c.name == "c%d" % i for i, c in enumerate(t.categories)), "{}: the categories of the outcome are {}", variant, t.categories)
        if o.k:
            labels.append("nontrivial")
        # the order in which the agents are given does not matter
        perm = [[c[j] for j in p] for c, p in zip(cats, case["perms"])]
        _, o2 = outcome(variant, perm, case)
        require(same(o, o2), "{}: with the agents in another order {} the outcome is {} {} {} instead of {} {} {}", variant, perm, o2.k, o2.values, o2.prices, o.k, o.values, o.prices)
        # agents that are added later are like the others
        m = Market([AgentCategory("c%d" % i, []) for i in range(n)])
        for i, c in enumerate(perm):
            for v in c:
                m.append_trader(i, v)
        with quiet():
            o2 = Outcome(go(variant, m, case), n)
        require(same(o, o2), "{}: with the agents added one by one the outcome is {} {} {} instead of {} {} {}", variant, o2.k, o2.values, o2.prices, o.k, o.values, o.prices)
        # names do not matter
        names = case["names"]
        t2, o2 = outcome(variant, cats, case, names)
        require(same(o, o2), "{}: with the names {} the outcome is {} {} {} instead of {} {} {}", variant, names, o2.k, o2.values, o2.prices, o.k, o.values, o.prices)
        require([c.name for c in t2.categories] == names, "{}: the names {} became {}", variant, names, [c.name for c in t2.categories])
        # the number type does not matter
        _, o2 = outcome(variant, [[float(v) for v in c] for c in cats], case)
        require(same(o, o2, float), "{}: with float values the outcome is {} {} {} instead of {} {} {}", variant, o2.k, o2.values, o2.prices, o.k, o.values, o.prices)
        # changing the money unit by a power of two scales the outcome
        f = case["factor"]
        _, o2 = outcome(variant, [[v * f for v in c] for c in cats], case)
        require(o2.k == o.k and o2.values == [[v * f for v in c] for c in o.values], "{}: in another money unit (times {}) the agents are {} ({} deals) instead of {} ({} deals)", variant, f, o2.values, o2.k, o.values, o.k)
        if o.k:
            for i in trading(case, o):
                require(abs(o2.prices[i] - o.prices[i] * f) <= 1e-5 * (1 + abs(f)), "{}: in another money unit (times {}) the prices are {} instead of {}", variant, f, o2.prices, o.prices)
    return labels


def symmetry_single(rng):
    if rng.random() < .03:
        case = p_single.large(rng.choice(["ones", "int"]), True)(rng)
    else:
        case = gen.market_bulk(rng, gen.recipe_bulk(rng, rng.choice(["ones", "int"]), zeros=True))
    return decorate(rng, case)


def symmetry_tree(rng):
    if rng.random() < .03:
        case = gen.tree_large_bulk(.5, count_choices=(1, 1, 2, 4))(rng)
    else:
        case = gen.tree_market_bulk(rng, max_nodes=7, counts=rng.random() < 0.5, count_choices=(1, 1, 2, 4))
    return decorate(rng, case)


def odd_names(rng, n):
    """Names that formats, sorts and reports may take for something else."""
    return [rng.choice(["{}", "{x}", "{", "}}", "%s", "%d", "100%", "a: b", "No trade", "x, y", "[1]", "None", "0", "-1", "\u05e7\u05d5\u05e0\u05d4", "two\nlines", "n" * 300]) for _ in range(n)]


def decorate(rng, case):
    top = max([abs(v) for c in case["cats"] for v in c] + [1])
    total = sum(case["recipe"]) if case.get("recipe") else sum(case["counts"] or case["cats"] and [1] * len(case["cats"]))
    case["factor"] = rng.choice([f for f in (0.25, 0.5, 2, 4, 64) if f * top * total < 0.9e8] or [0.5])
    perms = []
    for c in case["cats"]:
        p = list(range(len(c)))
        rng.shuffle(p)
        perms.append(p)
    case["perms"] = perms
    n = len(case["cats"])
    case["names"] = rng.choice([["agent"] * n, ["%s" % chr(122 - i) for i in range(n)], ["buyer"] + ["seller"] * (n - 1), [""] * n, odd_names(rng, n)])
    return case


def shrink_symmetry(case):
    for i, c in enumerate(case["cats"]):
        for j in range(len(c)):
            p = [q - (q > j) for q in case["perms"][i] if q != j]
            yield dict(case, cats=case["cats"][:i] + [c[:j] + c[j + 1:]] + case["cats"][i + 1:], perms=case["perms"][:i] + [p] + case["perms"][i + 1:])


# ------------------------------------------------------------------ relations between the mechanisms

def relations_run(case):
    """Recipe-trees with one path, recipe-trees of ones and integer recipe-trees, irrelevant categories and branches."""
    cats, tree, counts, n = case["cats"], case["tree"], case["counts"], len(case["cats"])
    labels = []
    nodes = nodes_of(tree)
    ones = case["counts"] is None
    flat = [v for c in cats for v in c]

    def agree(a, b, p):
        """the same outcome, with the categories renumbered by p"""
        if a.k != b.k:
            return False
        return a.k == 0 or all(b.values[p[i]] == a.values[i] and abs(b.prices[p[i]] - a.prices[i]) <= 1e-4 for i in trading(case, a))

    def tree_of(variant, cats, tree, counts):
        return outcome(variant, cats, {"tree": tree, "counts": counts})

    base = tree_of("ri", cats, tree, counts)
    if base[1].k:
        labels.append("nontrivial")
    if ones:
        # integer recipe-trees with counts of one are recipe-trees
        for other in (tree_of("rt", cats, tree, None), tree_of("ri", cats, tree, [1] * n)):
            require(agree(base[1], other[1], list(range(n))) and abs(base[0].gain_from_trade() - other[0].gain_from_trade()) <= 1e-9 * max(map(abs, flat + [1])) * (1 + len(flat)), "the integer recipe-tree with counts of one gives {} {} {} and the recipe-tree {} {} {}",
                    base[1].k, base[1].values, base[1].prices, other[1].k, other[1].values, other[1].prices)
        labels.append("ones")
    for variant in (["rt", "ri"] if ones else ["ri"]):
        # relabelling the categories
        p = case["relabel"]          # the new index of each category
        new_cats = [None] * n
        for i in range(n):
            new_cats[p[i]] = cats[i]

        def move(s):
            return [None if x is None else move(x) if isinstance(x, list) else p[x] for x in s]
        new_counts = None
        if counts is not None:
            new_counts = [None] * n
            for i in range(n):
                new_counts[p[i]] = counts[i]
        t2, o2 = tree_of(variant, new_cats, move(tree), new_counts)
        require(agree(base[1], o2, p), "{}: with the categories renumbered {} the outcome is {} {} {} instead of {} {} {}", variant, p, o2.k, o2.values, o2.prices, base[1].k, base[1].values, base[1].prices)
        # a category outside of the tree does not matter
        for extra in ([], case["extra"]):
            t2, o2 = tree_of(variant, cats + [list(extra)], tree, None if counts is None else counts + [case["extra_count"]])
            require(agree(base[1], o2, list(range(n))),
                    "{}: with another category {} outside of the tree the outcome is {} {} {} instead of {} {} {}", variant, extra, o2.k, o2.values, o2.prices, base[1].k, base[1].values, base[1].prices)
            require(abs(t2.gain_from_trade() - base[0].gain_from_trade()) <= 1e-6 * (1 + abs(base[0].gain_from_trade())), "{}: another category {} changes the gain from {} to {}", variant, extra, base[0].gain_from_trade(), t2.gain_from_trade())
    return labels


def relations_bulk(rng):
    if rng.random() < .03:
        case = gen.tree_large_bulk(.5)(rng)
    else:
        case = gen.tree_market_bulk(rng, max_nodes=7, counts=rng.random() < 0.5, extra=False)
    n = len(case["cats"])
    # general position: no two different sums of values are equal (otherwise the outcome depends on the resolution of ties)
    case["cats"] = [[v + rng.randrange(-2 ** 19, 2 ** 19) / 2 ** 20 for v in c] for c in case["cats"]]
    p = list(range(n))
    rng.shuffle(p)
    case.update(relabel=p, extra=[rng.randint(-50, 50) for _ in range(rng.randint(1, 5))], extra_count=rng.randint(1, 4))
    return case


def irrelevant_run(case):
    """A category that the recipe does not use does not matter to the ascending auction, to trade reduction and to the optimal trade."""
    cats, recipe, pos, extra = case["cats"], case["recipe"], case["pos"], case["extra"]
    labels = []
    new = dict(case, recipe=recipe[:pos] + [0] + recipe[pos:])
    keep = [i for i in range(len(cats) + 1) if i != pos]
    for variant in ("asc", "tr", "tr_strict"):
        t, o = outcome(variant, cats, case)
        if o.k:
            labels.append("nontrivial")
        t2, o2 = outcome(variant, cats[:pos] + [extra] + cats[pos:], new)
        require(o2.k == o.k and [o2.values[i] for i in keep] == o.values, "{}: an irrelevant category changes the outcome from {} {} to {} {}", variant, o.k, o.values, o2.k, o2.values)
        if o.k:
            require([o2.prices[i] for i in keep] == o.prices, "{}: an irrelevant category changes the prices from {} to {}", variant, o.prices, o2.prices)
        require(t2.gain_from_trade() == t.gain_from_trade() and t2.gain_from_trade(False) == t.gain_from_trade(False), "{}: an irrelevant category changes the gain from {} to {}", variant, t.gain_from_trade(), t2.gain_from_trade())
    a = market_of(cats).optimal_trade(list(recipe))[0]
    b = market_of(cats[:pos] + [extra] + cats[pos:]).optimal_trade(new["recipe"])[0]
    require(a.num_of_deals() == b.num_of_deals() and a.gain_from_trade() == b.gain_from_trade(), "an irrelevant category changes the optimal trade from {} to {}", a, b)
    return labels


def irrelevant_bulk(rng):
    if rng.random() < .03:
        case = p_single.large(rng.choice(["ones", "int"]))(rng)
    else:
        case = gen.market_bulk(rng, gen.recipe_bulk(rng, rng.choice(["ones", "int"])))
    case.update(pos=rng.randint(0, len(case["cats"])), extra=[rng.randint(-20, 20) for _ in range(rng.choice([0, 1, 3, 30]))])
    return case


PROPERTIES = {
    "totality": lambda: Property("totality", "non-trivial: some deal was made or some category is empty", [
        Facet("single recipes", total_run, bulk=named(stress_single), shrink=gen.shrink_market, quick=16000, thorough=500000),
        Facet("recipe-trees", total_run, bulk=named(stress_tree), shrink=gen.shrink_tree, quick=10000, thorough=300000),
    ]),
    "symmetry": lambda: Property("symmetry", "non-trivial: at least one deal", [
        Facet("single recipes", symmetry_run, bulk=symmetry_single, shrink=shrink_symmetry, quick=6000, thorough=200000),
        Facet("recipe-trees", symmetry_run, bulk=symmetry_tree, shrink=shrink_symmetry, quick=4000, thorough=120000),
    ]),
    "relations": lambda: Property("relations", "non-trivial: at least one deal", [
        Facet("recipe-trees", relations_run, bulk=relations_bulk, quick=4000, thorough=120000),
        Facet("irrelevant category", irrelevant_run, bulk=irrelevant_bulk, shrink=None, quick=20000, thorough=500000),
    ]),
}
