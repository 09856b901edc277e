"""The simulation experiments: their result tables state the outcomes of the auctions on the markets they ran on."""
import contextlib, csv, inspect, io, math, os, random, re, shutil, tempfile
from fractions import Fraction
from core import Facet, Property, require
import gen, oracle
from adapt import (AgentCategory, SINGLE, market_of, quiet, run_tree, recipetree, recipetree_integer, submultiset,
                   trade_reduction_protocol, ascending_auction_protocol, rt_protocol, ri_protocol)
import agents as agents_module
with contextlib.redirect_stdout(io.StringIO()):
    import experiment as exp_simple
    import experiment_comparing_sbb as exp_sbb
    import experiment_ascending_auction_recipetree_random as exp_rt
    import experiment_ascending_auction_recipetree_integer_random as exp_ri
    import experiment_stock as stock_simple
    import experiment_compare_iterations_autions as stock_iterations
    import experiment_compare_iterations_autions_without_mcafee as stock_without
    import experiment_compare_sbb_shufled_stock as stock_shuffled
    import experiment_ascending_auction_recipetree_stock as stock_rt
    import experiment_ascending_auction_recipetree_integer_stock as stock_ri

F = Fraction


# ---------------------------------------------------------------- running an experiment in a scratch directory

@contextlib.contextmanager
def scratch():
    old = os.getcwd()
    path = tempfile.mkdtemp(prefix="verif-exp-")
    os.chdir(path)
    try:
        yield os.path.join(path, "results.csv")
    finally:
        os.chdir(old)
        shutil.rmtree(path)


@contextlib.contextmanager
def replaced(owner, name, value):
    own = name in owner.__dict__
    old = owner.__dict__.get(name)
    setattr(owner, name, value)
    try:
        yield
    finally:
        if own:
            setattr(owner, name, old)
        else:
            delattr(owner, name)


@contextlib.contextmanager
def watching_random(log):
    """Records (number of agents, lowest value, highest value, values) of every uniformly random category."""
    real = agents_module.AgentCategory.uniformly_random
    sig = inspect.signature(real)

    def watched(*a, **kw):
        out = real(*a, **kw)
        b = sig.bind(*a, **kw)
        args = list(b.arguments.values())
        log.append((args[1], args[2], args[3], list(out.values)))
        return out
    with replaced(agents_module.AgentCategory, "uniformly_random", staticmethod(watched)):
        yield


@contextlib.contextmanager
def watching_auction(log, module, name, home, wrap=lambda f: f):
    """Records the markets on which the experiment module runs the auction `name` of the module `home`, which may be changed."""
    with contextlib.ExitStack() as stack:
        for owner in (module, home):
            if name in owner.__dict__:
                stack.enter_context(replaced(owner, name, Watch(wrap(owner.__dict__[name]), log)))
        yield


class Watch:
    """Wraps an auction; remembers the markets and recipes it is given."""
    def __init__(self, f, log):
        self.f, self.log = f, log

    def __call__(self, market, *rest, **kw):
        self.log.append([list(c.values) for c in market.categories])
        if not rest and "ps_recipe" in kw:      # the stand-ins know the recipe by its place
            rest = (kw.pop("ps_recipe"),)
        return self.f(market, *rest, **kw)


def rows_of(path):
    require(os.path.isfile(path), "the experiment wrote no results file")
    require(not os.path.exists(path.replace(".csv", ".temp.csv")), "the temporary results file was not removed")
    with open(path, newline="") as f:
        return list(csv.DictReader(f))


def number(row, col, where):
    require(col in row, "{}: there is no column {}", where, col)
    try:
        return float(row[col])
    except (TypeError, ValueError):
        require(False, "{}: column {} holds {!r}", where, col, row[col])


def check_row(row, want, where):
    """want: column -> text, or column -> (number, tolerance)"""
    for col, w in want.items():
        if isinstance(w, tuple):
            got = number(row, col, where)
            value, tol = float(w[0]), w[1]
            require(abs(got - value) <= tol + 1e-9 * abs(value), "{}: column {} is {} but the auctions give {}", where, col, row[col], value)
        else:
            require(row.get(col) == w, "{}: column {} is {!r} instead of {!r}", where, col, row.get(col), w)


def pct(a, b):
    return F(0) if b == 0 else F(a) / F(b) * 100


class Single:
    """Exact figures of one market: the optimum by the oracle, the auction by an independent run on a fresh market."""
    def __init__(self, cats, recipe):
        self.cats, self.recipe = cats, recipe
        opt, self.k0, self.k1 = oracle.optimal_single(cats, list(recipe))
        self.opt = opt

    def auction(self, f):
        t = f(market_of(self.cats), self.recipe)
        return t.num_of_deals(), t.gain_from_trade(including_auctioneer=True), t.gain_from_trade(including_auctioneer=False)


def auctions_for(recipe):
    names = ["asc"]
    if all(r > 0 for r in recipe):
        names.append("tr")
    if all(r == 1 for r in recipe):
        names += ["mcafee_plain"] + (["mcafee"] if len(recipe) == 2 else [])
    return names


# ---------------------------------------------------------------- experiments on random agents

def one_auction_run(case):
    recipe = tuple(case["recipe"])
    auction = SINGLE[case["auction"]]
    random.seed(case["seed"])
    markets, drawn = [], []
    with scratch() as path:
        with watching_random(drawn):
            exp_simple.experiment(path, Watch(auction, markets), "name of it", recipe, [tuple(r) for r in case["ranges"]], list(case["nums"]), case["iterations"])
        rows = rows_of(path)
    its, nums = case["iterations"], case["nums"]
    require(len(rows) == len(nums), "{} rows for {} numbers of agents", len(rows), len(nums))
    require(len(markets) == its * len(nums), "the auction ran {} times instead of {}", len(markets), its * len(nums))
    check_drawn(drawn, markets, [[(n * r, lo, hi) for r, (lo, hi) in zip(recipe, case["ranges"])] for n in nums for _ in range(its)])
    labels = []
    for i, n in enumerate(nums):
        part = markets[i * its:(i + 1) * its]
        for m in part:
            require([len(c) for c in m] == [n * r for r in recipe], "a market for {} agents and recipe {} has categories of {} agents", n, recipe, [len(c) for c in m])
        ms = [Single(m, recipe) for m in part]
        res = [s.auction(auction) for s in ms]
        k, opt = sum(s.k1 for s in ms), sum(s.opt for s in ms)
        ak, total, mkt = (sum(r[j] for r in res) for j in range(3))
        check_row(rows[i], {
            "iterations": str(its), "auction_name": "name of it", "recipe": ":".join(map(str, recipe)), "num_of_agents": str(n),
            "mean_optimal_count": (F(k) / its, .0051), "mean_auction_count": (F(ak) / its, .0051), "count_ratio": (pct(ak, k), .0101),
            "mean_optimal_gft": (opt / its, .0051), "mean_auction_total_gft": (total / its, .0051), "total_gft_ratio": (pct(total, opt), .0051),
            "mean_auction_market_gft": (mkt / its, .0051), "market_gft_ratio": (pct(mkt, opt), .0051)}, "row %d" % i)
        if ak:
            labels += ["nontrivial", case["auction"], "auction loses a deal" if ak < k else "auction makes all deals"]
        else:
            labels.append("no deals")
    return labels


def check_drawn(drawn, markets, want):
    """want: for every market, (number of agents, lowest value, highest value) of every category."""
    check_uniform(markets, want)
    if not drawn:
        return          # the categories were not made by AgentCategory.uniformly_random
    flat = [w for m in want for w in m]
    require(len(drawn) == len(flat), "{} random categories were drawn instead of {}", len(drawn), len(flat))
    for (n, lo, hi, values), w in zip(drawn, flat):
        require(n == w[0] and abs(lo - w[1]) <= 1e-9 * abs(w[1]) and abs(hi - w[2]) <= 1e-9 * abs(w[2]),
                "a category of {} agents in ({}, {}) was drawn instead of {} in ({}, {})", n, lo, hi, *w)
        require(len(values) == w[0] and all(min(w[1:]) - .5 <= v <= max(w[1:]) + .5 for v in values), "values {} were drawn instead of {} in ({}, {})", values, *w)
    i = 0
    for m in markets:
        for c in m:
            require(sorted(c) == sorted(drawn[i][3]), "the auction ran on a category {} while {} was drawn", c, drawn[i][3])
            i += 1


def check_uniform(markets, want):
    """The agents are independent and uniformly distributed between the lowest and the highest value, and then rounded.
    (Dvoretzky-Kiefer-Wolfowitz: probability of an alarm below 1e-13.)"""
    low, high, seen = [], [], {}
    for m, w in zip(markets, want):
        for c, (n, a, b) in zip(m, w):
            lo, hi = float(min(a, b)), float(max(a, b))
            require(len(c) == n and all(lo - .5 <= v <= hi + .5 for v in c), "a category of {} agents in ({}, {}) is {}", n, lo, hi, c)
            if hi > lo:
                low += [max(0, (v - .5 - lo) / (hi - lo)) for v in c]
                high += [min(1, (v + .5 - lo) / (hi - lo)) for v in c]
            if n >= 6 and hi - lo >= 1000:
                key = (a, b, *sorted(c))
                require(key not in seen, "two categories of {} agents in ({}, {}) have the same agents {}", n, lo, hi, c)
                seen[key] = 1
    n = len(low)
    if n < 20:
        return
    bound = (math.log(2e13) / 2 / n) ** .5 + 1e-9
    for i, (a, b) in enumerate(zip(sorted(low), sorted(high))):
        # the share of agents that are surely below b, and possibly below a
        require((i + 1) / n <= b + bound and i / n >= a - bound, "{} of {} random values are in the lowest {} to {} of their range", i + 1, n, a, b)


def random_ranges(rng, n):
    top = rng.choice([3, 10, 100, 1000])
    style = rng.randint(0, 3)
    if style == 0:
        return [[1, top]] + [[-top, -1]] * (n - 1)
    if style == 1:
        return [[-top, top]] * n
    if style == 2:
        return [[0, top * n]] + [[-top, 0]] * (n - 1)
    return [sorted([rng.randint(-top, top), rng.randint(-top, top) + .5]) for _ in range(n)]


def random_case(rng):
    n = rng.choice([2, 2, 3, 3, 4]) if rng.random() < .9 else rng.choice([1, 5, 6, 8])
    recipe = [1] * n if rng.random() < .45 else [rng.randint(1, 3) for _ in range(n)]
    if rng.random() < .04:
        gen.add_zero(rng, recipe)
    if rng.random() < .03:
        recipe[rng.randrange(len(recipe))] = rng.randint(4, 12)
    nums, its = amounts(rng, range(0, 9), 4)
    return {"recipe": recipe, "auction": rng.choice(auctions_for(recipe)), "ranges": random_ranges(rng, len(recipe)),
            "nums": nums, "iterations": its, "seed": rng.randint(0, 10 ** 9)}


def amounts(rng, usual, iterations):
    """Numbers of agents and of iterations: usually few and small."""
    u = rng.random()
    nums = rng.sample(usual, rng.randint(1, 3))
    if u < .04:
        nums = rng.sample(range(10, 120), rng.randint(1, 2))
    elif u < .06:
        nums = rng.sample(range(0, 14), rng.randint(4, 10))
    elif u < .07:
        nums = nums + nums[:1]
    return nums, rng.randint(1, iterations) if rng.random() < .95 or max(nums) > 20 else rng.randint(iterations, 5 * iterations)


def weakened(f, which):
    """The auction f, which ignores the highest agent of some category in some of the markets."""
    def g(market, recipe, **kw):
        values = [list(c.values) for c in market.categories]
        c = which % len(values)
        if sum(len(x) for x in values) and int(sum(map(sum, values))) % 3 and values[c]:
            return f(market_of(values[:c] + [sorted(values[c])[:-1]] + values[c + 1:]), recipe, **kw)
        return f(market, recipe, **kw)
    return g if which is not None else f


def compare_run(case):
    recipes = [tuple(r) for r in case["recipes"]]
    nums, its = case["nums"], case["iterations"]
    random.seed(case["seed"])
    m_tr, m_asc, drawn = [], [], []
    with scratch() as path:
        with watching_random(drawn), watching_auction(m_tr, exp_sbb, "budget_balanced_trade_reduction", trade_reduction_protocol, lambda f: weakened(f, case["weak"][0])), \
                watching_auction(m_asc, exp_sbb, "budget_balanced_ascending_auction", ascending_auction_protocol,
                                 lambda f: weakened(f, case["weak"][1])):
            exp_sbb.experiment(path, recipes, [tuple(r) for r in case["ranges"]], list(nums), its)
        rows = rows_of(path)
    require(len(rows) == len(recipes), "{} rows for {} recipes", len(rows), len(recipes))
    if not m_tr or not m_asc:
        return ["not observed"]
    require(m_tr == m_asc, "the two auctions ran on different markets")
    require(len(m_tr) == its * len(nums) * len(recipes), "the auctions ran {} times instead of {}", len(m_tr), its * len(nums) * len(recipes))
    check_drawn(drawn, m_tr, [[(n * r, case["ranges"][c][0] * f, case["ranges"][c][1] * f) for c, r in enumerate(recipe)
                               for f in [sum(recipe) - recipe[0] if c == 0 else recipe[0]]]
                              for recipe in recipes for n in nums for _ in range(its)])
    labels = []
    at = 0
    for i, recipe in enumerate(recipes):
        tally = {"gft": [0, 0, 0], "k": [0, 0, 0]}
        unclear = 0
        for n in nums:
            part = [Single(m, recipe) for m in m_tr[at:at + its]]
            at += its
            a = [s.auction(weakened(SINGLE["tr"], case["weak"][0])) for s in part]
            b = [s.auction(weakened(SINGLE["asc"], case["weak"][1])) for s in part]
            dk = sum(x[0] for x in a) - sum(x[0] for x in b)
            ga, gb = sum(x[1] for x in a), sum(x[1] for x in b)
            tally["k"][0 if dk > 0 else 1 if dk == 0 else 2] += 1
            if abs(ga - gb) <= 1e-9 * (1 + abs(ga)) and any(F(x[1]).denominator != 1 for x in a + b):
                unclear += 1        # equal up to the rounding of floating-point sums
            else:
                tally["gft"][0 if ga > gb else 1 if ga == gb else 2] += 1
            if sum(x[0] for x in a) + sum(x[0] for x in b):
                labels += ["nontrivial", ["more deals in trade reduction", "equally many deals", "more deals in the ascending auction"][0 if dk > 0 else 1 if dk == 0 else 2],
                           "equal gains" if ga == gb else "more gain in trade reduction" if ga > gb else "more gain in the ascending auction"]
        for j, who in enumerate(["external_wins", "tie", "ascending_wins"]):
            for what, col, scale in [("gft", who + "_gft", True), ("k", who + "_k", True), ("gft", who, False)]:
                got = number(rows[i], col, "row %d" % i)
                lo = tally[what][j]
                hi = lo + (unclear if what == "gft" else 0)
                if scale:
                    lo, hi = lo * 100 / len(nums) - 1, hi * 100 / len(nums) + 1e-9
                    require(lo < got <= hi, "row {}: column {} is {}; the auctions give {} wins in {} rounds", i, col, got, tally[what], len(nums))
                else:
                    require(lo <= got <= hi, "row {}: column {} is {}; the auctions give {}", i, col, got, tally[what])
    return labels


def compare_case(rng):
    recipes = [[rng.randint(1, 3) for _ in range(rng.choice([2, 2, 3]) if rng.random() < .9 else rng.choice([4, 5]))] for _ in range(rng.randint(1, 2) if rng.random() < .92 else rng.randint(3, 6))]
    nums = rng.sample(range(0, 8), rng.randint(1, 4)) if rng.random() < .92 else rng.choice([rng.sample(range(0, 15), rng.randint(5, 11)), rng.sample(range(10, 60), 1)])
    return {"recipes": recipes, "ranges": random_ranges(rng, 5), "nums": nums,
            "weak": rng.choice([[None, None], [None, None], [None, 0], [1, None], [0, 1], [0, None]]), "iterations": rng.randint(1, 3), "seed": rng.randint(0, 10 ** 9)}


# ---------------------------------------------------------------- recipe-trees

def tree_figures(kind, cats, tree, counts):
    """(k, OPT, kmin, kmax, auction deals, auction gain) of one market"""
    opt, k0, k1 = oracle.tree_optimum(tree, cats, counts)
    with quiet():
        market = market_of(cats)
        t = recipetree.RecipeTree(market.categories, tree) if kind == "rt" else recipetree_integer.RecipeTree(market.categories, tree, counts)
        _, _, _, kmin, kmax = t.optimal_trade_with_counters()
        a = run_tree(kind, market_of(cats), tree, counts)
    return k1, opt, kmin, kmax, a.num_of_deals(), a.gain_from_trade()


def mean_formula(kmin):
    return (kmin - 1) / (kmin + 1) * 100 if kmin > 1 else 0


def tree_random_run(case):
    kind, tree, counts = case["kind"], case["tree"], case["counts"]
    module = exp_rt if kind == "rt" else exp_ri
    nums, its, mult, values, ranges = case["nums"], case["iterations"], case["mult"], case["values"], case["ranges"]
    random.seed(case["seed"])
    markets, drawn = [], []
    extra = [list(counts)] if kind == "ri" else []
    with scratch() as path:
        with watching_random(drawn), watching_auction(markets, module, "budget_balanced_ascending_auction", rt_protocol if kind == "rt" else ri_protocol):
            module.experiment(path, case["tree"], [tuple(r) for r in ranges], list(nums), its, list(mult), list(values), *extra)
        rows = rows_of(path)
    require(len(rows) == len(nums), "{} rows for {} numbers of agents", len(rows), len(nums))
    if not markets:
        return ["not observed"]
    require(len(markets) == its * len(nums), "the auction ran {} times instead of {}", len(markets), its * len(nums))
    want = [[(int(n * mult[c]), ranges[min(c, 1)][0] * values[c], ranges[min(c, 1)][1] * values[c]) for c in range(case["n"])] for n in nums for _ in range(its)]
    check_drawn(drawn, markets, want)
    digit = 6e-6 if kind == "ri" else 1e-9
    labels = []
    for i, n in enumerate(nums):
        part = markets[i * its:(i + 1) * its]
        for m in part:
            require([len(c) for c in m] == [w[0] for w in want[i * its]], "a market for {} agents has categories of {} agents instead of {}", n, [len(c) for c in m], [w[0] for w in want[i * its]])
        figs = [tree_figures(kind, m, tree[:2], counts if kind == "ri" else None) for m in part]
        k, opt, kmin, kmax, ak, g = (sum(f[j] for f in figs) for j in range(6))
        require(rows[i]["iterations"] == str(its) and rows[i]["numofagents"] == str(n), "row {}: the number of iterations or agents is wrong: {}", i, rows[i])
        check_row(rows[i], {
            "meanoptimalcount": (F(k) / its, digit), "meanoptimalkmin": (F(kmin) / its, digit), "meanoptimalkmax": (F(kmax) / its, digit),
            "gftformula": (mean_formula(kmin / its), digit), "meanauctioncount": (F(ak) / its, digit), "countratio": (pct(ak, k), digit),
            "meanoptimalgft": (opt / its, digit), "meanauctiontotalgft": (F(g) / its, digit), "totalgftratio": (pct(g, opt), digit)}, "row %d" % i)
        labels.append(kind)
        if ak:
            labels += ["nontrivial", "auction loses a deal" if ak < k else "auction makes all deals"]
            if kmin != kmax:
                labels.append("paths of different numbers of deals")
        else:
            labels.append("no deals")
    return labels


def preorder(tree):
    """The tree with its categories numbered 0, 1, ... so that 0 is the root."""
    ids = {}
    for idx, _, _ in gen.tree_nodes(tree):
        ids.setdefault(idx, len(ids))

    def rec(sub):
        return None if sub is None else [x for j in range(0, len(sub), 2) for x in (ids[sub[j]], rec(sub[j + 1]))]
    return rec(tree), len(ids)


def tree_random_case(rng):
    tree, n = preorder(gen.tree_bulk(rng, max_nodes=6, max_depth=4)[0] if rng.random() < .95 else gen.tree_bulk(rng, max_nodes=11, max_depth=8)[0])
    kind = rng.choice(["rt", "ri"])
    counts = [rng.choice([1, 1, 2, 3]) for _ in range(n)] if rng.random() < .95 else [rng.choice([1, 4, 5, 8]) for _ in range(n)]
    nums, its = amounts(rng, range(0, 8), 3)
    top = rng.choice([5, 100, 1000])
    mult = [rng.choice([1, 1, 2, .5, 1.5]) * (counts[c] if kind == "ri" else 1) for c in range(n)]
    return {"kind": kind, "tree": tree, "n": n, "counts": counts, "mult": mult, "values": [rng.choice([1, 1, 2, .5]) for _ in range(n)],
            "ranges": rng.choice([[[1, top * n], [-top, -1]], [[-top, top], [-top, top]], [[0, top], [-top // 2, 0]]]),
            "nums": nums, "iterations": its, "seed": rng.randint(0, 10 ** 9)}


# ---------------------------------------------------------------- experiments on given prices

def per_stock_run(case):
    """experiment_stock: one row per stock."""
    recipe = tuple(case["recipe"])
    auction = SINGLE[case["auction"]]
    markets = []
    prices = [[list(c) for c in s] for s in case["stocks"]]
    names = ["S%d" % i for i in range(len(prices))]
    with scratch() as path:
        stock_simple.experiment(path, Watch(auction, markets), "A", recipe, [[list(c) for c in s] for s in prices], list(names))
        rows = rows_of(path)
    require(len(rows) == len(prices), "{} rows for {} stocks", len(rows), len(prices))
    require([[sorted(c) for c in m] for m in markets] == [[sorted(c) for c in s] for s in prices], "the auction ran on other markets than the given prices")
    labels = []
    for i, m in enumerate(prices):
        s = Single(m, recipe)
        k, total, mkt = s.auction(auction)
        ps = min(F(len(c), r) for c, r in zip(m, recipe))
        check_row(rows[i], {
            "stock_name": names[i], "auction_name": "A", "recipe": ":".join(map(str, recipe)), "num_possible_trades": (ps, .5),
            "optimal_count": (s.k1, 0), "auction_count": (k, 0), "count_ratio": (pct(k, s.k1), .00101),
            "optimal_gft": (s.opt, .0051), "auction_gft": (total, .0051), "auction_gft_ratio": (pct(total, s.opt), .00051),
            "auction_market_gft": (mkt, .0051), "market_gft_ratio": (pct(mkt, s.opt), .00051)}, "stock %d" % i)
        labels += ["nontrivial", case["auction"]] if k else ["no deals"]
    return labels


def without_run(case):
    """experiment_compare_iterations_autions_without_mcafee: a row per stock and number of deals, on prefixes of the prices."""
    recipe = tuple(case["recipe"])
    auctions = case["auctions"]
    logs = [[] for _ in auctions]
    prices = case["stocks"]
    names = ["S%d" % i for i in range(len(prices))]
    nums = case["nums"]
    with scratch() as path:
        stock_without.experiment(path, [Watch(SINGLE[a], logs[j]) for j, a in enumerate(auctions)], ["N%d" % j for j in range(len(auctions))], recipe,
                                 None if nums is None else list(nums), [[list(c) for c in s] for s in prices], list(names))
        rows = rows_of(path)
    want = []
    for i, s in enumerate(prices):
        for n in [10 ** 7] if nums is None else nums:
            if n > len(s[0]):
                want.append((i, len(s[0]), s))
                if nums is None or nums[-1] == max(nums):
                    break
                continue
            want.append((i, n, [c[:n * r] for c, r in zip(s, recipe)]))
    require(len(rows) == len(want), "{} rows instead of {}", len(rows), len(want))
    labels = []
    for log in logs:
        require([[sorted(c) for c in m] for m in log] == [[sorted(c) for c in w[2]] for w in want], "an auction ran on the markets {} instead of {}", log, [w[2] for w in want])
    for row, (i, n, m) in zip(rows, want):
        s = Single(m, recipe)
        columns = {"stock_name": names[i], "recipe": ":".join(map(str, recipe)), "num_possible_trades": (n, 0), "optimal_count": (s.k0, 0),
                   "optimal_count_with_gft_zero": (s.k1, 0), "optimal_gft": (s.opt, .0051)}
        for j, a in enumerate(auctions):
            k, _, mkt = s.auction(SINGLE[a])
            columns.update({"N%d_auction_count" % j: (k, 0), "N%d_count_ratio" % j: (pct(k, s.k1), .00101), "N%d_gft" % j: (mkt, .0051),
                            "N%d_gft_ratio" % j: (pct(mkt, s.opt), .00051)})
            if k:
                labels += ["nontrivial", a]
        check_row(row, columns, "row of stock %d and %d deals" % (i, n))
    return labels or ["no deals"]


def shuffled_run(case):
    """experiment_compare_sbb_shufled_stock: rows per stock and number of deals, and their averages."""
    recipe = tuple(case["recipe"])
    auctions, nums, its = case["auctions"], case["nums"], case["iterations"]
    logs = [[] for _ in auctions]
    prices = case["pools"]
    names = ["S%d" % i for i in range(len(prices))]
    with scratch() as path:
        stock_shuffled.experiment(path, [Watch(SINGLE[a], logs[j]) for j, a in enumerate(auctions)], ["N%d" % j for j in range(len(auctions))], recipe, its,
                                  list(nums), [list(p) for p in prices], list(names))
        rows = rows_of(path)
    R = sum(recipe)
    require(len(rows) == len(nums) * (len(prices) + 1), "{} rows for {} stocks and {} numbers of deals", len(rows), len(prices), len(nums))
    labels = []
    wants, markets = [], []
    for i, pool in enumerate(prices):
        for n in nums:
            at, m = 0, []
            for c, r in enumerate(recipe):
                m.append(sorted(int(p * (R - r if c == 0 else -recipe[0])) for p in pool[at:at + n * r]))
                at += n * r
            markets += [m] * its
            s = Single(m, recipe)
            want = {"optimalcount": s.k0, "optimalcountwithgftzero": s.k1, "optimalgft": s.opt}
            for j, a in enumerate(auctions):
                k, _, mkt = s.auction(SINGLE[a])
                want.update({"N%dauctioncount" % j: k, "N%dcountratio" % j: pct(k, s.k1), "N%dgft" % j: mkt, "N%dgftratio" % j: pct(mkt, s.opt)})
                labels += ["nontrivial", a] if k else []
            wants.append(want)
    for log in logs:
        require([[sorted(c) for c in m] for m in log] == markets, "an auction ran on the markets {} instead of {}", log, markets)
    at = 0
    for i in range(len(prices)):
        for n in nums:
            w = {c: (v, 1e-7) for c, v in wants[at].items()}
            check_row(rows[at], dict(w, stockname=names[i], recipe=":".join(map(str, recipe)), numpossibletrades=(n, 0)), "row of stock %d and %d deals" % (i, n))
            at += 1
    for b, n in enumerate(nums):
        group = wants[b::len(nums)]
        w = {c: (sum(F(g[c]) for g in group) / len(group), .00101 if "ratio" in c else .0501) for c in group[0]}
        check_row(rows[at + b], dict(w, stockname="Average", numpossibletrades=(n, 0)), "average row of %d deals" % n)
    return labels or ["no deals"]


def iterations_run(case):
    """experiment_compare_iterations_autions: averages over stocks and iterations, on shuffled prices or on random ones."""
    recipe = tuple(case["recipe"])
    auctions, nums, its = case["auctions"], case["nums"], case["iterations"]
    logs = [[] for _ in auctions]
    pools = case["pools"]
    random.seed(case["seed"])
    drawn = []
    stock = case["stock"]
    prefix = ["SBB" if case["sbb"] else "N"] * len(auctions)
    names = [p + str(j) for j, p in enumerate(prefix)]
    watched = [Watch(SINGLE[a], logs[j]) for j, a in enumerate(auctions)]
    with scratch() as path:
        with watching_random(drawn):
            stock_iterations.experiment(path, watched, names, recipe, list(nums), [list(p) for p in pools], ["S%d" % i for i in range(len(pools))],
                                        its, stock, case["report"])
        rows = rows_of(path)
        text = open(path).read()
        runs = [len(l) for l in logs]
        stock_iterations.experiment(path, watched, names, recipe, list(nums), [list(p) for p in pools], ["S%d" % i for i in range(len(pools))], its, stock, False)
        require(open(path).read() == text and [len(l) for l in logs] == runs, "results that exist already were computed again")
    R = sum(recipe)
    f = F(R - recipe[0], recipe[0])
    order = [(i, n) for i in range(len(pools)) for n in nums for _ in range(its)]
    require(len(rows) == len(nums), "{} rows for {} numbers of deals", len(rows), len(nums))
    for log in logs:
        require(log == logs[0], "the auctions ran on different markets")
    markets = logs[0]
    require(len(markets) == len(order), "the auctions ran {} times instead of {}", len(markets), len(order))
    for m, (i, n) in zip(markets, order):
        require([len(c) for c in m] == [n * r for r in recipe], "a market for {} deals of recipe {} has categories of {} agents", n, recipe, [len(c) for c in m])
        if stock:
            pool = list(pools[i])
            while len(pool) < max(nums) * R:     # too short lists are repeated
                pool = pool + pool
            sellers = [-v for c in m[1:] for v in c]
            require(submultiset(sellers, pool), "sellers' values {} are not prices of the stock", sellers)
            for v in sellers:
                pool.remove(v)
            buyers = [int(p * f) for p in pool]
            require(submultiset(m[0], buyers), "buyers' values {} are not {} times remaining prices of the stock {}", m[0], f, sorted(pool))
        else:
            require(all(f - .5 <= v <= 100000 * f + .5 for v in m[0]) and all(-100000 <= v <= -1 for c in m[1:] for v in c), "random values {} are out of range", m)
    if not stock:
        check_uniform(markets, [[(n * r, f if c == 0 else -100000, 100000 * f if c == 0 else -1) for c, r in enumerate(recipe)] for i, n in order])
    labels = ["stock prices" if stock else "random values"]
    figures = {n: [] for n in nums}
    for m, (i, n) in zip(markets, order):
        s = Single(m, recipe)
        row = {"optimalcount": s.k0, "optimalcountwithgftzero": s.k1, "optimalgft": s.opt, "optimalgftwithgftzero": s.opt,
               "gftratioformula": F((s.k0 - 1) * 100, s.k0 if set(recipe) == {1} else s.k0 + 1) if s.k0 > 1 else 0}
        for j, a in enumerate(auctions):
            k, total, mkt = s.auction(SINGLE[a])
            p = names[j]
            row.update({p + "count": k, p + "countratio": pct(k, s.k1) if s.k0 else 0, p + "totalgft": total, p + "totalgftratio": pct(total, s.opt),
                        p + "marketgft": mkt, p + "marketgftratio": pct(mkt, s.opt), p + "withoutgftzerocountratio": pct(k, s.k0),
                        p + "withoutgftzerototalgft": total, p + "withoutgftzerototalgftratio": pct(total, s.opt)})
            labels += ["nontrivial", a] if k else []
        figures[n].append(row)
    for b, n in enumerate(nums):
        cols = figures[n][0]
        want = {c: (sum(F(r[c]) for r in figures[n]) / len(figures[n]), .00101 if "gftratio" in c else .0101) for c in cols}
        check_row(rows[b], dict(want, iterations=str(its), stockname="Average", recipe=":".join(map(str, recipe)), numpossibletrades=(n, 0)), "row of %d deals" % n)
    return labels


def market_case(rng):
    n = rng.choice([2, 2, 3]) if rng.random() < .92 else rng.choice([4, 5])
    recipe = [1] * n if rng.random() < .4 else [rng.randint(1, 3) for _ in range(n)]
    return recipe, auctions_for(recipe)


def stock_values(rng, size, lo, hi):
    style = rng.random()
    if style < .2:
        hi = lo + rng.randint(0, 3)
    return [rng.randint(lo, hi) for _ in range(size)]


def per_stock_case(rng):
    recipe, auctions = market_case(rng)
    top = rng.choice([5, 1000, 10 ** 6])
    stocks = []
    for _ in range(rng.randint(1, 3) if rng.random() < .95 else rng.randint(4, 12)):
        most = 8 if rng.random() < .95 else 60
        stocks.append([stock_values(rng, rng.randint(0, most) * r + rng.choice([0, 0, 1]), *((0, top) if c == 0 else (-top, 0))) for c, r in enumerate(recipe)])
    return {"recipe": recipe, "auction": rng.choice(auctions), "stocks": stocks}


def without_case(rng):
    case = per_stock_case(rng)
    recipe = case["recipe"]
    case["auctions"] = rng.sample(auctions_for(recipe), rng.randint(1, len(auctions_for(recipe))))
    case["stocks"] = [[c + stock_values(rng, max(0, len(s[0]) * r - len(c)), -9, 9) for c, r in zip(s, recipe)] for s in case["stocks"]]
    case["nums"] = None if rng.random() < .15 else sorted(rng.sample(range(1, 20), rng.randint(1, 4)))
    if case["nums"] and rng.random() < .3 and sum(n > min(len(s[0]) for s in case["stocks"]) for n in case["nums"]) < 2:
        rng.shuffle(case["nums"])       # only the largest one may be beyond the prices
    return case


def pool_case(rng):
    recipe, auctions = market_case(rng)
    top = rng.choice([5, 100, 10 ** 5])
    nums = rng.sample(range(1, 7), rng.randint(1, 3)) if rng.random() < .94 else rng.sample(range(1, 12), rng.randint(4, 8)) if rng.random() < .5 else rng.sample(range(8, 40), 1)
    need = max(nums) * sum(recipe)
    few = max(nums) > 7
    pools = [stock_values(rng, need + rng.randint(0, 4), 0 if rng.random() < .3 else 1, top) for _ in range(rng.randint(1, 3) if few or rng.random() < .95 else rng.randint(4, 9))]
    return {"recipe": recipe, "auctions": rng.sample(auctions, rng.randint(1, len(auctions))), "nums": nums, "pools": pools,
            "iterations": rng.randint(1, 3) if few or rng.random() < .95 else rng.randint(4, 12)}


def iterations_case(rng):
    case = pool_case(rng)
    if rng.random() < .5:
        case["pools"] = [p[:rng.randint(1, len(p))] for p in case["pools"]]
    case.update(stock=rng.random() < .75, sbb=rng.random() < .5, report=rng.random() < .4, seed=rng.randint(0, 10 ** 9))
    return case


def digits_run(case):
    """The averages are printed in plain decimal notation, cut after a number of digits."""
    x, digits = case["x"], case["digits"]
    if not hasattr(stock_iterations, "padding_zeroes"):
        return ["not observed"]
    text = stock_iterations.padding_zeroes(x, digits)
    require(re.fullmatch(r"-?\d+\.\d{%d}" % digits, text), "the average {!r} is printed as {!r} with {} digits", x, text, digits)
    require(abs(F(text) - F(x)) <= F(1, 10 ** digits) + abs(F(x)) / 2 ** 52, "the average {!r} is printed as {!r}", x, text)
    return ["nontrivial", "small" if abs(x) < 1e-3 else "large" if abs(x) >= 1e15 else "ordinary"]


def digits_case(rng):
    style = rng.randint(0, 3)
    x = [lambda: rng.randint(-10 ** rng.randint(0, 18), 10 ** rng.randint(0, 18)), lambda: rng.uniform(-1, 1) * 10 ** rng.randint(-9, 20),
         lambda: rng.randint(-1000, 1000) / rng.choice([1, 2, 3, 7, 8, 100]), lambda: rng.randint(-9, 9) / rng.choice([10 ** 4, 10 ** 6, 3 * 10 ** 5])][style]()
    return {"x": x, "digits": rng.randint(1, 5)}


def tree_stock_run(case):
    kind, tree, counts = case["kind"], case["tree"], case["counts"]
    module = stock_rt if kind == "rt" else stock_ri
    nums, its, stocks = case["nums"], case["iterations"], case["stocks"]
    random.seed(case["seed"])
    markets = []
    with scratch() as path:
        with watching_auction(markets, module, "budget_balanced_ascending_auction", rt_protocol):
            module.experiment(path, tree, list(counts), [1] * len(counts), None if nums is None else list(nums), its, [[list(c) for c in s] for s in stocks],
                              ["S%d" % i for i in range(len(stocks))])
        rows = rows_of(path)
    if not markets:
        return ["not observed"]
    nums = [10 ** 7] if nums is None else nums
    require(len(rows) == len(nums), "{} rows for {} numbers of deals", len(rows), len(nums))
    order = [(i, n) for i in range(len(stocks)) for _ in range(its) for n in nums]
    require(len(markets) == len(order), "the auction ran {} times instead of {}", len(markets), len(order))
    figures = {n: [] for n in nums}
    labels = []
    for m, (i, n) in zip(markets, order):
        sizes = [len(c) for c in stocks[i]] if n > len(stocks[i][0]) else [int(n * counts[j]) for j in range(len(counts))]
        require([len(c) for c in m] == sizes, "a market for {} deals has categories of {} agents instead of {}", n, [len(c) for c in m], sizes)
        for c, s in zip(m, stocks[i]):
            require(submultiset(c, s), "values {} are not prices of the stock {}", c, s)
        figures[n].append(tree_figures("rt", m, tree[:2], None))
    for b, n in enumerate(nums):
        figs = figures[n]
        size = len(figs)
        k, opt, kmin, kmax, ak, g = (F(sum(f[j] for f in figs)) / size for j in range(6))
        ratio_k = sum(pct(f[4], f[0]) for f in figs) / size
        ratio_g = sum(pct(f[5], f[1]) for f in figs) / size
        check_row(rows[b], {
            "stockname": "Average", "numpossibletrades": (min(n, len(stocks[0][0])), 0), "optimalkmin": (kmin, 1e-7), "optimalkmax": (kmax, 1e-7),
            "gftformula": ((1 - 1 / kmin) * 100 if kmin > 1 else 0, 1e-7), "optimalcount": (k, 1e-7), "optimalgft": (opt, 1e-7), "auctioncount": (ak, 1e-7),
            "countratio": (ratio_k, 1e-7), "gft": (g, 1e-7), "gftratio": (ratio_g, 1e-7)}, "row of %d deals" % n)
        if ak:
            labels += ["nontrivial", kind, "auction loses a deal" if ak < k else "auction makes all deals"]
    return labels or ["no deals"]


def tree_stock_case(rng):
    tree, n = preorder(gen.tree_bulk(rng, max_nodes=6, max_depth=4)[0] if rng.random() < .95 else gen.tree_bulk(rng, max_nodes=11, max_depth=8)[0])
    counts = [1] + [rng.choice([1, 1, 2, .5, 1.5]) for _ in range(n - 1)]
    nums = sorted(rng.sample(range(1, 9), rng.randint(1, 3)) if rng.random() < .94 else rng.sample(range(1, 16), rng.randint(4, 8)) if rng.random() < .5 else rng.sample(range(9, 50), rng.randint(1, 2)))
    top = rng.choice([5, 100, 10 ** 5])
    room = nums[-1] if rng.random() < .5 else max(nums[-2] if len(nums) > 1 else 0, rng.randint(0, nums[-1]))
    stocks = []
    for _ in range(rng.randint(1, 3) if rng.random() < .95 else rng.randint(4, 9)):
        size = room + rng.randint(0, 2) if room == nums[-1] else room
        stocks.append([stock_values(rng, int(size * counts[c]) + 1 if c else size, *((0, top * n) if c == 0 else (-top, 0))) for c in range(n)])
    if rng.random() < .3:
        rng.shuffle(nums)       # only the largest one may be beyond the prices
    return {"kind": rng.choice(["rt", "ri"]), "tree": tree, "counts": counts, "nums": nums if rng.random() < .9 else None, "iterations": rng.randint(1, 3) if rng.random() < .95 else rng.randint(4, 12),
            "stocks": stocks, "seed": rng.randint(0, 10 ** 9)}


def fresh_run(case):
    """The prices are shuffled anew for every iteration: the markets of two iterations do not have the same prices, and no price is preferred."""
    kind, its, pools = case["kind"], case["iterations"], case["pools"]
    random.seed(case["seed"])
    markets = []
    with scratch() as path:
        names = ["S%d" % i for i in range(len(pools))]
        if kind == "vectors":
            recipe, n = case["recipe"], case["deals"]
            stock_iterations.experiment(path, [Watch(SINGLE["asc"], markets)], ["N0"], tuple(recipe), [n], [list(p[0]) for p in pools], names, its, True, False)
        else:
            module = stock_rt if kind == "rt" else stock_ri
            tree, n, size = case["tree"], case["deals"], len(pools[0])
            with watching_auction(markets, module, "budget_balanced_ascending_auction", rt_protocol):
                module.experiment(path, tree, [1] * size, [1] * size, [n], its, [[list(c) for c in p] for p in pools], names)
    if not markets:
        return ["not observed"]
    require(len(markets) == its * len(pools), "the auction ran {} times instead of {}", len(markets), its * len(pools))
    for i, pool in enumerate(pools):
        runs = markets[i * its:(i + 1) * its]
        if kind == "vectors":        # all categories of sellers use the same prices
            groups = [(sorted(-v for c in m[1:] for v in c), pool[0]) for m in runs], [(sorted(m[0]), None) for m in runs]
        else:
            groups = [[(sorted(m[c]), pool[c]) for m in runs] for c in range(len(pool))]
        for group in groups:
            seen = set()
            for values, _ in group:
                require(len(values) < 6 or tuple(values) not in seen, "the same {} prices were chosen in two iterations: {}", len(values), values)
                seen.add(tuple(values))
            prices = group[0][1]
            if prices is None:
                continue
            rank = {v: r for r, v in enumerate(sorted(prices))}
            ranks = [rank[v] for values, _ in group for v in values if v in rank]
            place = {v: r for r, v in enumerate(prices)}
            places = [place[v] for values, _ in group for v in values if v in place]
            N = len(prices)
            for which, xs in (("low or high", ranks), ("first or last", places)):
                if len(xs) >= 30:
                    mean = sum(xs) / len(xs)
                    require(abs(mean - (N - 1) / 2) <= 7 * N / math.sqrt(12 * len(xs)), "the {} prices are chosen too often: the average rank of {} chosen prices of {} is {}", which, len(xs), N, mean)
    return ["nontrivial", kind]


def fresh_case(rng):
    kind = rng.choice(["vectors", "rt", "ri"])
    size = 300
    case = {"kind": kind, "iterations": rng.randint(2, 8), "seed": rng.randint(0, 10 ** 9), "deals": rng.randint(6, 9)}
    if kind == "vectors":
        case["recipe"] = rng.choice([[1, 1], [1, 1, 1], [2, 1], [1, 2], [2, 2]])
        n = 1
    else:
        case["tree"], n = preorder(gen.tree_bulk(rng, max_nodes=4, max_depth=3)[0])
    pools = []
    for _ in range(rng.choice([1, 1, 2])):
        pools.append([[v if c == 0 else -v for v in rng.sample(range(1, 10 ** 6), size)] for c in range(n)])
        if rng.random() < .5:
            pools[-1] = [sorted(p) for p in pools[-1]]
    case["pools"] = pools
    return case


PROPERTIES = {
    "random-experiments": lambda: Property("random-experiments", "non-trivial: the auction made a deal in some iteration of the experiment", [
        Facet("one auction", one_auction_run, bulk=random_case, quick=2400, thorough=60000),
        Facet("two auctions", compare_run, bulk=compare_case, quick=2000, thorough=50000),
        Facet("recipe-trees", tree_random_run, bulk=tree_random_case, quick=2400, thorough=60000),
    ]),
    "stock-experiments": lambda: Property("stock-experiments", "non-trivial: an auction made a deal in some iteration of the experiment", [
        Facet("printed digits", digits_run, bulk=digits_case, quick=20000, thorough=400000),
        Facet("per stock", per_stock_run, bulk=per_stock_case, quick=800, thorough=40000),
        Facet("prefixes of the prices", without_run, bulk=without_case, quick=1000, thorough=40000),
        Facet("shuffled prices", shuffled_run, bulk=pool_case, quick=700, thorough=30000),
        Facet("averages over iterations", iterations_run, bulk=iterations_case, quick=900, thorough=40000),
        Facet("recipe-trees", tree_stock_run, bulk=tree_stock_case, quick=1300, thorough=50000),
        Facet("a new shuffle for every iteration", fresh_run, bulk=fresh_case, quick=300, thorough=15000),
    ]),
}
