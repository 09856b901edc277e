"""The archived code: the auctions of the folder old/ (several categories of buyers with one of sellers, and several recipes of ones),
its simultaneous price-vectors, and the recipe-tree of recipetree.old.py."""
import contextlib, importlib.util, io, os, sys
from core import REPO, Facet, Property, require
import gen, models, oracle
from adapt import AgentCategory, Outcome, default_names, market_of, snapshot, quiet, submultiset, prices as prices_module
from oracle import F
from p_market import clone, expect_value_error
from p_prices import cut, shrink_ops
from p_tree import flat
with contextlib.redirect_stdout(io.StringIO()):
    import old.ascending_auction_multibuyer_protocol as mb_protocol
    import old.ascending_auction_multirecipe_protocol as mr_protocol
    import old.SimultaneousAscendingPriceVector as old_prices
    _spec = importlib.util.spec_from_file_location("recipetree_old", os.path.join(REPO, "recipetree.old.py"))
    old_tree = importlib.util.module_from_spec(_spec)
    _spec.loader.exec_module(old_tree)

TOL = 1e-5


def copy(recipes):
    return [list(r) for r in recipes]


def checked(run, cats, recipes):
    """The outcome of the auction, which changes neither the market nor the recipes and is the same when it is run again."""
    m, given = market_of(cats), copy(recipes)
    before = snapshot(m)
    with quiet():
        t = run(m, given)
    require(given == recipes, "the auction changed its recipes from {} to {}", recipes, given)
    require(snapshot(m) == before, "the auction changed the market from {} to {}", before, snapshot(m))
    o = Outcome(t, len(cats))
    with quiet():
        o2 = Outcome(run(m, copy(recipes)), len(cats))
    require((o.k, o.values, o.prices) == (o2.k, o2.values, o2.prices), "the second outcome {} {} {} differs from the first {} {} {}", o2.k, o2.values, o2.prices, o.k, o.values, o.prices)
    return t, o


def compare(o, k, left, prices, which):
    require(o.k == k, "{} deals instead of {}", o.k, k)
    if k == 0:
        return
    for i in which:
        require(o.values[i] == left[i], "the selected agents of category {} are {} instead of {}", i, o.values[i], [float(v) for v in left[i]])
        require(abs(o.prices[i] - float(prices[i])) <= TOL, "the price of category {} is {} instead of {}", i, o.prices[i], float(prices[i]))
        require(not o.values[i] or min(o.values[i]) >= o.prices[i] - TOL, "an agent of category {} with value {} pays {}", i, min(o.values[i] + [0]), o.prices[i])


# ---------------------------------------------------------------- several buyer categories

def multi_buyer_run(case):
    cats, counts = case["cats"], case["counts"]
    nb = len(counts)
    recipes = [[int(i == j) for j in range(nb)] + [counts[i]] for i in case["order"]]
    t, o = checked(mb_protocol.budget_balanced_ascending_auction, cats, recipes)
    k, left, prices = models.multi_buyer(cats, [c if i in case["order"] else 0 for i, c in enumerate(counts)])
    which = sorted(case["order"]) + [nb]
    compare(o, k, left, prices, which)
    require(t.gain_from_trade() == 0 if k == 0 else True, "no deals, but the gain is not 0")
    labels = ["%d buyer categories" % nb]
    if any(not c for c in cats):
        labels.append("empty category")
    if k == 0:
        require(repr(t) == "No trade", "no deals, but the trade is printed as {}", t)
        return labels + ["no deals"]
    labels.append("nontrivial")
    for i in case["order"]:
        require(abs(o.prices[i] + counts[i] * o.prices[nb]) <= TOL, "a buyer of category {} pays {} for {} units, of which a seller is paid {}", i, o.prices[i], counts[i], -o.prices[nb])
    demanded, offered = sum(len(left[i]) * counts[i] for i in case["order"]), len(left[nb])
    if demanded <= offered:
        lines = repr(t).split("\n")
        who = "all {}".format(offered) if offered == demanded else "random {} out of {}".format(demanded, offered)
        want = ["{}: {}: {} agents trade and pay {}".format(default_names(cats)[nb], o.values[nb], who, o.prices[nb])]
        want += ["{}: {}: all {} agents trade and pay {}".format(default_names(cats)[i], o.values[i], len(o.values[i]), o.prices[i]) for i in range(nb)]
        require(lines == want, "the outcome is printed as {} instead of {}", lines, want)
        labels.append("all sellers trade" if offered == demanded else "some sellers trade")
    else:
        labels.append("more units demanded than offered")
    bad = [[1] * (nb + 2)], [[1] * nb + [1]] if nb > 1 else [[2, 1]], [recipes[0], recipes[0]], [tuple(recipes[0])]
    m = market_of(cats)
    r = bad[case["bad"] % len(bad)]
    expect_value_error("the recipes {}".format(r), lambda: mb_protocol.budget_balanced_ascending_auction(m, r))
    return labels


def multi_buyer_case(rng):
    nb = rng.choice([1, 1, 2, 2, 3, 4])
    counts = [rng.choice([1, 1, 2, 3, 4, 5]) for _ in range(nb)]
    scale = rng.choice([3, 10, 100, 10000])
    units = rng.choice([2, 4, 8, 20])
    cats = [gen.values_bulk(rng, rng.randint(0 if rng.random() < .2 else 1, max(1, units // c)), *rng.choice([(0, scale * c)] * 3 + [(scale * c // 2, scale * c), (-scale, scale * c)]))
            if c not in (3, 5) else gen.values_bulk(rng, rng.randint(1, max(1, units // c)), *rng.choice([(0, scale), (scale // 2, scale), (-scale // 3, scale)])) for c in counts]
    # the value of a unit is an exact float
    cats = [[v * c for v in cat] if c in (3, 5) else cat for cat, c in zip(cats, counts)]
    cats.append(gen.values_bulk(rng, rng.randint(0 if rng.random() < .2 else 1, units * nb), -scale, 0))
    order = list(range(nb))
    rng.shuffle(order)
    if nb > 1 and rng.random() < .1:
        order.pop()
    return {"cats": cats, "counts": counts, "order": order, "bad": rng.randrange(4)}


# ---------------------------------------------------------------- several recipes

def multi_recipe_run(case):
    cats, recipes, n = case["cats"], case["recipes"], len(case["cats"])
    t, o = checked(mr_protocol.budget_balanced_ascending_auction, cats, recipes)

    def initial(rs):
        with quiet():
            return prices_module.SimultaneousAscendingPriceVectors(copy(rs), -10 ** 8).map_category_index_to_price()
    k, left, prices, active = models.multi_recipe(cats, recipes, initial)
    labels = ["%d recipes" % len(recipes)]
    which = [i for i in range(n) if any(r[i] for r in active)]
    compare(o, k, left, prices, which)
    if len(active) < len(recipes):
        labels.append("dropped recipe")
    if k == 0:
        require(repr(t) == "No trade" and t.gain_from_trade() == 0, "no deals, but the trade is printed as {}", t)
        return labels + ["no deals"]
    labels.append("nontrivial")
    for r in active:
        s = sum(o.prices[i] for i in range(n) if r[i])
        require(abs(s) <= TOL, "the price-sum of the recipe {} is {} ({})", r, s, o.prices)
    want = ["{}: {}: some of the {} agents trade and pay {}".format(default_names(cats)[i], o.values[i], len(o.values[i]), o.prices[i]) for i in which]
    require(repr(t).split("\n") == want, "the outcome is printed as {} instead of {}", t, want)
    m = market_of(cats)
    bad = [], [recipes[0] + [1]], [[2 * x for x in recipes[0]]]
    r = bad[case["bad"] % len(bad)]
    expect_value_error("the recipes {}".format(r), lambda: mr_protocol.budget_balanced_ascending_auction(m, r))
    return labels


def multi_recipe_case(rng):
    nr = rng.choice([1, 2, 2, 2, 3])
    common = rng.choice([0, 1, 1, 1, 2]) if nr > 1 else 0
    unique = [rng.choice([1, 1, 2]) for _ in range(nr)]
    if common + sum(unique) > 7:      # at most 8 categories
        unique = [1] * nr
    n = common + sum(unique) + (rng.random() < .15)
    idx = list(range(n))
    rng.shuffle(idx)
    recipes, at = [], common
    for u in unique:
        recipes.append([int(c in idx[:common] + idx[at:at + u]) for c in range(n)])
        at += u
    scale = rng.choice([3, 10, 100, 10000])
    units = rng.choice([1, 3, 6, 12])
    cats = [gen.values_bulk(rng, rng.randint(0 if rng.random() < .2 else units // 2, units + 2), -scale, 0) for _ in range(n)]
    buyers = idx[:1] if common else [next(i for i in idx if r[i]) for r in recipes]
    for i in buyers:
        cats[i] = gen.values_bulk(rng, rng.randint(0 if rng.random() < .1 else 1, units * (nr if common else 1) + 2), 0, scale * (common + max(unique) - 1 or 1))
    return {"cats": cats, "recipes": recipes, "bad": rng.randrange(3)}


def partly_common_run(case):
    """A category which is in several recipes but not in all of them is rejected."""
    m = market_of(case["cats"])
    before = snapshot(m)
    expect_value_error("the recipes {}".format(case["recipes"]), lambda: mr_protocol.budget_balanced_ascending_auction(m, case["recipes"]))
    require(snapshot(m) == before, "a rejected auction changed the market")
    return ["nontrivial", "%d recipes" % len(case["recipes"])]


def partly_common_case(rng):
    nr = rng.choice([3, 3, 4, 5])
    common = rng.choice([0, 1, 1])
    k = rng.randint(2, nr - 1)
    members = rng.sample(range(nr), k)
    n = common + 1 + nr
    idx = list(range(n))
    rng.shuffle(idx)
    recipes = [[0] * n for _ in range(nr)]
    for j, r in enumerate(recipes):
        for c in range(common):
            r[idx[c]] = 1
        if j in members:
            r[idx[common]] = 1
        r[idx[common + 1 + j]] = 1
    units = rng.choice([1, 3, 6])
    small = rng.random() < .5       # the category is never the largest one
    cats = [gen.values_bulk(rng, 0 if small and i == idx[common] else rng.randint(units // 2, units + 2), *((0, 100) if common and i == idx[0] else (-10, 0))) for i in range(n)]
    return {"cats": cats, "recipes": recipes}


def malform(rng, recipes, counts=None):
    """The recipes with one fault, and its name; counts: of the multi-buyer auction, otherwise of the multi-recipe auction."""
    bad = copy(recipes)
    j = rng.randrange(len(bad))
    r = bad[j]
    kind = rng.choice(["longer", "longer", "shorter", "entry", "entry", "empty" if counts is None else "tuple", "all longer"] + ([] if counts is None else ["two buyers", "same buyer"]))
    n = len(r)
    if kind == "longer":
        r.insert(rng.randint(0, n if counts is None else n - 1), 0)
    elif kind == "all longer":
        at = rng.randint(0, n if counts is None else n - 1)
        for x in bad:
            x.insert(at, 0)
    elif kind == "shorter":
        zeros = [i for i in range(n if counts is None else n - 1) if not r[i]]
        r.pop(rng.choice(zeros) if zeros else 0)
    elif kind == "entry":
        i = rng.choice([i for i in range(n if counts is None else n - 1) if r[i]])
        r[i] = rng.choice([2, 3, -1, 0.5])
    elif kind == "empty":
        bad = []
    elif kind == "tuple":
        bad[j] = tuple(r)
    elif kind == "same buyer" or n < 3:
        kind = "same buyer"
        bad.append(r[:-1] + [rng.choice([1, 2, r[-1]])])
    else:
        i = rng.choice([i for i in range(n - 1) if not r[i]])
        r[i] = 1
    return kind, bad


def malformed_run(case):
    """Recipes with a single fault are rejected, without changes to the market."""
    m, given = market_of(case["cats"]), [tuple(r) if case["kind"] == "tuple" and j == case["at"] else list(r) for j, r in enumerate(case["recipes"])]
    before, recipes = snapshot(m), repr(given)
    protocol = mb_protocol if case["counts"] else mr_protocol
    expect_value_error("the recipes {}".format(given), lambda: protocol.budget_balanced_ascending_auction(m, given))
    require(snapshot(m) == before, "a rejected auction changed the market from {} to {}", before, snapshot(m))
    require(repr(given) == recipes, "a rejected auction changed the recipes from {} to {}", recipes, given)
    return ["nontrivial", "{}: {}".format("several buyer categories" if case["counts"] else "several recipes", case["kind"])]


def malformed_case(rng):
    case = multi_buyer_case(rng) if rng.random() < .5 else multi_recipe_case(rng)
    counts = case.get("counts")
    recipes = case["recipes"] if counts is None else [[int(i == j) for j in range(len(counts))] + [counts[i]] for i in case["order"]]
    kind, bad = malform(rng, recipes, counts)
    at = next((j for j, r in enumerate(bad) if isinstance(r, tuple)), -1)
    return {"cats": case["cats"], "counts": counts, "recipes": [list(r) for r in bad], "kind": kind, "at": at}


# ---------------------------------------------------------------- price-vectors of several recipes

def old_vectors_case(rng):
    tree, n = gen.tree_bulk(rng, 8)
    extra = 1 if rng.random() < 0.2 else 0
    # of ones, or integer weights, for which the linear program is solved reliably only for smaller sums
    weights = [1] * (n + extra)
    start = rng.choice([-10, -1000, -10 ** 8])
    if rng.random() < .3:
        weights, start = [rng.choice([1, 1, 1, 2]) for _ in weights], rng.choice([-10, -1000])
    ops = []
    for _ in range(rng.randint(1, 8)):
        c = cut(rng, tree)
        ops.append([[i, rng.choice([0.0, 0.25, 0.5, 0.5, 1.0, 1.0, 1.5, rng.random()])] for i in c])
    return {"tree": tree, "n": n + extra, "weights": weights, "start": start, "ops": ops, "grain": rng.choice([1, 1, 1, 4, 256, 4096, 65536]), "near": rng.choice([0, 0, 0, 1, 2, 3]), "longer": rng.randrange(8)}


def root_slack(struct, slack):
    """the smallest total by which the prices of a tree (of weights one) are below the highest price, when they are by slack[leaf] on the path to each leaf"""
    leaves = [p[-1] for p in gen.tree_paths(struct)]
    mine = min(slack[i] for i in leaves)
    if struct[1] is None:
        return mine
    rest = dict(slack)
    for i in leaves:
        rest[i] -= mine
    return mine + sum(root_slack(kid, rest) for kid in models.kids_of(struct))


def old_vectors_run(case):
    n, weights, start, tree = case["n"], case["weights"], case["start"], case["tree"]
    paths = gen.tree_paths(tree)
    recipes = [[weights[i] if i in p else 0 for i in range(n)] for p in paths]
    nodes = sorted({i for p in paths for i in p})
    given = copy(recipes)
    labels = ["%d recipes" % min(5, len(recipes))]
    if max(sum(r) for r in recipes) > n:
        with quiet():
            expect_value_error("the recipes {}, whose prices cannot sum up to {}".format(recipes, start), lambda: old_prices.SimultaneousAscendingPriceVectors(given, start))
        return labels + ["infeasible"]
    with quiet():
        init = old_prices.calculate_initial_prices(copy(recipes), start)
        pv = old_prices.SimultaneousAscendingPriceVectors(given, start)
    require(given == recipes, "the recipes were changed to {}", given)
    longer = copy(recipes)
    longer[case.get("longer", 0) % len(recipes)].append(0)
    for bad in [[]] + ([longer] if len(recipes) > 1 else []):
        with quiet():
            expect_value_error("the recipes {}".format(bad), lambda: old_prices.SimultaneousAscendingPriceVectors(bad, start))
    tol = 1e-9 + 1e-12 * abs(start) * max(sum(r) for r in recipes)
    high = start / n

    def sums(p):
        return [sum(x * w for x, w in zip(p, r) if w) for r in recipes]

    def state():
        p = list(pv.map_category_index_to_price())
        require(len(p) == n and all((p[i] is None) == (i not in nodes) for i in range(n)), "the prices are {} for the recipes {}", p, recipes)
        for j, r in enumerate(recipes):
            require(all(abs(pv[j][i] - p[i]) <= tol for i in range(n) if r[i]), "the prices of recipe {} are {} instead of {}", j, pv[j], p)
        return p
    require(len(init) == n and max(init) <= high + tol, "the initial prices are {}, not all at most {}", init, high)
    require(all(abs(s - start) <= tol for s in sums(init)), "the initial price-sums are {} instead of {}", sums(init), start)
    if all(w == 1 for w in weights):
        total = n * high - root_slack(tree, {p[-1]: len(p) * high - start for p in paths})
        require(abs(sum(init) - total) <= tol * n, "the total of the initial prices {} is not the highest one {}", init, total)
    now = state()
    require(all(abs(now[i] - init[i]) <= tol for i in nodes), "the initial prices are {} and not {}", now, init)
    require(pv.status is None, "the initial status is {}", pv.status)
    with quiet():
        expect_value_error("an increase too many", lambda: pv.increase_prices([(nodes[0], 1, "x")] * (len(recipes) + 1)))
    require(state() == now, "a rejected increase changed the prices")
    exact = lambda: all(x is None or (x * 2 ** 20) % 1 == 0 for x in now)
    inexact = not exact()
    for op in case["ops"]:
        now, total = state(), pv.price_sum()
        require(abs(total - sums([x or 0 for x in now])[0]) <= tol, "price_sum() is {} for {}", total, now)
        if total > -10 * tol and inexact:
            break
        g = case["grain"]
        targets = {i: float(round((now[i] + abs(total or 10) * frac / weights[i]) * g) / g) for i, frac in op}
        if case["near"] and total:      # one of the targets is reached just before (or after, or when) the sum is zero
            i = op[0][0]
            targets[i] = float(round((now[i] - total / weights[i]) * g) + case["near"] - 2) / g
        if any(t < now[i] for i, t in targets.items()):
            continue
        increases = [next((i, targets[i], "c%d" % i) for i in targets if i in p) for p in paths]
        step = min((targets[i] - now[i]) * weights[i] for i in targets)
        if inexact and abs(step + total) <= 10 * tol:
            break      # too close to decide in floating point
        with quiet():
            pv.increase_prices(list(increases))
        inexact = inexact or any(w not in (1, 2) for w in weights) or not exact()
        hit = step >= -total
        step = min(step, -total)
        after = state()
        for i in nodes:
            want = now[i] + (step / weights[i] if i in targets else 0)
            require(abs(after[i] - want) <= tol, "increasing {} from {}: the price of category {} is {} instead of {}", increases, now, i, after[i], want)
        s = sums([x or 0 for x in after])
        require(max(s) - min(s) <= tol and max(s) <= tol, "the price-sums are {} after increasing {} from {}", s, increases, now)
        require(not hit or max(map(abs, s)) <= tol, "the price-sums are {} instead of 0", s)
        want = old_prices.PriceStatus.STOPPED_AT_ZERO_SUM if hit else old_prices.PriceStatus.STOPPED_AT_AGENT_VALUE
        require(pv.status == want, "the status is {} instead of {}", pv.status, want)
        require(str(pv) == "{} {}".format([str(pv[j].prices) for j in range(len(recipes))], pv.status), "printed as {}", pv)
        labels += ["nontrivial", "sum zero" if hit else "a target"]
    return labels


# ---------------------------------------------------------------- recipe-tree

def old_clock(struct, sizes):
    """(size of the largest chosen category, number of deals, chosen categories): the children's categories, unless all of their deals are fewer than the agents of their parent"""
    kids = models.kids_of(struct)
    own = sizes[struct[0]]
    if not kids:
        return own, own, [struct[0]]
    below = [old_clock(kid, sizes) for kid in kids]
    offered = sum(b[1] for b in below)
    if offered >= own:
        return max(b[0] for b in below), own, [i for b in below for i in b[2]]
    return own, offered, [struct[0]]


def old_explained(struct, sizes, prices):
    """the number of deals and their explanation"""
    own, price = sizes[struct[0]], prices[struct[0]]
    kids = models.kids_of(struct)
    if not kids:
        return own, "c{0}: {1} potential deals, price={2}\n{1} deals overall\n".format(struct[0], own, price)
    below = [old_explained(kid, sizes, prices) for kid in kids]
    offered = sum(b[0] for b in below)
    k = min(own, offered)
    some = lambda n: "all {}".format(n) if n == k else "{} out of {}".format(k, n)
    text = "".join(b[1] for b in below) + "c{}: {} traders selected, price={}\n".format(struct[0], some(own), price)
    return k, text + "{}: {} traders selected\n{} deals overall\n".format(" + ".join("c%d" % kid[0] for kid in kids), some(offered), k)


def old_tree_run(case):
    tree, cats, n = case["tree"], case["cats"], len(case["cats"])
    paths = gen.tree_paths(tree)
    sizes = [len(c) for c in cats]
    categories = [AgentCategory("c%d" % i, list(c)) for i, c in enumerate(cats)]
    given = clone(tree)
    t = old_tree.RecipeTree(categories, given)
    require(given == tree, "the list of the tree was changed to {}", given)
    require([list(p) for p in t.paths_to_leaf(indices=True)] == paths, "the paths of {} are {}", tree, t.paths_to_leaf(indices=True))
    names = [["c%d" % i for i in p] for p in paths]
    require([list(p) for p in t.paths_to_leaf()] == names, "the named paths of {} are {}", tree, t.paths_to_leaf())
    recipes = [[int(i in p) for i in range(n)] for p in paths]
    require([list(r) for r in t.recipes()] == recipes, "the recipes of {} are {}", tree, t.recipes())
    k = oracle.tree_capacity(tree, cats)
    require(t.num_of_deals() == k, "num_of_deals() is {} instead of {}", t.num_of_deals(), k)
    prices = [100 + i for i in range(n)]
    got = t.num_of_deals_explained(list(prices))
    require(got[0] == k, "num_of_deals_explained() is {} instead of {}", got[0], k)
    want = old_explained(tree, sizes, prices)[1]
    require(got[1] == want, "the explanation of the deals in {} with sizes {} is {!r} instead of {!r}", tree, sizes, got[1], want)
    require(k == oracle.tree_capacity(tree, cats) == old_explained(tree, sizes, prices)[0], "the explained number of deals is not {}", k)
    for odd in (clone(tree)[:1], clone(tree) + [n - 1], [clone(tree)[0], (clone(tree)[1] or []) + [n - 1]]):
        expect_value_error("a recipe-tree from the odd list {}".format(odd), lambda: old_tree.RecipeTree(categories, odd))
    largest, deals, chosen = old_clock(tree, sizes)
    got = t.largest_categories(indices=True)
    require((got[0], got[1], list(got[2])) == (largest, deals, chosen), "the largest categories of {} with sizes {} are {} instead of {}", tree, sizes, got, (largest, deals, chosen))
    require(list(t.largest_categories()[2]) == ["c%d" % i for i in chosen], "the named largest categories are {}", t.largest_categories()[2])
    # the optimal trade; deals without gain are not part of it
    OPT, k0, _ = oracle.tree_optimum(tree, cats, None)
    sums = [F(v) for v in t.combined_values()]
    detailed = [[F(v) for v in flat([d])] for d in t.combined_values_detailed()]
    require(len(sums) == k and sums == sorted(sums, reverse=True), "the combined values of {} deals are {}", k, [float(v) for v in sums])
    require(sorted(map(sum, detailed)) == sorted(sums), "the detailed combined values {} have other gains than {}", t.combined_values_detailed(), t.combined_values())
    best = oracle.tree_best(tree, cats, None)
    for j in range(k):
        require(best[j + 1] is None or sum(sums[:j + 1]) == best[j + 1], "the best {} deals have gain {} instead of {}", j + 1, float(sum(sums[:j + 1])), best[j + 1])
    require(F(t.optimal_trade_GFT()) == OPT, "optimal_trade_GFT() is {} instead of {}", t.optimal_trade_GFT(), OPT)
    listed, count, gain = t.optimal_trade()
    require((count, len(listed)) == (k0, k0) and F(gain) == OPT, "the optimal trade has {} deals of gain {} instead of {} deals of gain {}", count, gain, k0, OPT)
    deals = [[F(v) for v in flat([d])] for d in listed]
    require(all(sum(d) > 0 for d in deals) and sum(map(sum, deals)) == OPT, "the deals of the optimal trade are {}", listed)
    require(all(len(d) in {len(p) for p in paths} for d in deals) and submultiset([v for d in deals for v in d], [F(v) for c in cats for v in c]), "the deals {} do not consist of agents of {}", listed, cats)
    require([list(c.values) for c in categories] == [sorted(c, reverse=True) for c in cats], "queries changed the categories")
    return ["%d paths" % min(5, len(paths))] + (["nontrivial"] if k0 else []) + (["single category"] if len(paths[0]) == len(paths) == 1 else [])


def old_tree_case(rng):
    case = gen.tree_market_bulk(rng, max_nodes=9)
    return dict(case, counts=None)


def shrink_values(case):
    for new in gen.shrink_values(case["cats"]):
        yield dict(case, cats=new)


PROPERTIES = {
    "archived-auctions": lambda: Property("archived-auctions", "non-trivial: at least one deal", [
        Facet("several buyer categories", multi_buyer_run, bulk=multi_buyer_case, shrink=shrink_values, quick=24000, thorough=700000),
        Facet("partly common categories", partly_common_run, bulk=partly_common_case, shrink=shrink_values, quick=1000, thorough=30000),
        Facet("malformed recipes", malformed_run, bulk=malformed_case, shrink=shrink_values, quick=4000, thorough=100000),
        Facet("several recipes", multi_recipe_run, bulk=multi_recipe_case, shrink=shrink_values, quick=16000, thorough=500000),
    ], ["a buyer's value divided by its units is an exact float; at most 8 categories (the categories of a recipe are then examined in order of their index)", "the initial prices of several recipes are those of calculate_initial_prices, which the property simultaneous-prices covers"]),
    "archived-prices": lambda: Property("archived-prices", "non-trivial: some prices increased", [
        Facet("price-vectors of several recipes", old_vectors_run, bulk=old_vectors_case, shrink=shrink_ops, quick=6000, thorough=150000),
    ], ["the recipes are the root-to-leaf paths of a tree; each increase is of one category per recipe, none of which is in another recipe that increases a different one"]),
    "archived-tree": lambda: Property("archived-tree", "non-trivial: the optimal trade has a deal", [
        Facet("recipe-trees", old_tree_run, bulk=old_tree_case, shrink=gen.shrink_tree, quick=20000, thorough=600000),
    ]),
}
