"""Recipe-trees (ones and integer counts): structure, optimal trade, and the outcomes of the recipe-tree auctions."""
from core import Facet, Property, require
import gen, oracle, models
from adapt import (AgentCategory, Market, market_of, run_tree, Outcome, tolerance, submultiset, quiet, recipetree, recipetree_integer)
from oracle import F
from p_market import clone


def cats_of(cats):
    return [AgentCategory("c%d" % i, list(c)) for i, c in enumerate(cats)]


def build(kind, categories, tree, counts):
    if kind == "rt":
        return recipetree.RecipeTree(categories, clone(tree))
    return recipetree_integer.RecipeTree(categories, clone(tree), None if counts is None else list(counts))


def kinds_of(case):
    return ["rt", "ri"] if case["counts"] is None else ["ri"]


def tree_labels(case, k=None):
    paths = models.paths_of(case["tree"])
    out = ["%d paths" % min(5, len(paths)), "depth %d" % max(map(len, paths)), "integer counts" if case["counts"] else "ones"]
    if any(not c for c in case["cats"]):
        out.append("empty category")
    if k:
        out.append("nontrivial")
        if len(paths) > 1:
            out.append("multi-path trade")
    return out


# ------------------------------------------------------------------ structure

def clock(struct, sizes, counts):
    """(largest size, size of the node, chosen categories) by the documented rule of largest_categories"""
    i = struct[0]
    own = F(sizes[i]) / counts[i]
    kids = models.kids_of(struct)
    below = sum(-(-sizes[kid[0]] // counts[kid[0]]) for kid in kids)
    if own > below or below == 0:
        return own, own, [i]
    largest, chosen = F(0), []
    for kid in kids:
        a, _, c = clock(kid, sizes, counts)
        largest = max(largest, a)
        chosen += c
    return largest, own, chosen


def leaf_deals(struct, sizes, counts):
    if struct[1] is None:
        return [sizes[struct[0]] // counts[struct[0]]]
    return [x for kid in models.kids_of(struct) for x in leaf_deals(kid, sizes, counts)]


def structure_run(case):
    tree, cats, n = case["tree"], case["cats"], len(case["cats"])
    labels = tree_labels(case)
    paths = gen.tree_paths(tree)
    sizes = [len(c) for c in cats]
    for kind in kinds_of(case):
        counts = case["counts"] or [1] * n
        categories = cats_of(cats)
        t = build(kind, categories, tree, case["counts"])
        require([list(p) for p in t.paths_to_leaf(indices=True)] == paths, "{}: the paths of {} are {}", kind, tree, t.paths_to_leaf(indices=True))
        names = [["c%d" % i for i in p] for p in paths]
        require([list(p) for p in t.paths_to_leaf()] == names, "{}: the named paths of {} are {}", kind, tree, t.paths_to_leaf())
        want = [[counts[i] if i in p else 0 for i in range(n)] for p in paths]
        require([list(r) for r in t.recipes()] == want, "{}: the recipes of {} with counts {} are {}", kind, tree, counts, t.recipes())
        plain = build(kind, ["c%d" % i for i in range(n)], tree, case["counts"])     # a tree of names instead of categories
        require([list(p) for p in plain.paths_to_leaf()] == names and [list(p) for p in plain.paths_to_leaf(indices=True)] == paths and [list(r) for r in plain.recipes()] == want,
                "{}: the paths of a tree of names are {} and its recipes are {}", kind, plain.paths_to_leaf(), plain.recipes())
        cls = type(t)
        for p, r in zip(paths, want):
            require(list(cls.recipe_from_path(list(p), n, list(counts))) == r, "{}: recipe_from_path({}) is {}", kind, p, cls.recipe_from_path(list(p), n, list(counts)))
            require(list(cls.recipe_from_path(list(p), n)) == [1 if x else 0 for x in r], "{}: recipe_from_path({}) is {}", kind, p, cls.recipe_from_path(list(p), n))
        # the number of deals
        k = oracle.tree_capacity(tree, cats, counts)
        require(t.num_of_deals() == k, "{}: num_of_deals() is {} instead of {}", kind, t.num_of_deals(), k)
        prices = [100 + i for i in range(n)]
        ex = t.num_of_deals_explained(list(prices))
        require(ex[0] == k, "{}: num_of_deals_explained() is {} instead of {}", kind, ex[0], k)
        leaves = leaf_deals(tree, sizes, counts)
        pos = [x for x in leaves if x > 0] if (kind == "ri" and len(paths[0]) > 1) else leaves
        require((ex[2], ex[3]) == (min(pos) if pos else 0, max(leaves)), "{}: the numbers of deals of a leaf are {} but the reported minimum and maximum are {} {}", kind, leaves, ex[2], ex[3])
        # the clock categories
        largest, own, chosen = clock(tree, sizes, counts)
        got = t.largest_categories(indices=True)
        require(list(got[2]) == chosen, "{}: largest_categories of {} with sizes {} and counts {} is {} instead of {}", kind, tree, sizes, counts, got[2], chosen)
        require(abs(got[0] - float(largest)) < 1e-9 and abs(got[1] - float(own)) < 1e-9, "{}: largest_categories of {} with sizes {} and counts {} has sizes {} {} instead of {} {}", kind, tree, sizes, counts, got[0], got[1], float(largest), float(own))
        require(list(t.largest_categories()[2]) == ["c%d" % i for i in chosen], "{}: named largest_categories is {}", kind, t.largest_categories()[2])
        for p in paths:
            require(sum(1 for i in p if i in got[2]) == 1, "{}: the path {} contains not exactly one of {}", kind, p, got[2])
        require([list(c.values) for c in categories] == [sorted(c, reverse=True) for c in cats], "{}: queries changed the categories", kind)
        # the tree follows its categories as agents leave and enter
        now = [sorted(c, reverse=True) for c in cats]
        for q, v in case["moves"]:
            q %= n
            if v is not None:
                categories[q].append(v)
                now[q] = sorted(now[q] + [v], reverse=True)
            elif now[q]:
                categories[q].remove_lowest_agent()
                now[q] = now[q][:-1]
            k = oracle.tree_capacity(tree, now, counts)
            require(t.num_of_deals() == k, "{}: after agents left or entered num_of_deals() is {} instead of {}", kind, t.num_of_deals(), k)
            got, want = list(t.largest_categories(indices=True)[2]), clock(tree, [len(c) for c in now], counts)[2]
            require(got == want, "{}: after agents left or entered largest_categories is {} instead of {}", kind, got, want)
        if case["moves"]:
            ex = t.num_of_deals_explained(list(prices))
            require(ex[0] == k, "{}: after agents left or entered num_of_deals_explained() is {} instead of {}", kind, ex[0], k)
        if len(paths) > 1 or max(map(len, paths)) > 1:
            labels.append("nontrivial")
    return labels


def structure_bulk(rng):
    if rng.random() < .06:       # large agent counts
        case = gen.tree_market_bulk(rng, max_nodes=5, max_units=5, counts=True, count_choices=(1, 2, 7, 10, 21, 25, 30, 50, 64, 100))
    else:
        case = gen.tree_market_bulk(rng, max_nodes=9, counts=rng.random() < 0.6)
    case["moves"] = [[rng.randrange(14), None if rng.random() < .8 else rng.randint(-9, 9)] for _ in range(rng.choice([1, 1, 2, 5]))]
    return case


# ------------------------------------------------------------------ optimal trade

def flat(x):
    if isinstance(x, (list, tuple)):
        return [v for y in x for v in flat(y)]
    return [x]


def optimal_tree_run(case):
    tree, cats, counts = case["tree"], case["cats"], case["counts"]
    distinct = len({v for c in cats for v in c}) == sum(map(len, cats))
    OPT, k0, k1 = oracle.tree_optimum(tree, cats, counts)
    cnt = counts or [1] * len(cats)
    labels = tree_labels(case, k1)
    paths = gen.tree_paths(tree)
    for kind in kinds_of(case):
        categories = cats_of(cats)
        t = build(kind, categories, tree, counts)
        deals, count, gft = t.optimal_trade()
        require(count == k1 and len(deals) == k1, "{}: the optimal trade has {} deals (count {}) instead of {}", kind, len(deals), count, k1)
        require(F(gft) == OPT, "{}: the optimal trade has gain {} instead of {}", kind, gft, OPT)
        sums = [sum(F(v) for v in flat([d])) for d in deals]
        require(sum(sums) == OPT, "{}: the gains of the listed deals {} do not sum up to {}", kind, deals, OPT)
        require(all(s >= 0 for s in sums), "{}: a deal of the optimal trade has a negative gain: {}", kind, deals)
        require(F(t.optimal_trade_GFT()) == OPT, "{}: optimal_trade_GFT() is {} instead of {}", kind, t.optimal_trade_GFT(), OPT)
        result = t.optimal_trade_with_counters()
        require(len(result) == 5, "{}: optimal_trade_with_counters() returns {} elements", kind, len(result))
        deals2, count2, gft2, kmin, kmax = result
        require(count2 == k1 and len(deals2) == k1 and F(gft2) == OPT, "{}: optimal_trade_with_counters() has {} deals and gain {} instead of {} and {}", kind, count2, gft2, k1, OPT)
        require(sum(F(v) for d in deals2 for v in flat([d[0]])) == OPT, "{}: the deals of optimal_trade_with_counters() are {}", kind, deals2)
        if k1 == 0:
            require((kmin, kmax) == (0, 0), "{}: kmin={} kmax={} without deals", kind, kmin, kmax)
        else:
            require(1 <= kmin <= kmax <= k1 and kmin * len(paths) <= k1 * len(paths), "{}: kmin {} kmax {} of {} deals", kind, kmin, kmax, k1)
        if len(paths) == 1 and k1:
            require((kmin, kmax) == (k1, k1), "{}: kmin {} kmax {} of {} deals of a single path", kind, kmin, kmax, k1)
        # every deal consists of the right number of agents
        per_path = {sum(cnt[i] for i in p) for p in paths}
        require(all(len(flat([d])) in per_path for d in deals), "{}: a deal has a wrong number of agents: {}", kind, deals)
        require(submultiset([v for d in deals for v in flat([d])], [v for c in cats for v in c]), "{}: an agent appears in two deals: {}", kind, deals)
        all_deals = t.combined_values()
        require(len(all_deals) == oracle.tree_capacity(tree, cats, cnt), "{}: combined_values() has {} deals", kind, len(all_deals))
        got = [sum(F(v) for v in flat([d])) for d in all_deals]
        best = oracle.tree_best(tree, cats, counts)
        run = F(0)
        for j, g in enumerate(got):
            run += g
            if best[j + 1] is not None:
                require(run == best[j + 1], "{}: the best {} deals have gain {} instead of {}", kind, j + 1, run, best[j + 1])
        if distinct and k1:
            where = {v: i for i, c in enumerate(cats) for v in c}
            used = {}
            leaf = {}
            for d in deals:
                ids = [where[v] for v in flat([d])]
                i = 0
                path = []
                while i < len(ids):
                    path.append(ids[i])
                    require(all(x == ids[i] for x in ids[i:i + cnt[ids[i]]]) and len(ids[i:i + cnt[ids[i]]]) == cnt[ids[i]], "{}: the deal {} has the categories {}", kind, d, ids)
                    i += cnt[ids[i]]
                require(path in paths, "{}: the deal {} goes through {}, which is not a path of {}", kind, d, path, tree)
                leaf[path[-1]] = leaf.get(path[-1], 0) + 1
                for i in path:
                    used[i] = used.get(i, 0) + cnt[i]
            for i, m in used.items():
                mine = sorted([v for d in deals for v in flat([d]) if where[v] == i], reverse=True)
                require(mine == sorted(cats[i], reverse=True)[:m], "{}: the optimal trade uses {} and not the highest agents of category {}", kind, mine, i)
            value = oracle.tree_value_with_leaf_counts(tree, cats, counts, {p[-1]: leaf.get(p[-1], 0) for p in paths})
            require(value == OPT, "{}: the split {} of the optimal trade between the paths has gain {}", kind, leaf, value)
            require((kmin, kmax) == (min(leaf.values()), max(leaf.values())), "{}: the paths have {} deals but kmin={} kmax={}", kind, leaf, kmin, kmax)
            labels.append("paths identified")
            if len(leaf) > 1:
                labels.append("several paths in the optimal trade")
        require([sorted(c.values) for c in categories] == [sorted(c) for c in cats], "{}: computing the optimal trade changed the categories", kind)
        again = t.optimal_trade_with_counters()
        require((again[1], again[2], again[3], again[4]) == (count2, gft2, kmin, kmax), "{}: the optimal trade is {} at first and {} later", kind, result, again)
        # the same tree after some agents left
        if k1 and kind == "ri" or len(paths) > 1:
            now = [sorted(c, reverse=True) for c in cats]
            for i, c in enumerate(categories):
                if now[i] and (i + len(flat([deals]))) % 2:
                    c.remove_highest_agent()
                    now[i] = now[i][1:]
            want = oracle.tree_optimum(tree, now, counts)
            got = t.optimal_trade()
            require(got[1] == want[2] and F(got[2]) == want[0], "{}: after agents left, the optimal trade has {} deals and gain {} instead of {} and {}", kind, got[1], got[2], want[2], want[0])
            require(F(t.optimal_trade_GFT()) == want[0], "{}: after agents left, optimal_trade_GFT() is {} instead of {}", kind, t.optimal_trade_GFT(), want[0])
    return labels


# ------------------------------------------------------------------ outcome of the auctions

def tree_outcome(kind, cats, tree, counts):
    with quiet():
        t = run_tree(kind, market_of(cats), clone(tree), None if counts is None else list(counts))
    return t, Outcome(t, len(cats))


def tree_tol(o):
    return 1e-5 * (1 + max([abs(p) for p in o.prices] + [0]) / 1e6)


def nodes_of(tree):
    return sorted({i for p in gen.tree_paths(tree) for i in p})


def outcome_run(case):
    tree, cats, counts = case["tree"], case["cats"], case["counts"]
    cnt = counts or [1] * len(cats)
    labels = []
    for kind in kinds_of(case):
        t, o = tree_outcome(kind, cats, tree, counts)
        labels += tree_labels(case, o.k)
        for i in nodes_of(tree):
            require(submultiset(o.values[i], cats[i]), "{}: category {} trades {} but the agents are {}", kind, i, o.values[i], cats[i])
            require(sorted(o.values[i], reverse=True) == sorted(cats[i], reverse=True)[:len(o.values[i])], "{}: the selected agents {} of category {} are not its highest ones", kind, o.values[i], i)
        cap = oracle.tree_capacity(tree, o.values, cnt)
        require(o.k == cap, "{}: {} deals but the selected agents support {}", kind, o.k, cap)
        gft = oracle.tree_optimum(tree, o.values, counts)[0]
        require(abs(t.gain_from_trade() - float(gft)) <= 1e-9 * (1 + abs(float(gft))), "{}: the gain is {} instead of {}", kind, t.gain_from_trade(), gft)
        opt = oracle.tree_optimum(tree, cats, counts)
        require(t.gain_from_trade() <= float(opt[0]) + 1e-9 * (1 + float(opt[0])), "{}: the gain {} exceeds the optimum {}", kind, t.gain_from_trade(), opt[0])
        require(o.k <= opt[2], "{}: {} deals while the optimal trade has {}", kind, o.k, opt[2])
        if o.k == 0:
            require(t.gain_from_trade() == 0, "{}: no deals, but the gain is {}", kind, t.gain_from_trade())
            continue
        o.check_prices(nodes_of(tree))
        tol = tree_tol(o)
        for p in gen.tree_paths(tree):
            s = sum(o.prices[i] * cnt[i] for i in p)
            require(abs(s) <= tol, "{}: the price-sum of the path {} is {} ({})", kind, p, s, o.prices)
        for i in nodes_of(tree):
            if o.values[i]:
                require(min(o.values[i]) >= o.prices[i] - tol, "{}: an agent of category {} with value {} pays {}", kind, i, min(o.values[i]), o.prices[i])
    return labels


def bulk_tree(counts, **kw):
    return lambda rng: gen.tree_market_bulk(rng, counts=counts, **kw)


def mixed_tree(**kw):
    return lambda rng: gen.tree_market_bulk(rng, counts=rng.random() < 0.6, **kw)


# ------------------------------------------------------------------ truthfulness

def tree_truth_run(case):
    """A losing agent cannot enter at a price below its value; a winning agent cannot change its price while winning."""
    tree, cats, counts, i, j = case["tree"], case["cats"], case["counts"], case["category"], case["agent"]
    true = cats[i][j]
    labels = []
    for kind in kinds_of(case):
        _, o = tree_outcome(kind, cats, tree, counts)
        tol = tree_tol(o) * 2
        same = cats[i].count(true)
        sel = o.values[i].count(true) if o.k else 0
        for lie in case["lies"]:
            if lie == true:
                continue
            mod = [list(c) for c in cats]
            mod[i][j] = lie
            _, o2 = tree_outcome(kind, mod, tree, counts)
            sel2 = o2.values[i].count(lie) if o2.k else 0
            if o2.k and o.k:
                labels.append("nontrivial")
            if sel2 and true - o2.prices[i] > tol:
                # the liar may trade with a positive gain: then so would it by telling the truth, at the same price and with the same chances
                require(sel == same, "{}: an agent of category {} with value {} is excluded, and by reporting {} it trades at the price {}", kind, i, true, lie, o2.prices[i])
                require(abs(o2.prices[i] - o.prices[i]) <= tol, "{}: a trading agent of category {} with value {} changes its price from {} to {} by reporting {}", kind, i, true, o.prices[i], o2.prices[i], lie)
                require(o2.k == o.k and len(o2.values[i]) == len(o.values[i]), "{}: a trading agent of category {} with value {} changes the number of deals/selected agents from {}/{} to {}/{} by reporting {}",
                        kind, i, true, o.k, len(o.values[i]), o2.k, len(o2.values[i]), lie)
                labels.append("winning lie")
            elif o2.k and not sel and sel2:
                labels.append("losing agent enters at a loss")
            elif sel and not sel2:
                labels.append("winning agent leaves")
        require(not o.k or sel == 0 or true >= o.prices[i] - tol, "{}: a truthful agent of value {} pays {}", kind, true, o.prices[i])
    return labels


def tree_truth_bulk(counts):
    def f(rng):
        while True:
            if rng.random() < .02:
                case = gen.tree_large_bulk(counts)(rng)
            else:
                case = gen.tree_market_bulk(rng, max_nodes=6, counts=counts, max_units=7)
            live = [i for i in nodes_of(case["tree"]) if case["cats"][i]]
            if live:
                break
        i = rng.choice(live)
        c = case["cats"][i]
        j = rng.randrange(len(c))
        lies = []
        top = 2 * max(1, int(max(abs(v) for x in case["cats"] for v in x)))
        for _ in range(rng.randint(2, 4)):
            u = rng.random()
            lies.append(rng.choice(c) + rng.choice([-1, 0, 1]) if u < 0.5 else c[j] + rng.choice([-1, 1]) * rng.randint(1, 3 + int(abs(c[j])) // 3) if u < 0.8 else rng.choice([-1, 1]) * rng.randint(0, top))
        case.update(category=i, agent=j, lies=lies)
        return case
    return f


def shrink_tree_truth(case):
    if len(case["lies"]) > 1:
        for q in range(len(case["lies"])):
            yield dict(case, lies=[case["lies"][q]])
    for t in gen.prune_leaf(case["tree"]):
        if case["category"] in nodes_of(t):
            yield dict(case, tree=t)
    cats, i, j = case["cats"], case["category"], case["agent"]
    for q in range(len(cats)):
        for p in range(len(cats[q])):
            if (q, p) != (i, j):
                yield dict(case, cats=cats[:q] + [cats[q][:p] + cats[q][p + 1:]] + cats[q + 1:], agent=j - (q == i and p < j))


# ------------------------------------------------------------------ efficiency

def tree_efficiency_run(case):
    """The auction loses at most one deal per path; with recipes of ones its gain is at least (1-1/kmin) of the optimum, where
    kmin is the smallest number of deals of a path in the optimal trade."""
    tree, cats, counts = case["tree"], case["cats"], case["counts"]
    distinct = len({v for c in cats for v in c}) == sum(map(len, cats))
    OPT, k0, k1 = oracle.tree_optimum(tree, cats, counts)
    paths = gen.tree_paths(tree)
    labels = []
    for kind in kinds_of(case):
        t, o = tree_outcome(kind, cats, tree, counts)
        labels += tree_labels(case, k1) + ([] if distinct else ["ties"])
        require(k0 - len(paths) <= o.k <= k1, "{}: {} deals, while the optimal trade of {} paths has {} to {}", kind, o.k, len(paths), k0, k1)
        gft = t.gain_from_trade()
        slack = 1e-9 * (1 + float(OPT))
        if len(paths) == 1 and k1:
            require(o.k >= k0 - 1, "{}: {} deals, while the optimal trade of a single path has {}", kind, o.k, k0)
            require(gft >= float(OPT * (1 - F(1) / k1)) - slack or o.k == k1, "{}: gain {} with {} deals, while the optimum has gain {} with {} deals", kind, gft, o.k, OPT, k1)
        if len(paths) == 1 and k0 and set(counts or [1]) == {1}:
            require(gft >= float(OPT * (1 - F(1) / k0)) - slack, "{}: gain {} is less than (1-1/{}) of the optimum {}", kind, gft, k0, OPT)
        if kind == "rt" and k1 and distinct:
            best = build("rt", cats_of(cats), tree, None).optimal_trade_with_counters()
            kmin = best[3]
            require(gft >= float(OPT * (1 - F(1) / kmin)) - slack, "{}: gain {} is less than (1-1/{}) of the optimum {}", kind, gft, kmin, OPT)
            if kmin > 1:
                labels.append("kmin > 1")
    return labels


ASSUME = ["agents' values are integers far below 10^8 in absolute value"]
PROPERTIES = {
    "tree-structure": lambda: Property("tree-structure", "non-trivial: the tree has more than one node", [
        Facet("bulk", structure_run, bulk=structure_bulk, shrink=gen.shrink_tree, quick=16000, thorough=500000),
        Facet("large", structure_run, bulk=lambda rng: dict(gen.tree_large_bulk(.5)(rng), moves=[[rng.randrange(14), None]] * rng.choice([1, 5])), shrink=gen.shrink_tree, quick=300, thorough=9000),
    ]),
    "tree-optimal-trade": lambda: Property("tree-optimal-trade", "non-trivial: the optimal trade has at least one deal", [
        Facet("bulk", optimal_tree_run, bulk=mixed_tree(max_nodes=8), shrink=gen.shrink_tree, quick=9000, thorough=300000),
        Facet("bulk distinct", optimal_tree_run, bulk=mixed_tree(max_nodes=8, distinct=True), shrink=gen.shrink_tree, quick=9000, thorough=300000),
        Facet("large", optimal_tree_run, bulk=gen.tree_large_bulk(.5, distinct=True), shrink=gen.shrink_tree, quick=800, thorough=24000),
        Facet("guided", optimal_tree_run, strategy=gen.tree_market(counts=True), quick=1000, thorough=20000),
    ], ASSUME),
    "tree-auction-outcome": lambda: Property("tree-auction-outcome", "non-trivial: at least one deal", [
        Facet("bulk ones", outcome_run, bulk=bulk_tree(False), shrink=gen.shrink_tree, quick=7000, thorough=250000),
        Facet("bulk integer", outcome_run, bulk=bulk_tree(True), shrink=gen.shrink_tree, quick=14000, thorough=500000),
        Facet("large", outcome_run, bulk=gen.tree_large_bulk(.5), shrink=gen.shrink_tree, quick=800, thorough=24000),
        Facet("guided", outcome_run, strategy=gen.tree_market(counts=True), quick=1000, thorough=20000),
    ], ASSUME),
    "tree-truthfulness": lambda: Property("tree-truthfulness", "non-trivial: both the truthful report and a misreport lead to deals", [
        Facet("bulk ones", tree_truth_run, bulk=tree_truth_bulk(False), shrink=shrink_tree_truth, quick=3000, thorough=100000),
        Facet("bulk integer", tree_truth_run, bulk=tree_truth_bulk(True), shrink=shrink_tree_truth, quick=6000, thorough=200000),
    ], ASSUME + ["a single agent misreports; ties between equal reports are resolved in favour of the agent"]),
    "tree-efficiency": lambda: Property("tree-efficiency", "non-trivial: the optimal trade has at least one deal", [
        Facet("bulk ones", tree_efficiency_run, bulk=bulk_tree(False, distinct=True), shrink=gen.shrink_tree, quick=7000, thorough=250000),
        Facet("bulk integer", tree_efficiency_run, bulk=bulk_tree(True, distinct=True), shrink=gen.shrink_tree, quick=14000, thorough=500000),
        Facet("large", tree_efficiency_run, bulk=gen.tree_large_bulk(.5, distinct=True), shrink=gen.shrink_tree, quick=800, thorough=24000),
        Facet("ties", tree_efficiency_run, bulk=mixed_tree(), shrink=gen.shrink_tree, quick=14000, thorough=500000),
        Facet("chains with ties", tree_efficiency_run, bulk=mixed_tree(chain=True), shrink=gen.shrink_tree, quick=7000, thorough=250000),
        Facet("chains", tree_efficiency_run, bulk=mixed_tree(distinct=True, chain=True), shrink=gen.shrink_tree, quick=4000, thorough=100000),
    ], ASSUME),
}
