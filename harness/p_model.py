"""Conformance of every mechanism to an independent reference model, in exact arithmetic."""
from fractions import Fraction as F
from core import Facet, Property, require
import gen, models
from adapt import SINGLE, run_asc, Outcome, market_of, run_tree, prices, prices_integer, quiet
import p_single
from p_single import used


def compare(name, o, want, which, slack=2e-6):
    k, agents, wprices = want
    require(o.k == k, "{}: {} deals instead of {}", name, o.k, k)
    if k == 0:
        return
    scale = 1 + max(abs(float(wprices[i])) for i in which)
    for i in which:
        require(sorted(o.values[i], reverse=True) == agents[i], "{}: the selected agents of category {} are {} instead of {}", name, i, o.values[i], [float(v) for v in agents[i]])
        require(abs(o.prices[i] - float(wprices[i])) <= 1e-12 * scale + slack, "{}: the price of category {} is {} instead of {}", name, i, o.prices[i], float(wprices[i]))


def labels_of(cats, recipe, want, o):
    labels = p_single.classify(cats, recipe, o.k, None)
    if o.k:
        labels.append("nontrivial")
        if any(len(o.values[i]) > o.k * recipe[i] for i in used(recipe)):
            labels.append("lottery")
    return labels


def model_run(variant, fn):
    def run(case):
        cats, recipe = case["cats"], case["recipe"]
        sh, given = gen.scaled(case)
        o = Outcome(SINGLE[variant](market_of(given), list(recipe)), len(cats))
        if sh != 1:   # an exact scaling (powers of two)
            o.values, o.prices = [[v / sh for v in c] for c in o.values], [q / sh for q in o.prices]
        want = fn(cats, recipe)
        compare(variant, o, want, used(recipe))
        return labels_of(cats, recipe, want, o)
    return run


mcafee_run = model_run("mcafee", lambda c, r: models.mcafee(c, True))
mcafee_plain_run = model_run("mcafee_plain", lambda c, r: models.mcafee(c, False))
tr_run = model_run("tr", lambda c, r: models.trade_reduction(c, r, True))
tr_strict_run = model_run("tr_strict", lambda c, r: models.trade_reduction(c, r, False))
asc_run = model_run("asc", lambda c, r: models.ascending(c, r))


def iterations_run(case):
    """However few iterations are left for the optimal trade that the auction logs for comparison, its outcome is the same."""
    cats, recipe = case["cats"], case["recipe"]
    o = Outcome(run_asc(market_of(cats), list(recipe), max_iterations=case["iterations"]), len(cats))
    want = models.ascending(cats, recipe)
    compare("asc with {} iterations".format(case["iterations"]), o, want, used(recipe))
    return labels_of(cats, recipe, want, o) + (["fewer iterations than deals"] if case["iterations"] < o.k else [])


def iterations_case(rng):
    return dict(p_single.bulk(rng.choice(["ones", "int"]), True)(rng), iterations=rng.choice([0, 1, 1, 2, 3, 5, 10]))


def both(a, b):
    return lambda case: a(case) + b(case)


def near_candidate(rng):
    """Bilateral and multi-lateral markets where McAfee's candidate price is close to the last deal's values."""
    case = gen.market_bulk(rng, [1] * rng.choice([2, 2, 2, 2, 3, 4]))
    if len(case["cats"]) == 2 and rng.random() < 0.6:
        b = 0
        case["cats"] = [[abs(v) for v in case["cats"][0]], [-abs(v) for v in case["cats"][1]]]
        if rng.random() < 0.5:
            case["cats"].reverse()
    return case


def single(run, quick, kinds, zeros, small, tiny=True):
    out = [Facet("bulk " + k, run, bulk=p_single.bulk(k, zeros and k == "int"), shrink=gen.shrink_market, quick=quick, thorough=quick * 30) for k in kinds]
    out.append(Facet("large", run, bulk=p_single.large(kinds[-1], zeros), shrink=gen.shrink_market, quick=quick // 16, thorough=quick))
    out.append(Facet("huge", run, bulk=p_single.huge(kinds[-1], zeros), shrink=p_single.shrink_huge, quick=64, thorough=2400))
    if tiny:
        out.append(Facet("tiny values", run, bulk=gen.tiny(p_single.bulk(kinds[-1], False)), shrink=gen.shrink_market, quick=quick // 5, thorough=quick * 5))
    if small is not None:
        out.append(Facet("small scope", run, enum=small, quick=3, thorough=5))
    return out


def small_ones(shard, shards, count):
    return (c for c in p_single.small_markets(shard, shards, count) if set(c["recipe"]) == {1})


# ---------------------------------------------------------------- trees

def tree_model_run(kind):
    module = prices if kind == "rt" else prices_integer

    def run(case):
        cats, tree, counts = case["cats"], case["tree"], case["counts"]
        n = len(cats)
        with quiet():
            t = run_tree(kind, market_of(cats), tree, counts)
        o = Outcome(t, n)
        recipes = [[(counts[i] if counts else 1) if i in p else 0 for i in range(n)] for p in models.paths_of(tree)]
        init = module.calculate_initial_prices(recipes, -10 ** 8)
        exact = all(float(p) == int(float(p) * 16) / 16 for p in init) and all(c in (1, 2, 4) for c in counts or [])
        labels = ["%d paths" % min(len(recipes), 5), "depth %d" % max(len(p) for p in models.paths_of(tree))]
        want = models.tree_auction(cats, tree, counts, init, None if exact else F(1, 10000))
        if want is None:
            return labels + ["two events at nearly the same rounded price (skipped)"]
        if not exact:
            labels.append("rounded prices")
        nodes = sorted({i for p in models.paths_of(tree) for i in p})
        compare(kind, o, want, nodes, 2e-6 if exact else 1e-5 if max(counts or [1]) <= 8 else 1e-4)     # the prices start at -10^8
        if o.k:
            labels.append("nontrivial")
            if len(recipes) > 1:
                labels.append("multi-path trade")
        else:
            labels.append("no deals")
        if any(not c for c in cats):
            labels.append("empty category")
        return labels
    return run


def tree_facets(kind, quick):
    run = tree_model_run(kind)
    ri = kind == "ri"
    return [
        Facet("bulk", run, bulk=lambda rng: gen.tree_market_bulk(rng, counts=ri, count_choices=(1, 1, 2, 4)), shrink=gen.shrink_tree, quick=quick, thorough=quick * 30),
        Facet("large", run, bulk=gen.tree_large_bulk(ri, count_choices=(1, 1, 2, 4)), shrink=gen.shrink_tree, quick=800, thorough=24000),
        Facet("bulk distinct", run, bulk=lambda rng: gen.tree_market_bulk(rng, counts=ri, count_choices=(1, 2), distinct=True), shrink=gen.shrink_tree, quick=quick // 2, thorough=quick * 15),
    ] + ([Facet("any counts", run, bulk=any_counts_case, shrink=gen.shrink_tree, quick=quick // 2, thorough=quick * 15)] if ri else [])


def any_counts_case(rng):
    if rng.random() < .04:
        return gen.tree_market_bulk(rng, max_nodes=5, max_units=5, counts=True, count_choices=(1, 2, 5, 10, 21, 25, 32, 64), distinct=True)
    return gen.tree_market_bulk(rng, counts=True, count_choices=(1, 1, 2, 3, 3, 4, 5, 6, 7), distinct=rng.random() < .8)


RULE = "non-trivial: at least one deal was made"
ASSUME = ["agents' values are integers or dyadic fractions (multiples of 2^-16) with |value|*sum(recipe) < 10^8, so that the code's float arithmetic is exact up to the final division"]

PROPERTIES = {
    "mcafee-conformance": lambda: Property("mcafee-conformance", RULE,
        [Facet("near candidate", both(mcafee_run, mcafee_plain_run), bulk=near_candidate, shrink=gen.shrink_market, quick=40000, thorough=1000000)]
        + single(both(mcafee_run, mcafee_plain_run), 20000, ["ones"], False, small_ones), ASSUME),
    "trade-reduction-conformance": lambda: Property("trade-reduction-conformance", RULE, single(both(tr_run, tr_strict_run), 30000, ["ones", "int"], True, p_single.small_markets), ASSUME),
    "ascending-conformance": lambda: Property("ascending-conformance", RULE, single(asc_run, 40000, ["ones", "int"], True, p_single.small_markets, tiny=False)
        + [Facet("few iterations", iterations_run, bulk=iterations_case, shrink=gen.shrink_market, quick=4000, thorough=120000)], ASSUME),
    "tree-auction-conformance": lambda: Property("tree-auction-conformance", RULE, tree_facets("rt", 12000), ASSUME + ["the initial prices are those of calculate_initial_prices, which the property simultaneous-prices covers"]),
    "integer-tree-auction-conformance": lambda: Property("integer-tree-auction-conformance", RULE, tree_facets("ri", 24000), ASSUME + ["where the agent counts are not powers of two, and so the prices are rounded, markets in which two events happen at nearly the same prices are skipped"]),
}
