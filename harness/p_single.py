"""Properties of the single-recipe mechanisms (McAfee, trade reduction, ascending auction), stated on their outcomes."""
import itertools, random
from core import Facet, Property, require
import gen, oracle
from adapt import SINGLE, Outcome, market_of, tolerance, submultiset
from oracle import F

# variants and the recipes for which their guarantees are claimed
ONES_ONLY = ("mcafee_plain",)          # any vector of ones
BILATERAL = ("mcafee",)                # [1,1]


def variants_for(recipe):
    out = ["tr", "tr_strict", "asc"]
    if all(r == 1 for r in recipe):
        out.append("mcafee_plain")
        if len(recipe) == 2:
            out.append("mcafee")
    return out


def run(variant, cats, recipe):
    return Outcome(SINGLE[variant](market_of(cats), list(recipe)), len(cats))


def used(recipe):
    return [i for i, r in enumerate(recipe) if r > 0]


def classify(cats, recipe, k, opt):
    labels = ["ones" if set(recipe) == {1} else "integer recipe", "%d categories" % min(len(cats), 5)]
    if 0 in recipe:
        labels.append("zero in recipe")
    if any(not c for c in cats):
        labels.append("empty category")
    if any(len(set(c)) < len(c) for c in cats):
        labels.append("ties")
    labels.append("deals" if k else "no deals")
    if opt is not None and opt[2] > k:
        labels.append("reduced")
    if sum(map(len, cats)) > 60:
        labels.append("large")
    return labels


# ------------------------------------------------------------------ budget balance

def budget_run(case):
    cats, recipe = case["cats"], case["recipe"]
    labels = []
    for variant in variants_for(recipe):
        t = SINGLE[variant](market_of(cats), list(recipe))
        o = Outcome(t, len(cats))
        labels += classify(cats, recipe, o.k, None)
        if o.k == 0:
            require(t.gain_from_trade() == 0 and t.gain_from_trade(including_auctioneer=False) == 0, "{}: no deal, but the gain is not zero", variant)
            continue
        labels.append("nontrivial")
        o.check_prices(used(recipe))
        s = sum(o.prices[i] * recipe[i] for i in used(recipe))
        tol = tolerance(o.prices)
        if variant.startswith("mcafee"):
            require(s >= -tol, "{}: deficit: sum of prices of a deal is {} ({})", variant, s, o.prices)
            if s > tol:
                labels.append("surplus")
        else:
            require(abs(s) <= tol, "{}: sum of prices of a deal is {} instead of 0 ({})", variant, s, o.prices)
        surplus = t.gain_from_trade() - t.gain_from_trade(including_auctioneer=False)
        require(abs(surplus - s * o.k) <= tol * (1 + o.k), "{}: total gain exceeds the traders' gain by {} but the auctioneer collects {}", variant, surplus, s * o.k)
    return labels


# ------------------------------------------------------------------ individual rationality and feasibility

def rational_run(case):
    cats, recipe = case["cats"], case["recipe"]
    labels = []
    for variant in variants_for(recipe):
        o = run(variant, cats, recipe)
        labels += classify(cats, recipe, o.k, None)
        for i in used(recipe):
            traders = o.values[i]
            require(submultiset(traders, cats[i]), "{}: category {} trades {} but the agents are {}", variant, i, traders, cats[i])
            top = sorted(cats[i], reverse=True)[:len(traders)]
            require(sorted(traders, reverse=True) == top, "{}: the traders of category {} are {} and not its highest agents {}", variant, i, traders, top)
            require(len(traders) >= o.k * recipe[i], "{}: {} deals need {} agents of category {} but only {} are selected", variant, o.k, o.k * recipe[i], i, len(traders))
        if o.k == 0:
            continue
        labels.append("nontrivial")
        o.check_prices(used(recipe))
        tol = tolerance(o.prices)
        for i in used(recipe):
            require(min(o.values[i]) >= o.prices[i] - tol, "{}: an agent of category {} with value {} pays {}", variant, i, min(o.values[i]), o.prices[i])
        require(any(len(o.values[i]) < (o.k + 1) * recipe[i] for i in used(recipe)), "{}: the selected agents support more than {} deals", variant, o.k)
    return labels


# ------------------------------------------------------------------ efficiency

def efficiency_run(case):
    cats, recipe = case["cats"], case["recipe"]
    opt = oracle.optimal_single(cats, recipe)
    OPT, k0, k1 = opt
    labels = []
    for variant in variants_for(recipe):
        t = SINGLE[variant](market_of(cats), list(recipe))
        o = Outcome(t, len(cats))
        labels += classify(cats, recipe, o.k, opt)
        if k1 > 0:
            labels.append("nontrivial")
        require(k0 - 1 <= o.k <= k1, "{}: {} deals, while the optimal trade has between {} and {} deals", variant, o.k, k0, k1)
        gft = t.gain_from_trade()
        tol = 1e-9 * (1 + abs(float(OPT))) + 1e-13 * sum(abs(v) for c in cats for v in c)
        require(gft <= float(OPT) + tol, "{}: gain {} exceeds the optimum {}", variant, gft, OPT)
        for k in {k0} if variant == "tr_strict" else {k0, k1}:
            if k > 0:
                require(gft >= float(OPT * (1 - F(1) / k)) - tol, "{}: gain {} is less than (1-1/{}) of the optimum {}", variant, gft, k, OPT)
    return labels


# ------------------------------------------------------------------ truthfulness

def truthful_variants(recipe):
    out = ["asc"]
    if all(r == 1 for r in recipe):
        out += ["tr", "mcafee_plain"]
        if len(recipe) == 2:
            out.append("mcafee")
    return out


def utility(o, recipe, i, reported, true, count_market, best):
    """Expected utility of an agent of category i who reported `reported`. Ties between equal reports are resolved for (best)
    or against the agent."""
    if o.k == 0:
        return 0
    selected = o.values[i].count(reported)
    if selected == 0:
        return 0
    gain = (true - o.prices[i]) * (o.k * recipe[i] / len(o.values[i]))
    if selected < count_market:   # some of those who report the same are excluded
        return max(0, gain) if best else min(0, gain)
    return gain


def truthful_run(case):
    cats, recipe, i, j, lies = case["cats"], case["recipe"], case["category"], case["agent"], case["lies"]
    if recipe[i] == 0 or j >= len(cats[i]):
        return ["skipped"]
    true = cats[i][j]
    labels = []
    bilateral = any(all(v >= 0 for v in cats[b]) and all(v <= 0 for v in cats[1 - b]) for b in (0, 1)) if len(recipe) == 2 else False
    for variant in truthful_variants(recipe):
        if variant == "mcafee" and not bilateral:
            continue   # McAfee's mechanism is defined for buyers with values >= 0 and sellers with values <= 0
        o = run(variant, cats, recipe)
        labels += classify(cats, recipe, o.k, None)
        if o.k:
            o.check_prices(used(recipe))
        u = utility(o, recipe, i, true, true, cats[i].count(true), False)
        tol = tolerance(o.prices)
        require(u >= -tol, "{}: truthful agent {} of category {} has utility {}", variant, true, i, u)
        for lie in lies:
            if lie == true:
                continue
            if variant == "mcafee" and (lie < 0 if all(v >= 0 for v in cats[i]) and (true > 0 or all(v <= 0 for v in cats[1 - i])) else lie > 0):
                continue
            mod = [list(c) for c in cats]
            mod[i][j] = lie
            o2 = run(variant, mod, recipe)
            if o2.k:
                o2.check_prices(used(recipe))
            u2 = utility(o2, recipe, i, lie, true, mod[i].count(lie), True)
            if o2.k and (o2.k != o.k or o2.prices != o.prices or u2 != u):
                labels.append("nontrivial")
            if u2 != u:
                labels.append("lie changes the agent's utility")
            require(u2 <= u + tol, "{}: an agent of category {} with value {} gains {} by reporting {} instead of {} by telling the truth", variant, i, true, u2, lie, u)
    return labels


def lies_bulk(rng, cats, recipe, i, true):
    """Lies that are likely to matter: near the values of others of the same category, or near the break-even value of a deal."""
    lies = []
    srt = [sorted(c, reverse=True) for c in cats]
    for _ in range(rng.randint(2, 4)):
        u = rng.random()
        if u < 0.35 and cats[i]:
            lie = rng.choice(cats[i]) + rng.choice([-1, 0, 1])
        elif u < 0.7:
            # break-even: minus the values of the others around the same rank
            rank = rng.random()
            total = 0
            for q in range(len(cats)):
                if q != i and recipe[q] > 0 and srt[q]:
                    total += recipe[q] * srt[q][min(len(srt[q]) - 1, int(rank * len(srt[q])) + rng.randint(0, 1))]
            lie = -total / recipe[i]
            lie = (lie if lie != int(lie) else int(lie)) + rng.choice([-1, 0, 0, 1])
            lie = round(lie * 4) / 4
        elif u < 0.85:
            lie = true + rng.choice([-1, 1]) * rng.randint(1, 3 + abs(int(true)) // 2)
        else:
            lie = rng.choice([-1, 1]) * rng.randint(0, 2 * max(1, max(abs(int(v)) for c in cats for v in c)))
        lies.append(lie)
    return lies


def truthful_bulk(kind):
    def gen_case(rng):
        while True:
            if rng.random() < .015:
                case = large(kind, kind == "int")(rng)
                recipe = case["recipe"]
            else:
                recipe = gen.recipe_bulk(rng, kind, zeros=(kind == "int"))
                case = gen.market_bulk(rng, recipe)
            cand = [i for i in used(recipe) if case["cats"][i]]
            if cand:
                break
        i = rng.choice(cand)
        c = case["cats"][i]
        # prefer agents near the margin
        order = sorted(range(len(c)), key=lambda j: -c[j])
        OPT, k0, k1 = oracle.optimal_single(case["cats"], recipe)
        margin = min(len(c) - 1, max(0, k1 * recipe[i] + rng.randint(-2, 1)))
        j = order[margin] if rng.random() < 0.6 else rng.randrange(len(c))
        case.update(category=i, agent=j, lies=lies_bulk(rng, case["cats"], recipe, i, c[j]))
        return case
    return gen_case


def shrink_truth(case):
    if len(case["lies"]) > 1:
        for q in range(len(case["lies"])):
            yield dict(case, lies=[case["lies"][q]])
    cats, i, j = case["cats"], case["category"], case["agent"]
    for q in range(len(cats)):
        for p in range(len(cats[q])):
            if (q, p) != (i, j):
                yield dict(case, cats=cats[:q] + [cats[q][:p] + cats[q][p + 1:]] + cats[q + 1:], agent=j - (q == i and p < j))


# ------------------------------------------------------------------ small scopes, exhaustively

def small_markets(shard, shards, count):
    """All bilateral markets with at most `count` agents per category (values 0..3 / -3..0, up to order) and recipes [1,1],
    [1,2], [2,1]; and trilateral ones with at most 2 agents per category."""
    def multisets(values, most):
        for n in range(0, most + 1):
            yield from itertools.combinations_with_replacement(values, n)
    idx = 0
    for recipe, most, vals in ([1, 1], count, ([0, 1, 2, 3], [-3, -2, -1, 0])), ([1, 2], count, ([0, 2, 3], [-2, -1, 0])), ([2, 1], count, ([0, 1, 2], [-3, -1, 0])), \
            ([1, 1, 1], 2, ([0, 1, 2, 3], [-2, -1, 0], [-2, -1, 0])):
        for cats in itertools.product(*[list(multisets(v, most)) for v in vals]):
            idx += 1
            if idx % shards == shard:
                yield {"cats": [list(c) for c in cats], "recipe": recipe}


def small_lies(shard, shards, count):
    idx = 0
    for case in small_markets(0, 1, count):
        for i, c in enumerate(case["cats"]):
            for j, v in enumerate(c):
                if j and c[j - 1] == v:
                    continue
                idx += 1
                if idx % shards == shard:
                    pool = {x + d for x in c for d in (-1, 1)} | {-x + d for q, o in enumerate(case["cats"]) if q != i for x in o for d in (0, 0.5)} | {v + 0.5, v - 0.5}
                    yield dict(case, category=i, agent=j, lies=sorted(pool)[:12])


def bulk(kind, zeros=False):
    return lambda rng: gen.market_bulk(rng, gen.recipe_bulk(rng, kind, zeros))


def finish_large(rng, cats, recipe, zeros, n):
    """Varies the values of a large market, and sometimes adds a category that takes no part."""
    cats = gen.spice(rng, cats, recipe)
    if zeros and rng.random() < .15:
        i = rng.randrange(len(recipe) + 1)
        top = int(max(abs(v) for c in cats for v in c) if any(cats) else 1)
        cats.insert(i, gen.values_bulk(rng, rng.choice([0, 1, n, 2 * n]), -top, top))
        recipe.insert(i, 0)
    return {"cats": cats, "recipe": recipe}


def large(kind, zeros=False):
    """Markets of tens to hundreds of agents."""
    def f(rng):
        recipe = gen.recipe_bulk(rng, kind)
        if rng.random() < .9:
            recipe = recipe[:4]
        n = rng.randint(10, 40) if rng.random() < .4 else rng.randint(40, 130)
        if sum(recipe) > 20:
            n = max(3, min(n, 2500 // sum(recipe)))
        scale = rng.choice([50, 1000, 100000])
        b = rng.randrange(len(recipe))
        total = sum(recipe)
        cats = []
        for i in range(len(recipe)):
            m = max(0, n * recipe[i] + rng.choice([0, rng.randint(-9, 9), rng.randint(0, 2 * recipe[i])]))
            lo, hi = (0, scale * max(1, (total - recipe[i]) // recipe[i])) if i == b else (-scale, 0 if rng.random() < .9 else scale // 3)
            cats.append(gen.values_bulk(rng, m, lo, hi))
        return finish_large(rng, cats, recipe, zeros, n)
    return f


def huge(kind, zeros=False):
    """Markets of hundreds to thousands of deals."""
    def f(rng):
        recipe = gen.recipe_bulk(rng, kind)[:3]
        recipe = [max(1, min(3, r)) for r in recipe]
        n = rng.choice([rng.randint(120, 250), rng.randint(200, 600), rng.randint(600, 1300), rng.randint(1000, 2500)]) if rng.random() < .96 else rng.randint(2500, 11000)
        if n > 2500:
            recipe = recipe[:2]
            n = max(2500, n // max(recipe))
        if rng.random() < 0.5 and len(recipe) > 1:
            recipe = recipe[:2]
        elif rng.random() < .2 and n < 600:
            recipe = recipe + [1] * rng.randint(1, 3)
        scale = rng.choice([100, 10000, 1000000])
        b = rng.randrange(len(recipe))
        others = sum(recipe) - recipe[b]
        # the buyers' values are high, so that most of the agents trade
        low = rng.choice([0, scale // 2, scale])
        cats = [gen.values_bulk(rng, n * recipe[i] + rng.choice([0, rng.randint(-3, 9)]), *((low * others // recipe[i], 2 * scale * max(1, others) // recipe[i]) if i == b else (-scale, 0)))
                for i in range(len(recipe))]
        return finish_large(rng, cats, recipe, zeros, n)
    return f


def shrink_huge(case):
    """Drops the lowest or the highest share of all agents."""
    cats, recipe = [sorted(c, reverse=True) for c in case["cats"]], case["recipe"]
    n = min(len(c) // max(1, r) for c, r in zip(cats, recipe))
    for part in (n // 2, n // 4, n // 10, 10, 1):
        if 0 < part < n:
            yield dict(case, cats=[c[:-part * max(1, r)] for c, r in zip(cats, recipe)])
            yield dict(case, cats=[c[part * max(1, r):] for c, r in zip(cats, recipe)])


def facets(run_fn, quick, zeros=True):
    return [
        Facet("guided", run_fn, strategy=gen.single_market(recipe=gen.int_recipe(zeros=zeros), max_scale=1000000), quick=quick // 10, thorough=quick),
        Facet("bulk ones", run_fn, bulk=bulk("ones"), shrink=gen.shrink_market, quick=quick, thorough=quick * 40),
        Facet("bulk integer", run_fn, bulk=bulk("int", zeros), shrink=gen.shrink_market, quick=quick, thorough=quick * 40),
        Facet("large", run_fn, bulk=large("int", zeros), shrink=gen.shrink_market, quick=quick // 25, thorough=quick),
        Facet("huge", run_fn, bulk=huge("int", zeros), shrink=shrink_huge, quick=64, thorough=2400),
        Facet("small scope", run_fn, enum=small_markets, quick=3, thorough=5),
    ]


RULE = "non-trivial: at least one mechanism made at least one deal (efficiency: the optimum has at least one deal)"
EXACT = "agents' values are integers or dyadic fractions (multiples of 2^-16) with |value|*sum(recipe) < 10^8 (the documented MAX_VALUE bound)"

PROPERTIES = {
    "budget-balance": lambda: Property("budget-balance", RULE, facets(budget_run, 16000), [EXACT]),
    "individual-rationality": lambda: Property("individual-rationality", RULE, facets(rational_run, 16000), [EXACT]),
    "efficiency": lambda: Property("efficiency", RULE, facets(efficiency_run, 16000), [EXACT]),
    "truthfulness": lambda: Property(
        "truthfulness", "non-trivial: a misreport changed the outcome and some deal was made", [
            Facet("bulk ones", truthful_run, bulk=truthful_bulk("ones"), shrink=shrink_truth, quick=14000, thorough=500000),
            Facet("bulk integer", truthful_run, bulk=truthful_bulk("int"), shrink=shrink_truth, quick=12000, thorough=400000),
            Facet("small scope", truthful_run, enum=small_lies, quick=2, thorough=3),
        ], [EXACT, "a single agent misreports; ties between equal reports are resolved against the truthful agent and in favour of the liar"]),
}
