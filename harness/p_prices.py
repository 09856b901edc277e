"""Price vectors: single (AscendingPriceVector) and simultaneous (SimultaneousAscendingPriceVectors, calculate_initial_prices)."""
import math
from core import Facet, Property, require
import gen
from adapt import prices, prices_integer, quiet
from oracle import F

# ------------------------------------------------------------------ a single price vector


def vector_case(rng):
    long = rng.random() < .05
    n = rng.randint(1, 5) if not long else rng.randint(1, 20)
    recipe = [rng.choice([0, 1, 1, 1, 2, 3, 7]) if not long else rng.choice([0, 1, 1, 4, 10, 60]) for _ in range(n)]
    if not any(recipe):
        recipe[rng.randrange(n)] = 1
    module = rng.choice(["prices", "integer", "integer counts"])
    counts = [rng.choice([1, 1, 2, 3, 5]) for _ in range(n)] if module == "integer counts" else None
    scale = rng.choice([10, 1000, 10 ** 8])
    if rng.random() < 0.5:
        init = -scale
    else:
        init = [-rng.randint(1, scale) for _ in range(n)]
    ops = []
    for _ in range(rng.randint(1, 9) if not long else rng.randint(5, 60)):
        ops.append([rng.choice(["up", "up", "up", "up", "after", "set"]), rng.randrange(n), rng.choice([0, 1, 2, 3, rng.random(), rng.random(), rng.choice([.999, .9999, .99999, 1.0001, 1.001])]), rng.choice([0, 0, 0, 0, -rng.randint(0, scale // 2), rng.randint(0, 20)])])
    return {"recipe": recipe, "module": module, "counts": counts, "init": init, "ops": ops, "grain": rng.choice([1, 1, 1, 1, 2, 8, 256, 4096, 65536]), "int": rng.random() < .3}


def vector_run(case):
    recipe, counts, n = case["recipe"], case["counts"], len(case["recipe"])
    weight = [r * (counts[i] if counts else 1) for i, r in enumerate(recipe)]
    mod = prices if case["module"] == "prices" else prices_integer
    init = case["init"]
    args = (list(recipe), list(init) if isinstance(init, list) else init)
    pv = mod.AscendingPriceVector(*args) if counts is None else mod.AscendingPriceVector(*args, list(counts))
    model = [float(x) for x in init] if isinstance(init, list) else [float(init)] * n
    require(pv.status is None, "the status of a new price vector is {}", pv.status)
    other = mod.AscendingPriceVector(args[0], -7.0)     # another auction with the same recipe
    labels = [case["module"]]
    slack = 1e-13 * sum(abs(p) * max(1, w) for p, w in zip(model, weight))

    def close(a, b):
        return abs(a - b) <= slack + 1e-9 * (1 + sum(abs(p) * max(1, w) for p, w in zip(model, weight)))

    def compare(step):
        for i in range(n):
            require(close(pv[i], model[i]) and pv[i] == pv.prices[i], "after {}: price {} is {} instead of {}", step, i, pv[i], model[i])
        total = sum(p * w for p, w in zip(model, weight))
        require(close(pv.price_sum(), total), "after {}: the price-sum is {} instead of {}", step, pv.price_sum(), total)
        for i in range(n):
            require(close(pv.price_sum_without_category(i), total - model[i] * weight[i]), "after {}: the price-sum without category {} is {}", step, i, pv.price_sum_without_category(i))
        require(str(pv) == str(pv.prices), "printed as {}", pv)
    compare("construction")
    inexact = False       # until the first division, all the prices are integers
    for (op, i, amount, bound) in case["ops"]:
        total = sum(p * w for p, w in zip(model, weight))
        gap = (bound - total) / max(1, weight[i])
        new = model[i] + (abs(gap) * amount if amount != 3 else 1 + abs(model[i]))
        new = round(new * case["grain"]) / case["grain"]
        if case["int"] and new == int(new):
            new = int(new)
        if new < model[i]:
            continue
        if op == "set":
            pv[i] = new
            if sum(p * w for q, (p, w) in enumerate(zip(model, weight)) if q != i) + new * weight[i] >= 0:
                return labels
            model[i] = new
            compare("assignment")
            continue
        if op == "after":
            got = pv.price_sum_after_increase(i, new)
            require(close(got, total + (new - model[i]) * weight[i]), "price_sum_after_increase({},{}) of {} is {}", i, new, model, got)
            compare("price_sum_after_increase")
            continue
        if total >= bound - slack - 1e-9:
            continue
        if bound == 0:
            pv.increase_price_up_to_balance(i, new, "x")
        else:
            pv.increase_price_up_to_balance(i, new, "x", bound)
        after = total + (new - model[i]) * weight[i]
        if inexact and abs(after - bound) < 1e-6 * (1 + abs(total)) + 10 * slack:
            return labels       # too close to decide in floating point
        if after >= bound:
            model[i] = model[i] + (bound - total) / weight[i]
            inexact = True
            require(pv.status == mod.PriceStatus.STOPPED_AT_ZERO_SUM, "the price-sum hit {} but the status is {}", bound, pv.status)
            require(close(pv.price_sum(), bound), "stopped at a price-sum of {} instead of {}", pv.price_sum(), bound)
            labels += ["stopped at the bound", "nontrivial"]
        else:
            model[i] = new
            require(pv.status == mod.PriceStatus.STOPPED_AT_AGENT_VALUE, "the price-sum {} is below {} but the status is {}", after, bound, pv.status)
            require(pv[i] == new, "the price is {} instead of {}", pv[i], new)
            labels += ["stopped at the agent's value", "nontrivial"]
            if weight[i] == 0:
                labels.append("category outside of the recipe")
        compare("increase")
        other.increase_price_up_to_balance(i, other[i] + 1, "y", 100)
        other[i] = -7.0
        compare("increase of another price vector")
        require(pv.status == (mod.PriceStatus.STOPPED_AT_ZERO_SUM if after >= bound else mod.PriceStatus.STOPPED_AT_AGENT_VALUE), "the status is {} after an increase of another price vector", pv.status)
    return labels


# ------------------------------------------------------------------ simultaneous price vectors

def cut(rng, struct):
    idx, sub = struct
    if sub is None or rng.random() < 0.4:
        return [idx]
    return [c for i in range(0, len(sub), 2) for c in cut(rng, sub[i:i + 2])]


def simultaneous_case(rng):
    long = rng.random() < .04
    tree, n = gen.tree_bulk(rng, 8) if not long else gen.tree_bulk(rng, *rng.choice([(20, False, 6, False), (16, False, 3, True), (6, False, 5, False), (12, False, 12, False)]))
    extra = 1 if rng.random() < 0.2 else 0
    module = rng.choice(["prices", "integer", "integer weights", "integer counts", "integer weights and counts"])
    choices = [1, 1, 2, 3, 4] if rng.random() < .95 else [1, 5, 6, 8, 12]
    weights = [rng.choice(choices) if "weights" in module else 1 for _ in range(n + extra)]
    counts = [rng.choice(choices) for _ in range(n + extra)] if "counts" in module else None
    start = rng.choice([-10, -1000, -10 ** 8])
    ops = []
    for _ in range(rng.randint(1, 8) if not long else rng.randint(5, 40)):
        c = cut(rng, tree)
        rng.shuffle(c)
        ops.append([[[i, rng.choice([0.0, 0.25, 0.5, 0.5, 1.0, 1.0, 1.5, rng.random()])] for i in c], rng.choice([0, 0, 0, 0, -rng.randint(0, 20)])])
    return {"tree": tree, "n": n + extra, "module": module, "weights": weights, "counts": counts, "start": start, "ops": ops, "grain": rng.choice([1, 1, 1, 1, 2, 8, 256, 4096, 65536]), "near": rng.choice([None, None, -2, -1, 0, 1])}


def simultaneous_run(case):
    n, weights, start = case["n"], case["weights"], case["start"]
    mod = prices if case["module"] == "prices" else prices_integer
    paths = gen.tree_paths(case["tree"])
    counts = case["counts"]
    recipes = [[weights[i] if i in p else 0 for i in range(n)] for p in paths]
    extra = []
    given = [list(r) for r in recipes]
    if counts:      # the agent counts multiply those of the recipes
        weights = [w * c for w, c in zip(weights, counts)]
        recipes = [[weights[i] if i in p else 0 for i in range(n)] for p in paths]
        extra = [list(counts)]
    as_given = [list(r) for r in given]
    nodes = sorted({i for p in paths for i in p})
    with quiet():
        init = mod.calculate_initial_prices([list(r) for r in recipes], start)
        pv = mod.SimultaneousAscendingPriceVectors(given, start, *extra)
        other = mod.SimultaneousAscendingPriceVectors(given, -7, *extra)       # another auction with the same recipes
    require(given == as_given and (not counts or extra[0] == counts), "the recipes or counts were changed")
    tol = 1e-9 + 1e-13 * abs(start) * max(sum(r) for r in recipes)

    def sums(p):
        return [sum(x * w for x, w in zip(p, r)) for r in recipes]
    require(len(init) == n, "{} initial prices for {} categories", len(init), n)
    for i in nodes:
        require(init[i] <= start + tol, "initial price of category {} is {}, above {}", i, init[i], start)
    s = sums(init)
    require(max(s) - min(s) <= tol, "the initial price-sums are {}", s)
    lowest = start * max(sum(r) for r in recipes)
    require(abs(s[0] - lowest) <= tol, "the initial price-sum is {} instead of {}", s[0], lowest)
    require(all(abs(a - b) <= tol for a, b in zip(pv.map_category_index_to_price(), init)), "the initial prices are {} and not {}", pv.map_category_index_to_price(), init)
    require(pv.status is None, "initial status {}", pv.status)
    labels = [case["module"], "%d recipes" % min(5, len(recipes))]
    inexact = any(x != int(x) for x in init)
    for (incs, bound) in case["ops"]:
        before = list(pv.map_category_index_to_price())
        total = pv.price_sum()
        require(abs(total - sums(before)[0]) <= tol, "price_sum() is {} for {}", total, before)
        if total != bound and total >= bound - 10 * tol or total == bound and inexact:
            continue
        gap = bound - total      # may be zero: then nothing can increase
        increases = [(i, float(round((before[i] + (gap or 10) * frac / weights[i]) * case["grain"]) / case["grain"]), "c%d" % i) for i, frac in incs]
        if case["near"] is not None:       # targets that are reached just before (or after, or when) the bound is hit
            increases = [(i, float(round((before[i] + gap / weights[i]) * case["grain"]) + (case["near"] if j == 0 else max(0, case["near"]))) / case["grain"], d) for j, (i, _, d) in enumerate(increases)]
        if any(new < before[i] for i, new, _ in increases):
            continue
        with quiet():
            if bound == 0:
                pv.increase_prices(list(increases))
            else:
                pv.increase_prices(list(increases), bound)
            if other.price_sum() < -3:
                other.increase_prices([(i, other.map_category_index_to_price()[i] + 1 / weights[i], "y") for i, _, _ in increases], -1)
        after = list(pv.map_category_index_to_price())
        step = min([(new - before[i]) * weights[i] for i, new, _ in increases])
        if inexact and abs(step - gap) <= tol:
            return labels    # too close to decide in floating point
        inexact = inexact or any(w not in (1, 2, 4, 8, 16) for w in weights)
        hit = step >= gap
        step = min(step, gap)
        chosen = {i for i, _, _ in increases}
        for i in range(n):
            want = before[i] + (step / weights[i] if i in chosen else 0)
            require(abs(after[i] - want) <= tol, "increasing {} from {}: price {} is {} instead of {}", increases, before, i, after[i], want)
        for i, new, _ in increases:
            require(after[i] <= new + tol, "price {} exceeds its target {}: {}", i, new, after[i])
        s = sums(after)
        require(max(s) - min(s) <= tol, "the price-sums are not equal: {}", s)
        require(s[0] <= bound + tol, "the price-sum {} exceeds {}", s[0], bound)
        require(abs(pv.price_sum() - s[0]) <= tol, "price_sum() is {} instead of {}", pv.price_sum(), s[0])
        want = mod.PriceStatus.STOPPED_AT_ZERO_SUM if hit else mod.PriceStatus.STOPPED_AT_AGENT_VALUE
        require(pv.status == want, "the status is {} instead of {}", pv.status, want)
        require(str(pv) == "{} {}".format(pv.map_category_index_to_price(), pv.status), "printed as {}", pv)
        labels += ["nontrivial", "hit the bound" if hit else "hit a target"]
        if hit:
            require(abs(s[0] - bound) <= tol, "stopped at the price-sum {} instead of {}", s[0], bound)
        else:
            require(any(after[i] == new for i, new, _ in increases if (new - before[i]) * weights[i] == step), "no price reached its target: {} from {} to {}", increases, before, after)
    return labels


def shrink_ops(case):
    ops = case["ops"]
    for s in range(len(ops)):
        yield dict(case, ops=ops[:s] + ops[s + 1:])


PROPERTIES = {
    "price-vector": lambda: Property("price-vector", "non-trivial: some price increased", [
        Facet("histories", vector_run, bulk=vector_case, shrink=shrink_ops, quick=60000, thorough=2000000),
    ], ["increases are to prices that are not below the current price, from a price-sum below the bound"]),
    "simultaneous-prices": lambda: Property("simultaneous-prices", "non-trivial: some prices increased", [
        Facet("histories", simultaneous_run, bulk=simultaneous_case, shrink=shrink_ops, quick=20000, thorough=600000),
    ], ["the recipes are the root-to-leaf paths of a tree; increases contain exactly one category of each recipe, at targets that are not below the current prices"]),
}
