"""Hypothesis generators of JSON cases: markets, recipes, recipe-trees."""
import math
from hypothesis import strategies as st

SCALES = [2, 6, 6, 20, 20, 100, 1000, 1000000]


@st.composite
def category_values(draw, lo, hi, size_lo, size_hi, div, distinct=False):
    """A list of values in [lo,hi] (integers, or multiples of 1/div).  Sometimes a long arithmetic progression."""
    if size_hi > 12 and draw(st.booleans()):
        n = draw(st.integers(size_lo, size_hi))
        start = draw(st.integers(lo, hi))
        step = draw(st.integers(0, max(1, 2 * (hi - lo) // max(1, n))))
        den = draw(st.integers(1, 3))
        sgn = draw(st.sampled_from([1, -1]))
        vals = [start + sgn * (i * step) // den for i in range(n)]
        vals = [min(max(v, lo), hi) for v in vals]
    else:
        vals = draw(st.lists(st.integers(lo, hi), min_size=size_lo, max_size=max(size_lo, min(size_hi, 16)), unique=distinct))
    return vals if div == 1 else [v / div for v in vals]


@st.composite
def single_market(draw, recipe=None, allow_empty=True, max_unit=8, big=True, max_scale=None):
    """{"cats": [[..],..], "recipe": [..]}: a market with one category per recipe element; sellers are usually negative
    and the buyers' values are usually scaled so that many deals have a gain near zero."""
    if recipe is None:
        recipe = draw(int_recipe())
    elif not isinstance(recipe, list):
        recipe = draw(recipe)
    k = len(recipe)
    scale = draw(st.sampled_from([s for s in SCALES if max_scale is None or s <= max_scale]))
    div = draw(st.sampled_from([1, 1, 1, 4]))
    signs = draw(st.sampled_from(["classic", "classic", "classic", "mixed", "free"]))
    buyer = draw(st.integers(0, k - 1))
    regime = draw(st.sampled_from(["small", "small", "mid", "big"] if big else ["small", "small", "mid"]))
    units = draw(st.integers(0 if allow_empty else 1, {"small": 3, "mid": max_unit, "big": 30}[regime]))
    cats = []
    others = max(1, sum(recipe) - recipe[buyer])
    for i in range(k):
        r = max(1, recipe[i])
        f = max(1, others // r) if (i == buyer and draw(st.booleans())) else 1
        s = signs if signs != "free" else draw(st.sampled_from(["pos", "neg", "any"]))
        if s == "classic":
            lo, hi = (0, scale * f) if i == buyer else (-scale, 0)
        elif s == "mixed":
            lo, hi = (-(scale // 4) - 1, scale * f) if i == buyer else (-scale, scale // 3 + 1)
        elif s == "pos":
            lo, hi = 0, scale * f
        elif s == "neg":
            lo, hi = -scale, 0
        else:
            lo, hi = -scale, scale
        n_lo = max(0, units * r - 2) if regime != "small" else (0 if allow_empty else 1)
        n_hi = units * r + 2
        cats.append(draw(category_values(lo, hi, n_lo, n_hi, div)))
    if not allow_empty:
        for c in cats:
            if not c:
                c.append(0)
    return {"cats": cats, "recipe": recipe}


@st.composite
def int_recipe(draw, max_len=4, max_count=4, min_len=1, zeros=False):
    kind = draw(st.sampled_from(["ones", "ones", "int", "int", "two"]))
    if kind == "ones":
        return [1] * draw(st.integers(max(2, min_len), max_len))
    if kind == "two":
        return draw(st.lists(st.integers(1, 5), min_size=2, max_size=2))
    r = draw(st.lists(st.integers(0 if zeros else 1, max_count), min_size=min_len, max_size=max_len))
    return r if any(r) else [1] + r[1:]


def ones_recipe(max_len=5):
    return st.integers(1, max_len).map(lambda n: [1] * n)


# ---------------------------------------------------------------- trees

@st.composite
def tree_struct(draw, max_nodes=6, max_children=3, max_depth=4, chain_only=False):
    """A nested-list recipe-tree over category indices 0..n-1 (each index in one node; the indices are shuffled)."""
    n = draw(st.integers(1, max_nodes))
    parent = [None]
    depth = [1]
    kids = [0]
    for i in range(1, n):
        cands = [j for j in range(i) if kids[j] < (1 if chain_only else max_children) and depth[j] < max_depth]
        if not cands:
            break
        p = draw(st.sampled_from(cands))
        parent.append(p)
        depth.append(depth[p] + 1)
        kids.append(0)
        kids[p] += 1
    n = len(parent)
    perm = draw(st.permutations(list(range(n)))) if draw(st.booleans()) else list(range(n))
    children = {i: [j for j in range(n) if parent[j] == i] for i in range(n)}

    def build(i):
        out = [perm[i]]
        out.append(None if not children[i] else sum([build(j) for j in children[i]], []))
        return out
    return build(0), n


def tree_nodes(struct, parent=None):
    """[(index, parent index, [children indices])] of a nested-list tree, by pre-order."""
    idx, sub = struct[0], struct[1]
    kids = [] if sub is None else [sub[i] for i in range(0, len(sub), 2)]
    out = [(idx, parent, kids)]
    if sub is not None:
        for i in range(0, len(sub), 2):
            out += tree_nodes(sub[i:i + 2], idx)
    return out


def tree_paths(struct):
    idx, sub = struct[0], struct[1]
    if sub is None:
        return [[idx]]
    return [[idx] + p for i in range(0, len(sub), 2) for p in tree_paths(sub[i:i + 2])]


@st.composite
def tree_market(draw, max_nodes=6, counts=False, distinct=False, chain_only=False, max_size=7, allow_empty=True, extra=True,
                big=True, max_scale=None, max_depth=4):
    """{"tree": nested list, "cats": [[..],..], "counts": [..] or None}.  Root values are mostly positive (the buyers) and
    large enough for deals to exist, the others mostly negative.  Sometimes a category outside of the tree exists."""
    tree, n = draw(tree_struct(max_nodes=max_nodes, chain_only=chain_only, max_depth=max_depth))
    total = n + (draw(st.integers(0, 1)) if extra else 0)
    root = tree[0]
    scale = draw(st.sampled_from([s for s in [6, 20, 20, 100, 1000, 1000000] if max_scale is None or s <= max_scale]))
    depth = max(len(p) for p in tree_paths(tree))
    cnt = None
    if counts:
        cnt = draw(st.lists(st.integers(1, 3), min_size=total, max_size=total))
    signs = draw(st.sampled_from(["classic", "classic", "classic", "free"]))
    regime = draw(st.sampled_from(["small", "small", "mid", "big"] if big else ["small", "small", "mid"]))
    hi_n = {"small": 3, "mid": max_size, "big": 25}[regime]
    weight = max(1, depth - 1) if cnt is None else max(1, -(-sum(cnt) // cnt[root]) - 1)
    cats = []
    width = {}
    for (i, p, kids) in tree_nodes(tree):
        width[i] = hi_n if p is None else max(1, -(-width[p] // 1))
    for i in range(total):
        if signs == "classic":
            lo, hi = (0, scale * weight) if i == root else (-scale, 0)
        else:
            lo, hi = draw(st.sampled_from([(0, scale), (-scale, 0), (-scale, scale), (-scale // 2, scale * weight)]))
        c = cnt[i] if cnt else 1
        n_hi = hi_n * c + 1
        n_lo = 0 if (allow_empty and regime == "small") else (0 if allow_empty and draw(st.integers(0, 5)) == 0 else min(n_hi, max(1, c * hi_n // 2)))
        if distinct:
            hi = max(hi, lo + 4 * n_hi)
        vals = draw(category_values(lo, hi, n_lo, n_hi, 1))
        cats.append(vals)
    if distinct:
        # make all values pairwise distinct, and also all the deal-values very likely distinct
        cats = make_distinct(cats)
    return {"tree": tree, "cats": cats, "counts": cnt}


# ---------------------------------------------------------------- fast random generation ("bulk" facets)

def values_bulk(rng, n, lo, hi, div=1):
    style = rng.random()
    if style < 0.15 and n > 1:         # arithmetic progression
        step = (hi - lo) / n
        vals = [int(lo + step * i) for i in range(n)]
    elif style < 0.3:                  # few distinct values: many ties
        pool = [rng.randint(lo, hi) for _ in range(rng.randint(1, 3))]
        vals = [rng.choice(pool) for _ in range(n)]
    else:
        vals = [rng.randint(lo, hi) for _ in range(n)]
    rng.shuffle(vals)
    return vals if div == 1 else [v / div for v in vals]


def recipe_bulk(rng, kind="int", zeros=False):
    """kind: 'ones' or 'int' (positive integers; sometimes with zeros)."""
    r = positive_recipe(rng, kind)
    if zeros and kind != "ones" and rng.random() < .12:
        add_zero(rng, r)
    return r


def add_zero(rng, r):
    if rng.random() < .5 and len(r) > 1:
        r[rng.randrange(len(r))] = 0
    if rng.random() < .5 or not any(x == 0 for x in r):
        r.insert(rng.randrange(len(r) + 1), 0)
    if not any(r):
        r[0] = 1


def positive_recipe(rng, kind):
    if kind == "ones":
        return [1] * (rng.randint(7, 12) if rng.random() < 0.03 else rng.choice([1, 2, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6]))
    u = rng.random()
    if u < 0.015:
        return [rng.randint(1, 2) for _ in range(rng.randint(7, 12))]
    if u < 0.03:
        return rng.sample([rng.randint(1, 3), rng.randint(10, 40) if rng.random() < .8 else rng.randint(60, 150), rng.randint(1, 12), rng.randint(1, 4), 1], rng.choice([2, 2, 3, 3, 4, 5]))
    if u < 0.25:
        return [1] * rng.choice([2, 2, 3, 4, 5])
    if u < 0.5:
        return [rng.randint(1, 4), rng.randint(1, 4)]
    if u < 0.93:
        r = [rng.randint(1, 3) for _ in range(rng.randint(1, 4))]
    else:
        r = [rng.randint(1, 9) for _ in range(rng.randint(1, 6))]
    return r


def spice(rng, cats, weights, root=None, room=10 ** 8):
    """Varies the values of a (large) market: fractions, floats, ties, large values that nearly cancel, other signs.
    weights: the number of agents of each category in a deal; all values times the sum of weights stay below 'room'."""
    top = max([abs(v) for c in cats for v in c] + [1])
    total = max(1, sum(weights))
    used = [i for i, w in enumerate(weights) if w > 0]
    if rng.random() < .2:                               # ties
        step = rng.choice([2, 5, 10, max(2, top // 20), max(2, top // 3)])
        which = rng.choice([None, rng.randrange(len(cats))])
        cats = [[v // step * step for v in c] if which in (None, i) else c for i, c in enumerate(cats)]
    if rng.random() < .15 and len(used) > 1:            # large values that nearly cancel
        i, j = rng.sample(used, 2) if root is None else (root, rng.choice([x for x in used if x != root]))
        limit = (room // total - 2 * top) // max(weights)
        if limit > 1:
            b = rng.randint(1, limit) * rng.choice([1, 1, -1])
            cats = [[v + (b * weights[j] if x == i else -b * weights[i] if x == j else 0) for v in c] for x, c in enumerate(cats)]
    if rng.random() < .2:                               # fractions (a dyadic grain, so that all sums are exact)
        grain = 2 ** rng.choice([1, 2, 3, 4, 6, 10, 12, 16])
        fine = rng.random() < .5
        cats = [[v / grain for v in c] if fine else [v + rng.choice([0, 0, 1, -1, rng.randint(-grain + 1, grain - 1)]) / grain for v in c] for c in cats]
    elif rng.random() < .2:
        which = rng.choice([None, rng.randrange(len(cats))])
        cats = [[float(v) for v in c] if which in (None, i) else c for i, c in enumerate(cats)]
    return cats


def market_bulk(rng, recipe, big=1.0):
    """{"cats", "recipe"}: one category per recipe entry; usually one buyers category whose values make the last deals' gain
    close to zero; sizes around a common number of potential deals; sometimes degenerate sizes, signs and magnitudes."""
    k = len(recipe)
    total = max(1, sum(recipe))
    u = rng.random()
    scale = 3 if u < 0.25 else 8 if u < 0.5 else 30 if u < 0.7 else 1000 if u < 0.9 else 100000 if u < 0.97 else 10 ** 8 // (total * total + 4)
    div = 4 if rng.random() < 0.1 else 1
    u = rng.random()
    units = rng.randint(0, 2) if u < 0.2 else rng.randint(2, 5) if u < 0.75 else rng.randint(5, 12) if u < 0.97 else rng.randint(12, 60)
    buyer = rng.randrange(k)
    signs = rng.choice(["classic", "classic", "classic", "mixed", "free"])
    others = max(1, total - recipe[buyer])
    cats = []
    for i in range(k):
        r = max(1, recipe[i])
        f = max(1, others // r) if i == buyer else 1
        if signs == "free":
            lo, hi = rng.choice([(0, scale), (-scale, 0), (-scale, scale)])
        elif signs == "mixed":
            lo, hi = (-scale // 4, scale * f) if i == buyer else (-scale, scale // 3)
        else:
            lo, hi = (0, scale * f) if i == buyer else (-scale, 0)
        spread = rng.random()
        n = units * r + (rng.randint(-2, 2) if spread < 0.6 else rng.randint(0, 2 * r) if spread < 0.9 else rng.randint(-units * r, units * r))
        cats.append(values_bulk(rng, max(0, n), lo, hi, div))
    u = rng.random()
    pair = [i for i in range(k) if recipe[i] > 0]
    if u < 0.1 and len(pair) > 1 and scale <= 1000:    # large values that nearly cancel
        i, j = rng.sample(pair, 2)
        b = rng.randint(1, 20000000 // (total * total)) * rng.choice([1, 1, -1])
        cats[i] = [v + b * recipe[j] for v in cats[i]]
        cats[j] = [v - b * recipe[i] for v in cats[j]]
    if 0.05 < u < 0.15:                                # fractions (a dyadic grain, so that all sums are exact)
        grain = rng.choice([2, 8, 16, 64, 4096, 65536])
        cats = [[v + rng.choice([0, 0, 1, -1, rng.randint(-grain, grain)]) / grain for v in c] for c in cats]
    elif .15 < u < .17:                                # zeros of both signs
        cats = [[v or rng.choice([0, 0.0, -0.0]) for v in c] for c in cats]
    return {"cats": cats, "recipe": list(recipe)}


def tiny(make):
    """Cases whose values are scaled down by a power of two (the key "tiny"), which does not change any exact comparison."""
    def f(rng):
        case = make(rng)
        case["tiny"] = rng.choice([10, 20, 30, 50, 100])
        return case
    return f


def scaled(case):
    sh = 2.0 ** -case.get("tiny", 0)
    return sh, [[v * sh for v in c] for c in case["cats"]] if sh != 1 else case["cats"]


def shrink_values(cats):
    """Smaller variants of a list of value-lists."""
    for i, c in enumerate(cats):
        n = len(c)
        size = n // 2
        while size >= 1:
            for s in range(0, n, size):
                yield cats[:i] + [c[:s] + c[s + size:]] + cats[i + 1:]
            size //= 2
    for i, c in enumerate(cats):
        for j, v in enumerate(c):
            for w in (0, int(v / 2), int(v) - (1 if v > 0 else -1)):
                if abs(w) < abs(v):
                    yield cats[:i] + [c[:j] + [w] + c[j + 1:]] + cats[i + 1:]


def shrink_market(case):
    """Smaller variants of a case with "cats" and "recipe" (other keys are kept)."""
    cats, recipe = case["cats"], case["recipe"]
    for i in range(len(cats)):
        rest = recipe[:i] + recipe[i + 1:]
        if any(rest):
            yield dict(case, cats=cats[:i] + cats[i + 1:], recipe=rest)
    for new in shrink_values(cats):
        yield dict(case, cats=new)


def tree_bulk(rng, max_nodes=7, chain=False, max_depth=5, wide=False):
    n = max(rng.randint(1, max_nodes), rng.randint(1, max_nodes))
    parent, depth, kids = [None], [1], [0]
    branchy = rng.choice([1, 2, 2, 3, 3, 4]) if not wide else 20
    for i in range(1, n):
        cands = [j for j in range(i) if kids[j] < (1 if chain else branchy) and depth[j] < max_depth]
        if not cands:
            break
        p = rng.choice(cands) if not wide or rng.random() < .15 else cands[0]
        parent.append(p)
        depth.append(depth[p] + 1)
        kids.append(0)
        kids[p] += 1
    n = len(parent)
    perm = list(range(n))
    if rng.random() < 0.5:
        rng.shuffle(perm)
    children = {i: [j for j in range(n) if parent[j] == i] for i in range(n)}

    def build(i):
        return [perm[i], None if not children[i] else sum([build(j) for j in children[i]], [])]
    return build(0), n


def tree_market_bulk(rng, max_nodes=7, counts=None, distinct=False, chain=False, max_units=9, extra=True, max_depth=5, count_choices=(1, 1, 2, 3)):
    """{"tree", "cats", "counts"}: a recipe-tree with the values of all categories; the root is usually the buyers."""
    if rng.random() < 0.04:
        max_nodes, max_depth, max_units = rng.choice([(14, 5), (12, 10), (10, 10), (18, 3)]) + (min(max_units, 5),)
    tree, n = tree_bulk(rng, max_nodes, chain, max_depth, max_nodes == 18 and not chain)
    total = n + (1 if extra and rng.random() < 0.15 else 0)
    root = tree[0]
    if counts and count_choices == (1, 1, 2, 3) and rng.random() < .06:
        count_choices, max_units = (1, 2, 4, 5, 7, 12), min(max_units, 6)
    cnt = [rng.choice(count_choices) for _ in range(total)] if counts else None
    depth = max(len(p) for p in tree_paths(tree))
    u = rng.random()
    scale = 4 if u < 0.25 else 10 if u < 0.5 else 50 if u < 0.7 else 1000 if u < 0.95 else 100000
    u = rng.random()
    units = rng.randint(0, 2) if u < 0.2 else rng.randint(2, 5) if u < 0.7 else rng.randint(5, max_units) if u < 0.97 else rng.randint(max_units, 4 * max_units)
    signs = rng.choice(["classic", "classic", "classic", "free"])
    weight = max(1, depth - 1) if cnt is None else max(1, round(sum(cnt) / cnt[root]) - 1)
    width = {}
    for (i, p, kids) in tree_nodes(tree):
        share = 1 if p is None else max(1, len([x for x in tree_nodes(tree) if x[1] == p]))
        width[i] = units if p is None else max(1, -(-width[p] // (share if rng.random() < 0.7 else 1)))
    cats = []
    for i in range(total):
        c = cnt[i] if cnt else 1
        if signs == "classic":
            lo, hi = (0, scale * weight) if i == root else (-scale, 0)
        else:
            lo, hi = rng.choice([(0, scale), (-scale, 0), (-scale, scale), (-scale // 2, scale * weight)])
        spread = rng.random()
        n_i = width.get(i, 2) * c
        n_i += rng.randint(-1, 2) if spread < 0.7 else rng.randint(-n_i, n_i) if spread < 0.9 else 0
        cats.append(values_bulk(rng, max(0, n_i), lo, hi))
    leaves = [i for (i, p, kids) in tree_nodes(tree) if not kids and p is not None]
    if rng.random() < 0.08 and leaves and scale <= 1000:    # large values that nearly cancel
        one = cnt or [1] * total
        lcm = math.lcm(*[one[i] for i in leaves])
        b = rng.randint(1, 2000000 // (lcm * max(one) * depth)) if lcm * max(one) * depth <= 2000000 else 0
        cats[root] = [v + b * lcm for v in cats[root]]
        for i in leaves:
            cats[i] = [v - b * lcm // one[i] * one[root] for v in cats[i]]
    if rng.random() < 0.08:                                # fractions (a dyadic grain)
        grain = rng.choice([2, 4, 8, 16, 64, 1024])
        cats = [[v + rng.choice([0, 0, 1, -1, rng.randint(-grain, grain)]) / grain for v in c] for c in cats]
    elif rng.random() < .02:                               # zeros of both signs
        cats = [[v or rng.choice([0, 0.0, -0.0]) for v in c] for c in cats]
    if distinct:
        cats = make_distinct(cats, rng)
    return {"tree": tree, "cats": cats, "counts": cnt}


def tree_large_bulk(counts=False, distinct=False, count_choices=(1, 1, 2, 3)):
    """Recipe-trees with tens to hundreds of agents of each category, most of which trade."""
    def f(rng):
        tree, n = tree_bulk(rng, rng.choice([2, 3, 4, 6]), max_depth=4) if rng.random() < .9 else tree_bulk(rng, *rng.choice([(8, False, 8, False), (12, False, 3, True), (7, True, 7, False), (10, False, 5, False)]))
        mixed = counts if isinstance(counts, bool) else rng.random() < counts
        cnt = [rng.choice(count_choices) for _ in range(n)] if mixed else None
        one = cnt or [1] * n
        units = rng.choice([rng.randint(10, 30), rng.randint(20, 50), rng.randint(40, 120)]) if rng.random() < .94 or n > 6 else rng.randint(257, 400)
        scale = rng.choice([30, 1000, 100000])
        weight = max(len(p) for p in tree_paths(tree))
        nodes = tree_nodes(tree)
        width = {}
        for (i, p, kids) in nodes:
            share = 1 if p is None else len([x for x in nodes if x[1] == p])
            width[i] = units if p is None else max(2, -(-width[p] // share))
        cats = [None] * n
        low = rng.choice([0, scale // 2])
        for (i, p, kids) in nodes:
            m = max(0, width[i] * one[i] + rng.choice([0, rng.randint(-2, 2), rng.randint(-3, width[i])]))
            lo, hi = (low, scale * weight * max(1, sum(one) // (n * one[i]))) if p is None else (-scale, 0 if rng.random() < .9 else scale // 3)
            cats[i] = values_bulk(rng, m, lo, hi)
        if rng.random() < .1:                                # categories outside of the tree
            cats.append(values_bulk(rng, rng.choice([0, 1, rng.randint(0, 2 * units)]), -scale, scale))
            cnt = cnt and cnt + [rng.choice(count_choices)]
        if not distinct:
            lone = (cnt or [1] * len(cats))
            cats = spice(rng, cats, [lone[i] if i < n else 0 for i in range(len(cats))], None if rng.random() < .3 or n == 1 else tree[0], 2 * 10 ** 7)
        return {"tree": tree, "cats": make_distinct(cats, rng) if distinct else cats, "counts": cnt}
    return f


def make_distinct(cats, rng=None):
    """Make all the values pairwise distinct (by scaling and perturbing), keeping them far below 10^8."""
    seen, out = set(), []
    top = max([abs(v) for vals in cats for v in vals] + [1])
    mult = max(1, min(1024, int(2000000 // top)))
    for vals in cats:
        new = []
        for v in vals:
            v = int(v) * mult + (rng.randint(0, mult - 1) if rng else 0)
            while v in seen:
                v += 1
            seen.add(v)
            new.append(v)
        out.append(new)
    return out


def prune_leaf(tree, path=()):
    """All the trees obtained by removing one leaf (but not the root)."""
    idx, sub = tree
    if sub is None:
        return
    for i in range(0, len(sub), 2):
        if sub[i + 1] is None:
            rest = sub[:i] + sub[i + 2:]
            yield [idx, rest or None]
        else:
            for new in prune_leaf(sub[i:i + 2]):
                yield [idx, sub[:i] + new + sub[i + 2:]]


def shrink_tree(case):
    for t in prune_leaf(case["tree"]):
        yield dict(case, tree=t)
    if case.get("counts"):
        for i, c in enumerate(case["counts"]):
            if c > 1:
                yield dict(case, counts=case["counts"][:i] + [1] + case["counts"][i + 1:])
    for new in shrink_values(case["cats"]):
        yield dict(case, cats=new)
