"""Reference models of the documented mechanisms, in exact rational arithmetic, written from the papers' descriptions
(no code of /repo is used here). Each returns (number of deals, [sorted values of the selected agents per category], [prices])."""
from fractions import Fraction as F
import math

BOUND = F(10 ** 8)     # the documented bound on the agents' values


def desc(values):
    return sorted((F(v) for v in values), reverse=True)


def mcafee(cats, heuristic=True):
    """McAfee (1992), one agent of each category per deal."""
    srt = [desc(c) for c in cats]
    k = 0
    while all(len(s) > k for s in srt) and sum(s[k] for s in srt) >= 0:
        k += 1
    if k == 0:
        return 0, [[] for _ in srt], [F(0)] * len(srt)
    last = [s[k - 1] for s in srt]
    if heuristic and all(len(s) > k for s in srt):
        p = sum(abs(s[k]) for s in srt) / len(srt)
        seller = [v < 0 or (v == 0 and any(w > 0 for w in last)) for v in last]
        if all(v >= (-p if q else p) for v, q in zip(last, seller)):
            return k, [s[:k] for s in srt], [-p if q else p for q in seller]
    return k - 1, [s[:k - 1] for s in srt], last


def trade_reduction(cats, recipe, with_zero=True):
    """The generalized trade-reduction with external competition (SBB external competition)."""
    srt = [desc(c) for c in cats]
    n = len(recipe)
    k = 0
    while all(len(srt[i]) >= (k + 1) * recipe[i] for i in range(n)) and sum(sum(srt[i][k * recipe[i]:(k + 1) * recipe[i]]) for i in range(n)) >= 0:
        k += 1
    if k == 0:
        return 0, [[] for _ in srt], [F(0)] * n
    m = k
    if all(len(srt[i]) >= (k + 1) * recipe[i] for i in range(n)):
        m = k + 1          # the first procurement-set with a negative gain competes too
    outside = [srt[i][m * recipe[i]:] for i in range(n)]       # the agents outside of all these procurement-sets
    # the order in which agents are examined: worst procurement-set first; inside it, by category, lowest agent first
    order = [(i, d * recipe[i] + a) for d in range(m - 1, -1, -1) for i in range(n) for a in range(recipe[i] - 1, -1, -1)]
    for pos, (i, rank) in enumerate(order):
        value = srt[i][rank]
        rivals = [(outside[j][0] if outside[j] else -BOUND) for j in range(n)]
        others = sum(rivals[j] * recipe[j] for j in range(n) if j != i)
        gain = others + value * recipe[i]
        if gain > 0 or (gain == 0 and with_zero):
            prices = list(rivals)
            prices[i] = -others / recipe[i]
            keep = [[] for _ in range(n)]
            for (q, r) in order[pos:]:
                keep[q].append(srt[q][r])
            keep = [sorted(v, reverse=True) for v in keep]
            return min(len(keep[q]) // recipe[q] for q in range(n) if recipe[q]), keep, prices
        outside[i] = sorted(outside[i] + [value], reverse=True)
    return 0, [[] for _ in srt], [F(0)] * n


def ascending(cats, recipe):
    """The ascending-prices auction for a single recipe: always raise the price of a category that supports the largest number
    of deals (the first such category) until its lowest agent leaves or the price-sum is zero."""
    n = len(recipe)
    left = [desc(c) for c in cats]
    used = [i for i in range(n) if recipe[i] > 0]
    prices = [-BOUND] * n
    while True:
        i = max(used, key=lambda j: (F(len(left[j]), recipe[j]), -j))
        if not left[i]:
            break
        others = sum(prices[j] * recipe[j] for j in used if j != i)
        if others + left[i][-1] * recipe[i] >= 0:
            prices[i] = -others / recipe[i]
            break
        prices[i] = left[i].pop()
    return min(len(left[i]) // recipe[i] for i in used), left, prices


# ---------------------------------------------------------------- trees

def kids_of(struct):
    sub = struct[1]
    return [] if sub is None else [sub[i:i + 2] for i in range(0, len(sub), 2)]


def paths_of(struct):
    if struct[1] is None:
        return [[struct[0]]]
    return [[struct[0]] + p for kid in kids_of(struct) for p in paths_of(kid)]


def clock_categories(struct, sizes, counts):
    """The categories whose prices increase: a node, if it supports more deals than all its children together (or they are
    all empty), and otherwise such categories of each child."""
    i = struct[0]
    kids = kids_of(struct)
    below = sum(-(-sizes[kid[0]] // counts[kid[0]]) for kid in kids)
    if F(sizes[i], counts[i]) > below or below == 0:
        return [i]
    return [c for kid in kids for c in clock_categories(kid, sizes, counts)]


def capacity(struct, sizes, counts):
    own = sizes[struct[0]] // counts[struct[0]]
    kids = kids_of(struct)
    return min(own, sum(capacity(kid, sizes, counts) for kid in kids)) if kids else own


def tree_auction(cats, struct, counts, initial_prices, margin=None):
    """The ascending-prices auction over a recipe-tree: all the clock categories' prices increase simultaneously, at speeds that
    keep the price-sums of all the recipes equal, until some lowest agent leaves or the price-sum is zero.
    With a margin, None if two of these events are so close that rounded prices may not tell which is first."""
    n = len(cats)
    counts = counts or [1] * n
    left = [desc(c) for c in cats]
    prices = [F(p) for p in initial_prices]
    path = paths_of(struct)[0]
    while True:
        sizes = [len(v) for v in left]
        if sizes[struct[0]] == 0:
            break
        clock = clock_categories(struct, sizes, counts)
        gap = -sum(prices[i] * counts[i] for i in path)
        steps = [(left[i][-1] - prices[i]) * counts[i] for i in clock if left[i]]
        step = min(steps + [gap])
        if margin is not None and sum(s - step <= margin for s in steps + [gap]) > 1:
            return None
        for i in clock:
            prices[i] += step / counts[i]
        if step == gap:
            break
        for i in clock:
            if left[i] and left[i][-1] <= prices[i]:
                left[i].pop()
    return capacity(struct, [len(v) for v in left], counts), left, prices


# ---------------------------------------------------------------- the archived auctions (old/)

def multi_buyer(cats, counts):
    """Buyers of several categories (an agent of category i buys counts[i] units) and, in the last category, sellers of a unit.
    Alternately, the price per unit of the buyers and of the sellers increases until they demand, and offer, at most the target
    number of units, which decreases by one each time."""
    buyers, sellers = [desc(c) for c in cats[:-1]], desc(cats[-1])
    live = [i for i, c in enumerate(counts) if c > 0]
    pb = ps = -BOUND

    def demand():
        return sum(len(buyers[i]) * counts[i] for i in live)
    target = min(demand(), len(sellers))
    stopped = False
    while not stopped:
        while not stopped:
            d = demand()
            if d == 0:
                stopped = True
            elif d <= target:
                break
            else:
                i = min((i for i in live if buyers[i]), key=lambda i: buyers[i][-1] / counts[i])
                new = buyers[i][-1] / counts[i]
                if new + ps >= 0:
                    pb, stopped = -ps, True
                else:
                    pb = new
                    buyers[i].pop()
        while not stopped:
            if not sellers:
                stopped = True
            elif len(sellers) <= target:
                break
            elif sellers[-1] + pb >= 0:
                ps, stopped = -pb, True
            else:
                ps = sellers.pop()
        target -= 1
    return min(demand(), len(sellers)), buyers + [sellers], [pb * c for c in counts] + [ps]


def multi_recipe(cats, recipes, initial):
    """Recipes of ones, each category in one of them ("unique") or in all of them ("common").  Either the largest common category or
    the largest unique category of each recipe raise their prices, at the same speed, until an agent leaves or the price-sums are
    zero.  A recipe of which this category is empty is dropped, and the auction starts again."""
    n = len(cats)
    while True:
        left = [desc(c) for c in cats]
        prices = [None if p is None else F(p) for p in initial(recipes)]
        in_recipes = [[r for r in range(len(recipes)) if recipes[r][i]] for i in range(n)]
        common = [i for i in range(n) if len(in_recipes[i]) == len(recipes) and len(recipes) > 1]
        unique = [[i for i in range(n) if in_recipes[i] == [r]] for r in range(len(recipes))]
        dropped = None

        def size(i):
            return len(left[i])
        while True:
            top = [max(u, key=size) for u in unique]
            if sum(map(size, top)) == 0:
                break
            big = max(common, key=size) if common else None
            if common and size(big) >= sum(map(size, top)):
                clock = [big]
            else:
                clock = top
                empty = [r for r, i in enumerate(top) if not left[i]]
                if empty:
                    dropped = empty[0]
                    break
            gap = -sum(prices[i] for i in range(n) if recipes[0][i])
            step = min([left[i][-1] - prices[i] for i in clock] + [gap])
            for i in clock:
                prices[i] += step
            if step == gap:
                break
            for i in clock:
                if left[i][-1] <= prices[i]:
                    left[i].pop()
        if dropped is None:
            break
        recipes = recipes[:dropped] + recipes[dropped + 1:]
    deals = sum(min(map(size, u)) for u in unique)
    if common:
        deals = min([deals] + [size(i) for i in common])
    return deals, left, prices, recipes
