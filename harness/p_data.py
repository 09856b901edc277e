"""Where the experiments' agents come from: stock prices, random distributions, and the shapes of recipe-trees."""
import bisect, collections, contextlib, copy, io, math, os, random, shutil, tempfile
from fractions import Fraction as F
from core import Facet, Property, require
import gen
from adapt import AgentCategory
from p_experiment import preorder, replaced
with contextlib.redirect_stdout(io.StringIO()):
    import get_stocks_data as data_module
    import tree_calculations


# ---------------------------------------------------------------- stock prices

TYPES = ["High", "Close", "Open", "Low"]


# The module's constants that name the folder of stocks, and the contents of its containers when it was loaded
STOCK_FOLDERS = [name for name, value in vars(data_module).items()
                 if name == "STOCKS" or not name.startswith("__") and isinstance(value, str) and value.rstrip("/\\").endswith("stocks")]
LOADED = {name: (value, copy.copy(value)) for name, value in vars(data_module).items()
          if not name.startswith("__") and type(value) in (dict, list, set, collections.OrderedDict, collections.defaultdict)}


def forget_stocks():
    """Whatever the module remembers of the stocks it has read is forgotten."""
    for name, (container, contents) in LOADED.items():
        setattr(data_module, name, container)
        container.clear()
        (container.extend if isinstance(container, list) else container.update)(contents)
    for value in list(vars(data_module).values()):
        if callable(getattr(value, "cache_clear", None)):
            value.cache_clear()


@contextlib.contextmanager
def stock_files(stocks):
    """A scratch directory with a CSV file of every stock, in place of the repository's directory of stocks."""
    path = tempfile.mkdtemp(prefix="verif-stocks-")
    try:
        for name, rows in stocks.items():
            with open(os.path.join(path, name + ".csv"), "w") as f:
                f.write("Date,Open,High,Low,Close,Adj Close,Volume\n")
                for j, r in enumerate(rows):
                    f.write("2020-01-%02d,%s,%s,%s,%s,%s,%d\n" % (j % 28 + 1, r["Open"], r["High"], r["Low"], r["Close"], r["Close"] + 1, 1000 + j))
        os.mkdir(os.path.join(path, "directory.csv"))     # not a file: ignored
        with contextlib.ExitStack() as stack:
            for name in STOCK_FOLDERS:
                stack.enter_context(replaced(data_module, name, path))
            forget_stocks()
            yield path
    finally:
        shutil.rmtree(path)


def column(rows, t):
    """The prices in thousandths, exactly"""
    return [F(r[t]) * 1000 for r in rows]


def plain(values):
    return sorted(int(v) for v in values)


def same_prices(got, want, tolerance=1):
    """Whether the integers are the given prices: exactly where these are integers, and else up to the digits below a thousandth (of each of the prices added up)."""
    return len(got) == len(want) and all(abs(g - w) <= (0 if w.denominator == 1 else tolerance) for g, w in zip(sorted(got), sorted(want)))


def used_once(got, pool):
    """Whether every value is one of the prices, each used at most once (up to the digits below a thousandth)"""
    pool, j = sorted(pool), 0
    for g in sorted(got):
        while j < len(pool) and pool[j] < g and (pool[j].denominator == 1 or g - pool[j] > 1):
            j += 1
        if j == len(pool) or pool[j] - g > (0 if pool[j].denominator == 1 else 1):
            return False
        j += 1
    return True


def all_int(cats):
    for c in cats:
        for v in c:
            require(float(v) == int(v), "the price {!r} is not an integer", v)


def recipe_data_run(case):
    if not STOCK_FOLDERS:
        return ["not observed"]
    recipe = tuple(case["recipe"])
    with stock_files(case["stocks"]):
        result, names = data_module.getStocksPrices(recipe)
    require(sorted(names) == sorted(case["stocks"]), "the stocks are {} instead of {}", names, sorted(case["stocks"]))
    require(len(result) == len(names), "{} lists of prices for {} stocks", len(result), len(names))
    labels = []
    for prices, name in zip(result, names):
        rows = case["stocks"][name]
        high, close, open_, low = (column(rows, t) for t in TYPES)
        require(len(prices) == len(recipe), "{} categories for recipe {}", len(prices), recipe)
        all_int(prices)
        got = [plain(c) for c in prices]
        n = len(rows)
        minus = lambda v: sorted(-x for x in v)
        both = lambda a, b: [x + y for x, y in zip(a, b)]
        tolerance = 2
        if recipe == (1, 1):
            want = [sorted(high + close), minus(open_ + low)]
        elif recipe == (2, 1):
            want = [sorted(high + close), minus(both(open_, low))]
        elif recipe == (1, 2):
            want = [sorted(both(high, close)), minus(open_ + low)]
        elif recipe == (2, 1, 1):
            want = [sorted(high + close), minus(open_), minus(low)]
        elif len(recipe) == 3 and len(set(recipe)) == 1:
            want = [sorted(both(high, close)), minus(open_), minus(low)]
        else:
            tolerance = rest = sum(recipe) - recipe[0]
            want = [sorted([p * rest for p in high + close] * recipe[0])]
            labels.append("general recipe")
            sellers = minus(open_ + low)
            if any(0 < abs(x - y) <= 2 for x, y in zip(sellers, sellers[1:])):
                continue        # the prices cannot be told apart up to a thousandth
            # every seller is one of the prices
            of = {g: min(sellers, key=lambda x: abs(x - g)) for c in got[1:] for g in set(c)}
            for c in range(1, len(recipe)):
                require(len(got[c]) == 2 * n * recipe[c], "category {} of recipe {} has {} sellers for {} prices", c, recipe, len(got[c]), 2 * n)
                want.append([of[g] for g in got[c]])
            for v in set(sellers):       # every price is used once for every category of sellers, wherever it is used
                uses = sum(F(want[c].count(v), recipe[c]) for c in range(1, len(recipe)))
                require(uses == (len(recipe) - 1) * sellers.count(v), "recipe {}: the seller's price {} is used {} times", recipe, v, uses)
            if len(recipe) == 2:
                want[1] = sorted(sellers * recipe[1])
        for c in range(len(recipe)):
            require(same_prices(got[c], want[c], tolerance if c == 0 or len(recipe) == 2 else 1),
                    "stock {}: the prices for category {} of recipe {} are {} instead of {}", name, c, recipe, got[c], want[c])
        labels += ["nontrivial", "recipe %s" % (recipe,)]
    return labels


def shuffled_data_run(case):
    if not STOCK_FOLDERS:
        return ["not observed"]
    labels = []
    with stock_files(case["stocks"]):
        random.seed(case["seed"])
        result, names = data_module.getStocksPricesShuffled()
        again, names2 = data_module.getStocksPricesShuffled()
    require(sorted(names) == sorted(case["stocks"]) and names == names2, "the stocks are {} and {}", names, names2)
    for which in (result, again):
        for prices, name in zip(which, names):
            rows = case["stocks"][name]
            want = sorted(p for t in TYPES for p in column(rows, t))
            all_int([prices])
            require(same_prices(plain(prices), want), "stock {}: the shuffled prices are {} instead of {}", name, sorted(prices), want)
            labels.append("nontrivial")
            if len(set(want)) >= 12:
                straight = [p for t in TYPES for p in column(rows, t)]
                require(list(prices) != [int(p) for p in straight] and list(prices) != [int(p) for p in want], "stock {}: the prices are not shuffled", name)
                labels.append("shuffled")
    return labels


def tree_data_run(case):
    if not STOCK_FOLDERS:
        return ["not observed"]
    counts, values = case["counts"], case["values"]
    with stock_files(case["stocks"]):
        random.seed(case["seed"])
        result, names = data_module.getStocksTreePrices(case["tree"], list(counts), list(values))
    require(sorted(names) == sorted(case["stocks"]), "the stocks are {} instead of {}", names, sorted(case["stocks"]))
    labels = []
    for prices, name in zip(result, names):
        rows = case["stocks"][name]
        pool = [p for t in TYPES for p in column(rows, t)]
        require(len(prices) == len(counts), "{} categories instead of {}", len(prices), len(counts))
        used = []
        for c, got in enumerate(prices):
            share = F(len(pool)) / sum(F(x) for x in counts) * F(counts[c])
            require(share - 1 <= len(got) <= share, "category {} of agent counts {} has {} of {} prices", c, counts, len(got), len(pool))
            for v in got:
                p = F(v) / F(values[c]) * (1 if c == 0 else -1)
                require(p >= 0, "category {} has a value {} of the wrong sign", c, v)
                used.append(p)
        require(used_once(used, pool), "stock {}: the values {} are not prices, each used once", name, prices)
        labels += ["nontrivial", "several shares" if len(set(counts)) > 1 else "equal shares"]
        if len(set(pool)) >= 12 and len(used) >= 12:
            require([int(p) for p in used] != [int(p) for p in pool[:len(used)]], "stock {}: the prices are not shuffled", name)
    return labels


def some_stocks(rng, min_rows=0, long=False):
    stocks = {}
    long = long and rng.random() < .006       # years of prices
    names = ["A", "AA", "AAL", "aal", "T", "XYZ", "BRK.A", "BRK.B", "BF-A", "BF-B", "BRK", "csv", "T_1", "T 1", ".T", "0700", "700"]
    family = rng.choice([names, names[:4], names[6:8] + ["BRK"], ["BF-A", "BF-B"], ["T", "T_1", "T 1", ".T"], ["0700", "700"]])
    for name in rng.sample(family, rng.randint(1, min(3, len(family)))):
        top = rng.choice([3, 100, 4000])
        price = rng.choice([lambda: rng.randint(8, top * 8) / 8, lambda: rng.randint(8, top * 8) / 8, lambda: round(rng.uniform(1, top), 6), lambda: round(rng.uniform(.01, 2 * top), 3)])
        rows = []
        for _ in range(rng.choice([max(min_rows, 1), rng.randint(min_rows, 8), rng.randint(min_rows, 8), 25]) if not long else rng.randint(1001, 1600)):
            rows.append({t: price() for t in TYPES})
        stocks[name] = rows
    return stocks


def recipe_data_case(rng):
    recipe = rng.choice([[1, 1], [2, 1], [1, 2], [2, 1, 1], [1, 1, 1], [2, 2, 2], [1, 3], [3, 1], [2, 2], [2, 3], [1, 2, 2], [1, 2, 3], [1, 1, 1, 1], [1, 2, 3, 4], [1, 1, 1, 1, 1],
                         [rng.randint(1, 4) for _ in range(rng.choice([2, 3, 3, 3, 4]))]])
    return {"recipe": recipe, "stocks": some_stocks(rng, 1, recipe in ([1, 1], [2, 1], [1, 2], [2, 1, 1], [1, 1, 1], [2, 2, 2]))}


def shuffled_data_case(rng):
    return {"stocks": some_stocks(rng, long=True), "seed": rng.randint(0, 10 ** 9)}


def tree_data_case(rng):
    tree, n = preorder(gen.tree_bulk(rng, max_nodes=6)[0])
    counts = [rng.choice([1, 1, 1, 2, 3, .5]) for _ in range(n)]
    return {"tree": tree, "counts": counts, "values": [rng.choice([1, 1, 2, .5, 4]) for _ in range(n)], "stocks": some_stocks(rng, long=True), "seed": rng.randint(0, 10 ** 9)}


# ---------------------------------------------------------------- random categories

def drawn(case):
    kind, n = case["kind"], case["n"]
    random.seed(case["seed"])
    a = case["args"]
    make = {"uniform": AgentCategory.uniformly_random, "normal": AgentCategory.normalvariate_random, "gamma": AgentCategory.gammavariate_random,
            "pareto": AgentCategory.paretovariate_random}[kind]
    return make(case["name"], n, *a)


def gamma_share(alpha, y):
    """The share of values below y in the gamma distribution (of scale one), for whole and half shapes"""
    i = .5 if alpha != int(alpha) else 1
    share = math.erf(math.sqrt(y)) if i == .5 else 1 - math.exp(-y)
    while i < alpha:
        share -= y ** i * math.exp(-y) / math.gamma(i + 1)
        i += 1
    return share


def random_category_run(case):
    kind, n, a = case["kind"], case["n"], case["args"]
    c = drawn(case)
    require(c.name == case["name"] and str(c).startswith(case["name"] + ": "), "the category is called {!r} instead of {!r}", c.name, case["name"])
    v = list(c.values)
    require(c.size() == n and len(v) == n, "{} agents were drawn instead of {}", len(v), n)
    require(all(isinstance(x, int) for x in v), "a value is not an integer: {}", v)
    require(v == sorted(v, reverse=True), "the agents are not sorted: {}", v)
    require(list(drawn(case).values) == v, "the values differ for the same random seed")
    other = list(drawn(dict(case, seed=case["seed"] + 1)).values)
    labels = [kind, "nontrivial"] if n else ["empty"]
    big = n >= 300
    if kind == "uniform":
        lo, hi = min(a), max(a)
        require(all(lo - .5 <= x <= hi + .5 for x in v), "values {} are not between {} and {}", v, lo, hi)
        cdf = lambda x: 0 if x < lo else 1 if x >= hi else (x - lo) / (hi - lo)
    else:
        sign = a[0]
        require(all(x * sign >= 0 for x in v), "values {} have a sign other than {}", v, sign)
        if kind == "pareto":
            require(all(abs(x) >= round(abs(sign)) - 1 for x in v), "a value is below the minimum {}: {}", abs(sign), v)
        size = {"normal": lambda x: .5 * (math.erf((x - a[1]) / a[2] / 2 ** .5) - math.erf((-x - a[1]) / a[2] / 2 ** .5)),
                "gamma": lambda x: gamma_share(a[1], x / a[2]),
                "pareto": lambda x: 1 - x ** -a[1] if x >= 1 else 0}[kind]
        positive = lambda x: size(x) if x > 0 else 0
        cdf = (lambda x: positive(x / sign)) if sign > 0 else lambda x: 1 - positive(x / sign)
    if big:
        # Dvoretzky-Kiefer-Wolfowitz: larger distances between the shares and the distribution have a probability below 1e-13
        bound = (math.log(2e13) / 2 / n) ** .5
        up = v[::-1]
        for x in sorted(set(v)):
            below = bisect.bisect_right(up, x) / n
            require(abs(below - cdf(x + .5)) <= bound + 1e-9, "{} of the values are at most {} instead of {}", below, x, cdf(x + .5))
            under = bisect.bisect_left(up, x) / n
            require(abs(under - cdf(x - .5)) <= bound + 1e-9, "{} of the values are below {} instead of {}", under, x, cdf(x - .5))
        # the agents are independent: hardly any of the rare values is drawn twice
        rare = [x for x in set(v) if n * (cdf(x + .5) - cdf(x - .5)) < .05]
        copies = sum(bisect.bisect_right(up, x) - bisect.bisect_left(up, x) - 1 for x in rare)
        require(copies <= n / 6, "{} of {} agents have the value of another one, although each of these values is rare", copies, n)
        if len(rare) > n / 2:
            labels.append("rare values")
    if big:
        labels.append("distribution")
        if len(set(v)) > 20:
            require(other != v, "two random seeds give the same {} values", n)
    return labels


def random_category_case(rng):
    kind = rng.choice(["uniform", "uniform", "normal", "gamma", "pareto"])
    n = rng.choice([0, 1, 2, 5, 20, 300, 600, 1500])
    if rng.random() < .05:
        n = rng.randint(1500, 12000)
    if kind == "uniform":
        lo = rng.choice([-1000, -5, 0, 1, rng.randint(-10 ** 6, 10 ** 6), rng.uniform(-100, 100)])
        args = [lo, lo + rng.choice([0, 1, 3, 10, 1000, 10 ** 6, .5])]
    else:
        sign = rng.choice([1, -1, 2, -100, 1000, -1000, .5, -3.5, 10 ** 6, -2 ** 20])
        if kind == "normal":
            sigma = rng.choice([1, 2, 5, 50, 200])
            args = [sign, sigma * rng.choice([0, 1, -1, rng.randint(-6, 6), rng.randint(6, 20)]), sigma]
        elif kind == "gamma":
            args = [sign, rng.choice([1, 2, 5, 9, .5, 2.5]), rng.choice([1, 10, 100])]
        else:
            args = [sign, rng.choice([1, 2, 3.5, .25, .6])]
    return {"kind": kind, "n": n, "args": args, "name": rng.choice(["buyers", "seller", "", "x"]), "seed": rng.randint(0, 10 ** 9)}


# ---------------------------------------------------------------- shapes of recipe-trees

def shape_run(case):
    tree, n = case["tree"], case["n"]
    before = repr(tree)
    sizes = tree_calculations.get_agents_analyze(tree)
    kids = tree_calculations.get_children_counts(tree, sizes)
    depth_size = tree_calculations.get_depth_and_agents_size(tree)
    require(repr(tree) == before, "the recipe-tree was changed")
    nodes = {}

    def rec(sub, d):
        for j in range(0, len(sub), 2):
            nodes[sub[j]] = (d, 0 if sub[j + 1] is None else len(sub[j + 1]) // 2)
            if sub[j + 1] is not None:
                rec(sub[j + 1], d + 1)
    rec(tree, 1)
    height = max(d for d, _ in nodes.values())
    require(tuple(depth_size) == (height, n - 1), "the depth and largest category are {} instead of {}", depth_size, (height, n - 1))
    require(len(sizes) == n, "sizes {} for {} categories", sizes, n)
    for c, (d, k) in nodes.items():
        want = height - 1 if c == 0 else height + 1 - d if k == 0 else 1
        require(sizes[c] == want, "category {} of {} has the size {} instead of {}", c, tree, sizes[c], want)
        require(kids[c] == max(k, 1), "category {} of {} has {} children instead of {}", c, tree, kids[c], max(k, 1))
    for c in set(range(n)) - set(nodes):
        require(kids[c] == 0, "category {} is not in the tree {} but has {} children", c, tree, kids[c])
    require(len(kids) == n, "numbers of children {} for {} categories", kids, n)
    # for a root 0: every path of a deal has as many agents as the tree's levels (counting the agents of the leaf)
    return ["nontrivial" if height > 2 else "small"] + (["root 0"] if tree[0] == 0 else ["other root"])


def shape_case(rng):
    tree, n = gen.tree_bulk(rng, max_nodes=12, max_depth=6) if rng.random() < .95 else gen.tree_bulk(rng, max_nodes=30, max_depth=rng.choice([3, 20]), wide=rng.random() < .5)
    if rng.random() < .3:       # some categories are not in the recipe-tree
        names = sorted(rng.sample(range(n + rng.randint(0, 4)), n))
        rename = lambda sub: None if sub is None else [x for j in range(0, len(sub), 2) for x in (names[sub[j]], rename(sub[j + 1]))]
        tree, n = rename(tree), names[-1] + 1
    return {"tree": tree, "n": n}


PROPERTIES = {
    "stock-data": lambda: Property("stock-data", "non-trivial: the prices of at least one stock were loaded", [
        Facet("per recipe", recipe_data_run, bulk=recipe_data_case, quick=3000, thorough=100000),
        Facet("shuffled", shuffled_data_run, bulk=shuffled_data_case, quick=2000, thorough=60000),
        Facet("recipe-trees", tree_data_run, bulk=tree_data_case, quick=2000, thorough=60000),
    ]),
    "random-agents": lambda: Property("random-agents", "non-trivial: at least one agent was drawn", [
        Facet("distributions", random_category_run, bulk=random_category_case, quick=16000, thorough=400000),
    ]),
    "tree-shapes": lambda: Property("tree-shapes", "non-trivial: the recipe-tree has at least three levels", [
        Facet("shapes", shape_run, bulk=shape_case, quick=40000, thorough=1000000),
    ]),
}
