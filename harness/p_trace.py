"""What the mechanisms say about themselves while they run (the trace that the demonstrations of the repository print).
The trace is replayed: each message that is recognized must state what is true at that point of the run, and all of them together must
lead from the given market to the returned outcome.  Messages that are not recognized (because they are worded in another way) are ignored."""
import ast, logging, math, re
from core import Facet, Property, require
import gen
from adapt import market_of, quiet, mcafee_protocol, trade_reduction_protocol, ascending_auction_protocol, rt_protocol, ri_protocol, prices, prices_integer
from oracle import F
from p_robust import variants, go, stress_single, stress_tree
from p_single import used
from p_tree import clock, build

MODULES = {"mcafee": mcafee_protocol, "mcafee_plain": mcafee_protocol, "tr": trade_reduction_protocol, "tr_strict": trade_reduction_protocol,
           "asc": ascending_auction_protocol, "rt": rt_protocol, "ri": ri_protocol}
NUM = r"(-?(?:[0-9.]+(?:e[-+]?[0-9]+)?|inf))"
NUMBERS = r"(\[.*?\]|\(.*?\))"


class Tape(logging.Handler):
    def __init__(self):
        super().__init__(logging.INFO)
        self.lines = []

    def handle(self, record):
        self.lines.append(record.getMessage())


class taped:
    def __init__(self, variant):
        self.modules = [MODULES[variant], prices, prices_integer]

    def __enter__(self):
        self.tape = Tape()
        self.saved = []
        for m in self.modules:
            l = getattr(m, "logger", None)
            if isinstance(l, logging.Logger):
                self.saved.append((l, l.level, list(l.handlers), l.propagate))
                l.handlers, l.propagate = [self.tape], False
                l.setLevel(logging.INFO)
        return self.tape

    def __exit__(self, *args):
        for l, level, handlers, propagate in self.saved:
            l.handlers, l.propagate = handlers, propagate
            l.setLevel(level)


def text_of(names, left):
    return "Traders: [" + ", ".join("{}: {}".format(n, v) for n, v in zip(names, left)) + "]"


def literal(text):
    try:
        return ast.literal_eval(text)
    except (ValueError, SyntaxError):
        return None


class Replay:
    """The state of a run, as its trace tells it."""
    def __init__(self, variant, case, market, trade):
        self.variant, self.case, self.trade = variant, case, trade
        self.names = [c.name for c in market.categories]
        self.left = [list(c.values) for c in market.categories]
        self.outcome = [list(c.values) for c in trade.categories]
        self.prices = list(trade.prices) if trade.prices is not None else None
        self.last = {}              # the last price that was told for each category
        self.first = True           # no market was told yet
        self.facts = {}
        self.vector = self.chosen = self.planned = None
        self.looking = self.deal = self.rest = self.previous = None
        self.any_name = "(" + "|".join(re.escape(n) for n in sorted(self.names, key=len, reverse=True)) + ")"

    def fact(self, kind, ok, line, *why):
        self.facts[kind] = self.facts.get(kind, 0) + 1
        require(ok, "{}: the trace says {!r}, but {}", self.variant, line, " ".join(map(str, why)))

    def leave(self, i, line):
        require(self.left[i], "{}: the trace says {!r}, but category {} was empty", self.variant, line, i)
        return self.left[i].pop()

    def match(self, pattern, line):
        return re.fullmatch(pattern.replace("NAME", self.any_name).replace("NUMBERS", NUMBERS).replace("NUM", NUM), line, re.S)

    def optimum(self):
        """(gain, number of deals) of the optimal trade.  That it is optimal is another property (C05, C12); with values that are no
        multiples of a power of two the sums are rounded, and the exact optimum may have another number of deals."""
        m = market_of(self.case["cats"], self.names)
        if self.case.get("recipe"):
            deals = m.optimal_trade(list(self.case["recipe"]))[0].procurement_sets
            return sum(F(v) for d in deals for v in d), len(deals)
        _, k, gain = build(self.variant, m.categories, self.case["tree"], self.case["counts"]).optimal_trade()
        return gain, k

    def remaining(self):
        """Trade reduction: the agents that may compete, before any agent was removed from trade."""
        if self.rest is None:
            recipe = self.case["recipe"]
            trade, market = market_of(self.case["cats"], self.names).optimal_trade(list(recipe))
            self.deals = [tuple(d) for d in trade.procurement_sets]
            first = market.get_highest_agents(recipe)
            if first:
                self.deals.append(tuple(first))
                market.remove_highest_agents(recipe)
            self.rest = [list(c.values) or [-100000000] for c in market.categories]
        return self.rest

    def close(self, a, b, size=0):
        return abs(F(a) - F(b)) <= 1e-9 * (1 + size + sum(abs(v) for c in self.case["cats"] for v in c))

    # -------------------------------------------------- messages

    def about_prices(self, line):
        m = self.match(r" *Prices before increase: NUMBERS", line)
        if m:
            now = literal(m[1])
            if now is not None:
                if self.vector is not None:
                    self.fact("prices", now == self.vector, line, "the prices were", self.vector)
                self.vector = list(now)
            return
        m = self.match(r" *Increases per recipe: NUMBERS", line)
        if m:
            self.fact("increases", all(x == 1 for x in literal(m[1]) or []), line, "there must be one per recipe")
            return
        m = self.match(r"NAME: price increases to NUM", line)
        if m:
            i, p = self.names.index(m[1]), float(m[2])
            low = self.left[i][-1] if self.left[i] else math.inf
            self.fact("price", p == low, line, "the lowest agent of the category has value", low)
            return self.tell(i, p)
        m = self.match(r"NAME: while increasing price towards NUM, stopped at NUM where (.*)", line)
        if m:
            i, target, p, where = self.names.index(m[1]), float(m[2]), float(m[3]), m[4]
            low = self.left[i][-1] if self.left[i] else math.inf
            self.fact("target", target == low, line, "the lowest agent of the category has value", low)
            self.fact("stopped", p <= target + 1e-6, line, "it is beyond the target")
            crossed = re.fullmatch(r"the price-sum crossed " + NUM, where)
            if crossed:
                self.fact("bound", float(crossed[1]) == 0, line, "the bound is 0")
                if self.prices is not None:
                    self.fact("stopped at the bound", p == self.prices[i], line, "the outcome has price", self.prices[i])
            self.tell(i, p)

    def tell(self, i, p):
        self.last[i] = p
        if self.vector is not None:
            self.vector[i] = p

    def about_run(self, line):
        if self.match(r"Traders: \[.*\]", line):
            want = text_of(self.names, self.left)
            self.fact("market" if not self.first else "given market", line == want, line, "the market is", want)
            self.first = False
            return
        for pattern, what in ((r"Procurement-set recipe: (.*)", "recipe"), (r"Procurement-set recipe struct: (.*)", "tree"), (r"Procurement-set recipe agent counts: (.*)", "counts")):
            m = self.match(pattern, line)
            if m and literal(m[1]) is not None:
                return self.fact(what, literal(m[1]) == self.case[what], line, "it is", self.case[what])
        m = self.match(r"Tree of recipes: (.*)", line)
        if m and literal(m[1]) is not None:
            want = [[self.names[i] for i in p] for p in gen.tree_paths(self.case["tree"])]
            return self.fact("paths", literal(m[1]) == want, line, "the paths are", want)
        m = self.match(r"Procurement-set recipes: (.*)", line)
        if m and literal(m[1]) is not None:
            counts = self.case["counts"] or [1] * len(self.names)
            want = [[counts[i] if i in p else 0 for i in range(len(counts))] for p in gen.tree_paths(self.case["tree"])]
            return self.fact("recipes", literal(m[1]) == want, line, "the recipes are", want)
        m = self.match(r"\s*(?:For comparison, the o|O)ptimal trade.*: (\d+) deals: NUMBERS\s*", line)
        if m:
            best, k1 = self.optimum()
            deals = literal(m[2])
            self.fact("optimum", int(m[1]) == k1, line, "the optimal trade has", k1, "deals")
            if deals is not None:
                self.fact("optimal deals", len(deals) == k1 and self.close(sum(F(v) for d in deals for v in d), best), line, "the optimal trade has", k1, "deals with a gain of", best)
            return
        m = self.match(r"For comparison, the optimal trade has k=(\d+), GFT=NUM: NUMBERS\s*", line)
        if m:
            best, k1 = self.optimum()
            return self.fact("optimum", int(m[1]) == k1 and abs(float(m[2]) - best) <= 2e-6 + 1e-9 * sum(abs(v) for c in self.case["cats"] for v in c), line, "the optimal trade has", k1, "deals with a gain of", float(best))
        m = self.match(r"\s*Final price-per-unit vector: (\[.*?\]).*", line)
        if m and literal(m[1]) is not None and self.prices is not None:
            return self.fact("final prices", literal(m[1]) == self.prices, line, "the prices of the outcome are", self.prices)
        getattr(self, {"asc": "about_clock", "rt": "about_tree", "ri": "about_tree", "tr": "about_reduction", "tr_strict": "about_reduction"}.get(self.variant, "about_mcafee"))(line)

    def about_clock(self, line):
        recipe = self.case["recipe"]
        m = self.match(r"Chosen category: NAME with (\d+) agents and ratio NUM", line)
        if m:
            i, sizes = self.names.index(m[1]), list(map(len, self.left))
            self.fact("chosen", int(m[2]) == sizes[i] and float(m[3]) == sizes[i] / recipe[i] and F(sizes[i]) / recipe[i] == max(F(sizes[j]) / recipe[j] for j in used(recipe)), line,
                      "the categories have", sizes, "agents and the recipe is", recipe)
            return
        m = self.match(r"\s*NAME price increases to NUM: (\d+) agents and ratio NUM", line)
        if m:
            i = self.names.index(m[1])
            v = self.leave(i, line)
            n = len(self.left[i])
            self.fact("increase", v == float(m[2]) and n == int(m[3]) and n / recipe[i] == float(m[4]), line, "an agent of value", v, "leaves and", n, "remain of", recipe[i], "per deal")
            return
        m = self.match(r"\s*The NAME category became empty - no trade!", line)
        if m:
            i = self.names.index(m[1])
            self.fact("no trade", not self.left[i] and self.trade.num_of_deals() == 0, line, "the market is", self.left, "and there are", self.trade.num_of_deals(), "deals")

    def about_tree(self, line):
        n = len(self.names)
        m = self.match(r"Largest category indices are (\[.*\])\. Largest category size = (-?\d+), combined category size = (-?\d+)", line)
        if m and literal(m[1]) is not None:
            largest, own, chosen = clock(self.case["tree"], list(map(len, self.left)), self.case["counts"] or [1] * n)
            self.chosen = chosen
            return self.fact("clock", (literal(m[1]), int(m[2]), int(m[3])) == (chosen, math.floor(largest), math.floor(own)), line, "they are", chosen, largest, own)
        m = self.match(r"Planned price-increases: (\[.*\])", line)
        if m and self.chosen is not None:
            want = [(i, self.left[i][-1] if self.left[i] else math.inf, self.names[i]) for i in self.chosen]
            return self.fact("plan", m[1] == str(want), line, "it must be", want)
        m = self.match(r"NAME after: (\d+) agents remain", line)
        if m:
            i = self.names.index(m[1])
            v = self.leave(i, line)
            self.fact("left", int(m[2]) == len(self.left[i]) and (i not in self.last or v <= self.last[i]), line, "an agent of value", v, "leaves at price", self.last.get(i), "and", len(self.left[i]), "remain")

    def about_reduction(self, line):
        recipe = self.case["recipe"]
        m = self.match(r"Remaining market(?: is now)?: (.*)", line)
        if m:
            want = text_of(self.names, self.remaining())
            real = text_of(self.names, [[v for v in c if v != -100000000] for c in self.remaining()])    # (without the agents that stand for none)
            return self.fact("remaining market", m[1] in (want, real), line, "it is", want)
        m = self.match(r"\s*Calculating prices for PS NUMBERS:", line) or self.match(r"\s*Prices for PS NUMBERS are NUMBERS", line)
        if m:
            self.deal = literal(m[1])
            if self.deal is not None:
                deal = tuple(self.deal)
                self.remaining()
                self.fact("deal", deal in self.deals, line, "the deals that were not told before are", self.deals)
                self.deals.remove(deal)
                self.fact("order of deals", self.previous is None or self.close(max(0, sum(map(F, self.previous)) - sum(map(F, deal))), 0), line, "the deal before it is", self.previous)
                self.previous = deal
            if len(m.groups()) > 1 and literal(m[2]) is not None:
                self.fact("final prices", list(literal(m[2])) == self.prices, line, "the prices of the outcome are", self.prices)
            return
        m = self.match(r"\s*Looking for external competition to NAME with value NUM:", line)
        if m:
            self.looking = (self.names.index(m[1]), float(m[2]))
            i, v = self.looking
            start = sum(recipe[:i])
            if self.deal is not None:
                self.fact("looking", v in self.deal[start:start + recipe[i]], line, "the deal is", self.deal)
            return
        m = self.match(r"\s*[bB]est PS is NUMBERS,NUMBERS with GFT NUM\. It is (positive|negative) .*", line)
        if m and self.looking:
            ps, r, gain = literal(m[1]), literal(m[2]), float(m[3])
            i, v = self.looking
            if ps is not None:
                best = [v if j == i else c[0] for j, c in enumerate(self.remaining())]
                self.fact("best", list(r) == list(recipe) and list(ps) == best and self.close(sum(F(x) * y for x, y in zip(ps, recipe)), gain, sum(abs(x) * y for x, y in zip(ps, recipe))), line, "the recipe is", recipe, "and the best agents", best)
                self.fact("sign", gain >= -1e-9 if m[4] == "positive" else gain <= 1e-9, line, "the gain is", gain)
            return
        m = self.match(r"\s*Prices are NUMBERS", line)
        if m and literal(m[1]) is not None:
            return self.fact("final prices", list(literal(m[1])) == self.prices, line, "the prices of the outcome are", self.prices)
        m = self.match(r"\s*Remove NAME NUM from trade and add to remaining market", line)
        if m and self.looking:
            self.fact("removed", (self.names.index(m[1]), float(m[2])) == self.looking, line, "the agent is", self.looking)
            i, v = self.looking
            v = next((x for x in self.deal if x == v), v) if self.deal else v    # (as it is written: an integer or not)
            self.remaining()[i].append(v)
            self.rest[i].sort(reverse=True)
            return
        m = self.match(r"No trade|.* agents trade and pay .*", line)
        if m:
            self.fact("result", line == repr(self.trade), line, "the outcome is", repr(self.trade))

    def about_mcafee(self, line):
        m = self.match(r"First negative PS: NUMBERS, candidate price: NUM", line)
        if m and literal(m[1]) is not None:
            ps = literal(m[1])
            k1 = self.optimum()[1]
            rest = [sorted(c, reverse=True)[k1:] for c in self.case["cats"]]
            self.fact("first negative", all((c[0] if c else -100000000) == v for c, v in zip(rest, ps)) and abs(float(sum(abs(F(v)) for v in ps) / len(ps)) - float(m[2])) <= 1e-9 * float(m[2]), line, "the remaining agents are", rest)


def trace_run(case):
    labels = []
    for variant in variants(case):
        n = len(case["cats"])
        m = market_of(case["cats"], case["names"])
        with quiet(), taped(variant) as tape:
            t = go(variant, m, case)
        r = Replay(variant, case, market_of(case["cats"], case["names"]), t)
        for line in tape.lines:
            r.about_prices(line)
            r.about_run(line)
        if variant in ("asc", "rt", "ri"):
            if r.facts.get("increase") or r.facts.get("left"):
                require(r.left == r.outcome, "{}: by the trace the agents {} remain, but the outcome has {}", variant, r.left, r.outcome)
                labels.append("agents leave")
            if r.prices is not None:
                for i, p in r.last.items():
                    require(p == r.prices[i], "{}: by the trace the price of category {} is {}, but in the outcome it is {}", variant, i, p, r.prices[i])
        labels += ["{}: {}".format(variant, kind) for kind in r.facts]
        if len(r.facts) >= 3:
            labels.append("nontrivial")
        labels.append("%s%s" % (variant, ", deals" if t.num_of_deals() else ", no deal"))
    return labels


def with_names(bulk):
    def f(rng):
        case = bulk(rng)
        n = len(case["cats"])
        case["names"] = rng.choice([["c%d" % i for i in range(n)], ["c%d" % (n - i) for i in range(n)], ["buyer", "seller of b", "mediator"][:n] + ["x%d" % i for i in range(3, n)], ["Buyer %d." % (i + 1) for i in range(n)]])
        return case
    return f


def single(rng):
    if rng.random() < .3:
        return stress_single(rng)
    return gen.market_bulk(rng, gen.recipe_bulk(rng, rng.choice(["ones", "int"]), zeros=True))


def tree(rng):
    if rng.random() < .3:
        return stress_tree(rng)
    return gen.tree_market_bulk(rng, max_nodes=8, counts=rng.random() < 0.5)


PROPERTIES = {
    "trace": lambda: Property("trace", "non-trivial: at least three kinds of facts were told and checked", [
        Facet("single recipes", trace_run, bulk=with_names(single), shrink=gen.shrink_market, quick=6000, thorough=150000),
        Facet("recipe-trees", trace_run, bulk=with_names(tree), shrink=gen.shrink_tree, quick=4000, thorough=100000),
    ]),
}
