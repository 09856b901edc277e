"""Building the inputs of /repo's functions from JSON cases, and reading their outcomes."""
import contextlib, io, sys, zlib
from core import require, Violation
with contextlib.redirect_stdout(io.StringIO()):
    from agents import AgentCategory
    from markets import Market
    import trade as trade_module
    import mcafee_protocol, trade_reduction_protocol, ascending_auction_protocol
    import ascending_auction_recipetree_protocol as rt_protocol
    import ascending_auction_recipetree_integer_protocol as ri_protocol
    import recipetree, recipetree_integer
    import prices, prices_integer
from oracle import F, isnum

TOL = 1e-6


def default_names(cats):
    """Mostly c0, c1, ..., but (depending on the agents) sometimes equal names: names have no meaning."""
    n, h = len(cats), zlib.crc32(repr([c[:2] for c in cats]).encode()) % 24
    if h < 2:
        return [["agent"] * n, ["buyer"] + ["seller"] * (n - 1)][h]
    return ["c%d" % i for i in range(n)] if h > 3 else [["c%d" % (n - i) for i in range(n)], ["%s%d" % ("cC "[i % 3], i // 3) for i in range(n)]][h - 2]


def market_of(cats, names=None):
    names = names or default_names(cats)
    return Market([AgentCategory(names[i], list(c)) for i, c in enumerate(cats)])


def snapshot(market):
    return [list(c.values) for c in market.categories]


def run_mcafee(market, recipe, **kw):
    return mcafee_protocol.mcafee_trade_reduction(market, recipe, **kw)


def run_tr(market, recipe, **kw):
    return trade_reduction_protocol.budget_balanced_trade_reduction(market, recipe, **kw)


def run_asc(market, recipe, **kw):
    return ascending_auction_protocol.budget_balanced_ascending_auction(market, recipe, **kw)


SINGLE = {
    "mcafee": lambda m, r: run_mcafee(m, r),
    "mcafee_plain": lambda m, r: run_mcafee(m, r, price_heuristic=False),
    "tr": lambda m, r: run_tr(m, r),
    "tr_strict": lambda m, r: run_tr(m, r, including_gft_0=False),
    "asc": lambda m, r: run_asc(m, r),
}


def run_tree(kind, market, tree, counts=None):
    if kind == "rt":
        return rt_protocol.budget_balanced_ascending_auction(market, tree)
    return ri_protocol.budget_balanced_ascending_auction(market, tree, counts)


class Outcome:
    """A validated reading of an auction's outcome through its public attributes: categories, prices, num_of_deals()."""
    def __init__(self, trade, n):
        require(len(trade.categories) == n, "outcome has {} categories instead of {}", len(trade.categories), n)
        self.k = trade.num_of_deals()
        require(isinstance(self.k, int) and self.k >= 0, "num_of_deals() is {!r}", self.k)
        self.values = [list(c.values) for c in trade.categories]
        for vals in self.values:
            for v in vals:
                require(isnum(v), "an agent in the outcome has value {!r}", v)
        require(trade.prices is not None or self.k == 0, "{} deals but no prices", self.k)
        self.prices = list(trade.prices) if trade.prices is not None else [0] * n
        require(len(self.prices) == n, "outcome has {} prices instead of {}", len(self.prices), n)

    def check_prices(self, used):
        for i in used:
            require(isnum(self.prices[i]), "price of category {} is {!r}", i, self.prices[i])


def tolerance(prices):
    return 2e-6 + 1e-12 * max([abs(p) for p in prices] + [0])


def submultiset(part, whole):
    pool = {}
    for v in whole:
        pool[v] = pool.get(v, 0) + 1
    for v in part:
        if pool.get(v, 0) == 0:
            return False
        pool[v] -= 1
    return True


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield
