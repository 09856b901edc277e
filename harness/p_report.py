"""The printed reports of trades state who trades, how many, and at which prices."""
from core import Facet, Property, require
import gen, models
from adapt import (AgentCategory, SINGLE, market_of, run_tree, quiet, trade_module, Outcome, recipetree, recipetree_integer)
from p_market import clone, groups
from p_tree import build, bulk_tree
from p_single import used
import oracle


def name_of(case, i):
    return case["names"][i] if "names" in case else "c%d" % i


def single_text(cats, recipe, prices, names):
    k = min(len(cats[i]) // r for i, r in enumerate(recipe) if r > 0)
    if k == 0:
        return "No trade"
    lines = []
    for i, r in enumerate(recipe):
        if r > 0:
            m, n = k * r, len(cats[i])
            who = "all {}".format(n) if m == n else "random {} out of {}".format(m, n)
            lines.append("{}: {}: {} agents trade and pay {}".format(names[i], cats[i], who, prices[i]))
    return "\n".join(lines)


def single_report_run(case):
    cats, recipe = case["cats"], case["recipe"]
    names = case["names"]
    labels = []
    t = trade_module.TradeWithSinglePrice([AgentCategory(names[i], list(c)) for i, c in enumerate(cats)], list(recipe), list(case["prices"]))
    want = single_text([sorted(c, reverse=True) for c in cats], recipe, case["prices"], names)
    for text in (repr(t), str(t), "{}".format(t)):
        require(text == want, "the trade is printed as\n{}\ninstead of\n{}", text, want)
    k = t.num_of_deals()
    deals = groups(cats, recipe, k)
    b = trade_module.TradeWithMaterialBalance(deals)
    require(repr(b) == "{} deals: {}".format(k, deals), "{} is printed as {}", deals, b)
    for variant in ("tr", "asc") if all(recipe) else ("asc",):
        t = SINGLE[variant](market_of(cats, names), list(recipe))
        o = Outcome(t, len(cats))
        want = single_text(o.values, recipe, o.prices, names)
        require(repr(t) == want, "{} is printed as\n{}\ninstead of\n{}", variant, t, want)
        if o.k:
            labels.append("nontrivial")
        if "random" in want:
            labels.append("random selection")
    return labels


def single_report_case(rng):
    case = gen.market_bulk(rng, gen.recipe_bulk(rng, rng.choice(["ones", "int"]), zeros=True))
    n = len(case["cats"])
    case["prices"] = [rng.choice([0, 1, -3, 2.5, -1e8, rng.randint(-99, 99) / 4]) for _ in range(n)]
    case["names"] = [rng.choice(["buyer", "seller", "mediator %d" % i, "", "x: y", "%s", "{}"]) for i in range(n)]
    return case


def tree_text(struct, sizes, counts, names, prices, unit):
    """(number of deals, text) of a node"""
    i = struct[0]
    kids = models.kids_of(struct)
    own = sizes[i] // counts[i]
    if not kids:
        return own, "{}: {} potential deals, price={}\n".format(names[i], own, prices[i])
    below = [tree_text(kid, sizes, counts, names, prices, unit) for kid in kids]
    offered = sum(b[0] for b in below)
    k = min(own, offered)
    text = "".join(b[1] for b in below)
    if k * counts[i] == sizes[i]:
        text += "{}: all {} traders selected, price={}\n".format(names[i], sizes[i], prices[i])
    else:
        text += "{}: {} out of {} traders selected, price={}\n".format(names[i], k * counts[i], sizes[i], prices[i])
    kid_names = " + ".join(names[kid[0]] for kid in kids)
    if k == offered:
        text += "{}: all {} {} selected\n".format(kid_names, offered, unit)
    else:
        text += "{}: {} out of {} {} selected\n".format(kid_names, k, offered, unit)
    return k, text


def leaf_numbers(struct, sizes, counts):
    if struct[1] is None:
        return [sizes[struct[0]] // counts[struct[0]]]
    return [x for kid in models.kids_of(struct) for x in leaf_numbers(kid, sizes, counts)]


def tree_report_run(case):
    tree, cats, counts, n = case["tree"], case["cats"], case["counts"], len(case["cats"])
    cnt = counts or [1] * n
    names = case["names"]
    labels = []
    for kind in (["rt", "ri"] if counts is None else ["ri"]):
        unit = "traders" if kind == "rt" else "deals"
        # a report of arbitrary categories and prices
        t = build(kind, [AgentCategory(names[i], list(c)) for i, c in enumerate(cats)], tree, counts)
        sizes = [len(c) for c in cats]
        k, text = tree_text(tree, sizes, cnt, names, case["prices"], unit)
        got = t.num_of_deals_explained(list(case["prices"]))
        want = text + "{} deals overall\n".format(k)
        require(got[0] == k and got[1] == want, "{}: the deals are explained as ({})\n{}\ninstead of ({})\n{}", kind, got[0], got[1], k, want)
        got = t.num_of_deals_explained(list(case["prices"]), add_num_of_overall_deals=False)
        require(got[1] == text, "{}: the deals are explained as\n{}\ninstead of\n{}", kind, got[1], text)
        # the report of an auction
        with quiet():
            t = run_tree(kind, market_of(cats, names), clone(tree), None if counts is None else list(counts))
        o = Outcome(t, n)
        sizes = [len(c) for c in o.values]
        k, text = tree_text(tree, sizes, cnt, names, o.prices, unit)
        want = "No trade" if k == 0 else text + "{} deals overall".format(k)
        require(repr(t) == want, "{}: the outcome is printed as\n{}\ninstead of\n{}", kind, t, want)
        leaves = leaf_numbers(tree, sizes, cnt)
        require(t.max_num_of_deals() == max(leaves), "{}: the largest number of deals of a leaf is {} instead of {}", kind, t.max_num_of_deals(), max(leaves))
        if k and min(leaves) > 0:
            require(t.min_num_of_deals() == min(leaves), "{}: the smallest number of deals of a leaf is {} instead of {}", kind, t.min_num_of_deals(), min(leaves))
        if k:
            labels += ["nontrivial", kind]
            labels.append("randomization" if " out of " in want else "no randomization")
    return labels


def tree_report_case(rng):
    case = gen.tree_market_bulk(rng, max_nodes=8, counts=rng.random() < 0.6)
    n = len(case["cats"])
    case["prices"] = [rng.choice([0, 1, -3, 2.5, -1e8, rng.randint(-99, 99) / 4]) for _ in range(n)]
    case["names"] = [rng.choice(["buyer", "seller", "producer %d" % i, "", "x: y", "%s", "{}"]) for i in range(n)]
    return case


def tree_report_large(rng):
    case = gen.tree_large_bulk(.5)(rng)
    n = len(case["cats"])
    if rng.random() < .3:       # whole numbers of deals
        size = rng.choice([257, 300, rng.randint(1, 400)])
        case["cats"] = [(c * size + [0] * size)[:size] for c in case["cats"]]
    return dict(case, prices=[rng.randint(-99, 99) / 4 for _ in range(n)], names=["c%d" % i for i in range(n)])


PROPERTIES = {
    "reports": lambda: Property("reports", "non-trivial: some outcome with at least one deal was printed", [
        Facet("single recipes", single_report_run, bulk=single_report_case, quick=24000, thorough=700000),
        Facet("recipe-trees", tree_report_run, bulk=tree_report_case, shrink=gen.shrink_tree, quick=10000, thorough=350000),
        Facet("large recipe-trees", tree_report_run, bulk=tree_report_large, shrink=gen.shrink_tree, quick=200, thorough=6000),
    ]),
}
