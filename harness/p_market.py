"""The market data model, the optimal trade, trade accounting, input isolation and validation."""
import random, sys
from core import Facet, Property, require, Violation, REPO
import gen, oracle
from adapt import (AgentCategory, Market, market_of, default_names, snapshot, trade_module, SINGLE, run_tree, Outcome, quiet, recipetree, recipetree_integer,
                   prices, prices_integer, tolerance)
from oracle import F
from p_single import used
import p_single

# ------------------------------------------------------------------ optimal trade


def groups(cats, recipe, k):
    srt = [sorted(c, reverse=True) for c in cats]
    return [tuple(v for i, r in enumerate(recipe) for v in srt[i][d * r:(d + 1) * r]) for d in range(k)]


def optimal_run(case):
    cats, recipe, cap = gen.scaled(case)[1], case["recipe"], case.get("cap")
    OPT, k0, k1 = oracle.optimal_single(cats, recipe)
    labels = p_single.classify(cats, recipe, k1, None)
    for include in (True, False, None):
        m = market_of(cats)
        before = snapshot(m)
        kw = {} if include is None else {"include_zero_gft_ps": include}
        if cap is not None:
            kw["max_iterations"] = cap
        trade, rest = m.optimal_trade(list(recipe), **kw)
        require(snapshot(m) == before, "optimal_trade changed the market")
        want = k0 if include is False else k1
        if cap is not None:
            want = min(want, cap)
        require(trade.num_of_deals() == want, "optimal trade (include_zero_gft_ps={}, max_iterations={}) has {} deals instead of {}", include, cap, trade.num_of_deals(), want)
        deals = [tuple(ps) for ps in trade.procurement_sets]
        require(len(deals) == want, "{} deals are listed, num_of_deals is {}", len(deals), want)
        sums = [sum(ps) for ps in deals]
        require(all(a <= b for a, b in zip(sums, sums[1:])), "the deals are not in increasing order of their gain: {}", sums)
        total = sum(F(v) for ps in deals for v in ps)
        if cap is None:
            require(total == OPT, "the optimal trade has gain {} instead of {}", total, OPT)
        require(F(trade.gain_from_trade()) == total, "gain_from_trade() is {} instead of {}", trade.gain_from_trade(), total)
        best = groups(cats, recipe, want)
        require(sorted(deals) == sorted(best), "the deals are {} instead of {}", deals, best)
        srt = [sorted(c, reverse=True) for c in cats]
        require([c.values for c in rest.categories] == [srt[i][want * r:] for i, r in enumerate(recipe)], "the remaining market is {}", rest)
        require([c.name for c in rest.categories] == [c.name for c in m.categories], "the remaining market has other names")
        if want:
            labels.append("nontrivial")
        if k0 != k1:
            labels.append("zero-gain deals")
        # the results are not aliased with the market
        for c in rest.categories:
            c.append(12345)
        require(snapshot(m) == before, "the remaining market shares its agents with the market")
    return labels


def optimal_bulk(kind):
    def f(rng):
        case = gen.market_bulk(rng, gen.recipe_bulk(rng, kind, zeros=True))
        if rng.random() < 0.2:
            case["cap"] = rng.randint(0, 6)
        return case
    return f


# ------------------------------------------------------------------ market model

def model_case(rng):
    n = rng.randint(1, 4)
    hi = rng.choice([3, 10, 1000])

    def val():
        return rng.randint(-hi, hi) / rng.choice([1, 1, 1, 4])
    most = 5 if rng.random() < .85 else 60
    counts = [0, 1, 1, 1, 2, 3]
    if rng.random() < .3:
        counts, most = counts + [4, 5, 6, 8, 12], max(most, rng.choice([6, 10, 20, 40]))
    cats = [[val() for _ in range(rng.randint(0, most))] for _ in range(n)]
    ops = []
    for _ in range(rng.randint(3, 14) if rng.random() < .95 else rng.randint(15, 50)):
        kind = rng.choice(["append", "append", "append_list", "append_trader", "append_PS", "append_PS_bad", "pop_high", "pop_low", "pop_many", "get", "get",
                           "remove", "clone", "clone_cat", "empty", "best", "own"])
        ops.append([kind, rng.randrange(8), rng.randrange(n), val(), [val() for _ in range(rng.randint(0, 3 if rng.random() < .95 else most))], [val() for _ in range(n)],
                    [rng.choice(counts) for _ in range(n)]])
    return {"cats": cats, "ops": ops}


def model_run(case):
    """Every operation is applied to one of several markets (the original and its clones) and to a model of sorted lists."""
    n = len(case["cats"])
    raw = [list(c) for c in case["cats"]]
    m0 = Market([AgentCategory("c%d" % i, c) for i, c in enumerate(raw)])
    worlds = [(m0, [sorted(c, reverse=True) for c in raw])]
    labels = []

    def compare(step):
        for (m, model) in worlds:
            require(len(m.categories) == n and m.num_categories == n, "{}: wrong number of categories", step)
            for i, c in enumerate(m.categories):
                require(list(c.values) == model[i], "after {}: category {} holds {} instead of {}", step, i, c.values, model[i])
                require(c.size() == len(model[i]) and len(c) == len(model[i]), "after {}: wrong size {} of {}", step, c.size(), model[i])
                require(str(c) == "c{}: {}".format(i, model[i]) and repr(c) == str(c), "after {}: printed as {}", step, c)
                if model[i]:
                    require(c.highest_agent_value() == max(model[i]) and c.lowest_agent_value() == min(model[i]), "after {}: highest {} lowest {} of {}", step, c.highest_agent_value(), c.lowest_agent_value(), model[i])
                for q in (0, 1, 2, 7, 30):
                    require(list(c.highest_agent_values(q)) == model[i][:q], "after {}: {} highest values of {}: {}", step, q, model[i], c.highest_agent_values(q))
            require(m.has_empty_category() == any(not v for v in model), "after {}: has_empty_category() is {} for {}", step, m.has_empty_category(), model)
            require(str(m) == "Traders: [" + ", ".join("c{}: {}".format(i, v) for i, v in enumerate(model)) + "]", "after {}: printed as {}", step, m)
    require(raw == case["cats"], "constructing a category changed the caller's list")
    raw[0].append(99999)
    compare("construction")
    smallest = min(len(c) for c in case["cats"])
    require(getattr(m0, "size_of_smallest_category", smallest) == smallest, "the size of the smallest category is {} instead of {}", getattr(m0, "size_of_smallest_category", None), smallest)
    for (kind, w, i, v, vs, ps, recipe) in case["ops"]:
        m, model = worlds[w % len(worlds)]
        c = m.categories[i]
        step = kind
        if kind == "append":
            c.append(v)
            model[i] = sorted(model[i] + [v], reverse=True)
        elif kind == "append_list":
            given = list(vs)
            c.append(given)
            require(given == vs, "append changed the caller's list")
            model[i] = sorted(model[i] + vs, reverse=True)
        elif kind == "append_trader":
            m.append_trader(i, v)
            model[i] = sorted(model[i] + [v], reverse=True)
        elif kind == "append_PS":
            m.append_PS(list(ps))
            for q in range(n):
                model[q] = sorted(model[q] + [ps[q]], reverse=True)
        elif kind == "append_PS_bad":
            for bad in (ps + [v], ps[:-1]):
                try:
                    m.append_PS(bad)
                except ValueError:
                    continue
                raise Violation("append_PS accepted {} values for {} categories".format(len(bad), n))
        elif kind == "pop_high" and model[i]:
            c.remove_highest_agent()
            model[i] = model[i][1:]
        elif kind == "pop_low" and model[i]:
            c.remove_lowest_agent()
            model[i] = model[i][:-1]
        elif kind == "pop_many" and len(model[i]) >= recipe[i]:
            c.remove_highest_agents(recipe[i])
            model[i] = model[i][recipe[i]:]
        elif kind in ("get", "remove"):
            enough = all(len(model[q]) >= recipe[q] for q in range(n))
            got = m.get_highest_agents(list(recipe))
            if enough:
                require(got is not None and tuple(got) == tuple(x for q in range(n) for x in model[q][:recipe[q]]), "get_highest_agents({}) of {} is {}", recipe, model, got)
                if kind == "remove":
                    m.remove_highest_agents(list(recipe))
                    for q in range(n):
                        model[q] = model[q][recipe[q]:]
            else:
                require(got is None, "get_highest_agents({}) of {} is {} instead of None", recipe, model, got)
        elif kind == "clone" and len(worlds) < 4:
            worlds.append((m.clone(), [list(x) for x in model]))
            labels.append("clones")
        elif kind == "clone_cat":
            other = c.clone()
            require(other.name == c.name and list(other.values) == model[i], "clone of {} is {}", c, other)
            other.append(v)
            require(len(other) == len(model[i]) + 1, "clone")
        elif kind == "empty":
            e = m.empty_agent_categories()
            require([x.name for x in e] == [x.name for x in m.categories] and all(len(x) == 0 for x in e), "empty_agent_categories: {}", e)
            for x in e:
                x.append(v)
            require(all(list(x.values) == [v] for x in e), "empty_agent_categories share their agents: {}", e)
        elif kind == "own":     # the lists that are asked for belong to the caller
            got = c.highest_agent_values(len(model[i]) if recipe[i] else len(vs))
            if isinstance(got, list):
                got.reverse()
                got += vs
        elif kind == "best" and all(model[q] or q == i for q in range(n)):
            got = m.best_containing_PS(i, v)
            require(tuple(got) == tuple(v if q == i else model[q][0] for q in range(n)), "best_containing_PS({},{}) of {} is {}", i, v, model, got)
        compare(step)
    if len(case["ops"]) >= 4:
        labels.append("nontrivial")
    return labels


# ------------------------------------------------------------------ accounting

def accounting_case(rng):
    recipe = gen.recipe_bulk(rng, "int", zeros=True)
    case = gen.market_bulk(rng, recipe)
    scale = rng.choice([3, 100, 100000])
    case["prices"] = [rng.randint(-scale, scale) / rng.choice([1, 1, 2, 3]) for _ in recipe]
    case["queries"] = [rng.randrange(3) for _ in range(rng.randint(1, 6))]
    return case


def accounting_large(rng):
    case = (p_single.large if rng.random() < .7 else p_single.huge)("int", True)(rng)
    case["prices"] = [rng.randint(-1000, 1000) / rng.choice([1, 1, 2, 3]) for _ in case["recipe"]]
    case["queries"] = [rng.randrange(3) for _ in range(rng.randint(1, 6))]
    return case


def shrink_questions(case):
    for i in range(len(case["queries"])):
        yield dict(case, queries=case["queries"][:i] + case["queries"][i + 1:])
    for smaller in p_single.shrink_huge(case):
        yield smaller


def accounting_run(case):
    cats, recipe, p = case["cats"], case["recipe"], case["prices"]
    m = market_of(cats)
    t = trade_module.TradeWithSinglePrice(m.categories, list(recipe), list(p))
    k = min(len(cats[i]) // recipe[i] for i in used(recipe))
    require(t.num_of_deals() == k, "num_of_deals() is {} instead of {}", t.num_of_deals(), k)
    total = sum((F(k * recipe[i]) / len(cats[i]) * sum(F(v) for v in cats[i]) for i in used(recipe)), F(0)) if k else F(0)
    paid = sum((F(p[i]) * k * recipe[i] for i in used(recipe)), F(0)) if k else F(0)
    tol = 1e-9 * (1 + sum(abs(v) for c in cats for v in c) + sum(abs(x) * k * r for x, r in zip(p, recipe)))
    seen = {}
    for q in case["queries"]:
        args = {0: {}, 1: {"including_auctioneer": True}, 2: {"including_auctioneer": False}}[q]
        got, want = t.gain_from_trade(**args), total - paid if q == 2 else total
        require(abs(got - float(want)) <= tol, "gain_from_trade({}) is {} instead of {} (after the questions {})", args, got, float(want), case["queries"])
        require(seen.setdefault(q == 2, got) == got, "gain_from_trade({}) is {} and then {}", args, seen[q == 2], got)
    first = (t.num_of_deals(), t.gain_from_trade(), t.gain_from_trade(False), repr(t))
    require(first == (t.num_of_deals(), t.gain_from_trade(), t.gain_from_trade(False), repr(t)), "the answers of a trade change from {}", first)
    require(snapshot(m) == [sorted(c, reverse=True) for c in cats], "accounting changed the categories")
    deals = groups(cats, recipe, k)
    b = trade_module.TradeWithMaterialBalance(deals)
    require(b.num_of_deals() == k, "a materially-balanced trade of {} deals says it has {}", k, b.num_of_deals())
    require(F(b.gain_from_trade()) == sum(F(v) for d in deals for v in d), "gain of {} is {}", deals, b.gain_from_trade())
    return (["nontrivial"] if k else []) + p_single.classify(cats, recipe, k, None) + (["lottery"] if k and any(len(cats[i]) > k * recipe[i] for i in used(recipe)) else [])


# ------------------------------------------------------------------ isolation and determinism

def freeze(o):
    return (o.k, o.values, o.prices if o.k else None)


def answers(t, n):
    """Everything that an outcome says."""
    return freeze(Outcome(t, n)), t.gain_from_trade(), t.gain_from_trade(including_auctioneer=False), repr(t)


def makes_deals(got):
    """Whether the contents of an outcome tell of some deal."""
    if not got:
        return False
    return bool(got[0][0] if isinstance(got, tuple) and isinstance(got[0], tuple) else got[0])


def run_step(step, m, recipe, tree, counts, n):
    """(the trade, its contents) of a mechanism or of an optimal trade on the market m"""
    r, s, c = list(recipe), clone(tree), None if counts is None else list(counts)
    with quiet():
        if step in ("rt", "ri"):
            t = run_tree(step, m, s, c)
        elif step == "optimal":
            t = m.optimal_trade(r)[0]
        elif step == "tree_optimal":
            t = recipetree.RecipeTree(m.categories, s).optimal_trade_with_counters()
        elif step == "itree_optimal":
            t = recipetree_integer.RecipeTree(m.categories, s, c).optimal_trade_with_counters()
        elif step in ("tree_questions", "itree_questions"):
            t = recipetree.RecipeTree(m.categories, s) if step == "tree_questions" else recipetree_integer.RecipeTree(m.categories, s, c)
            t = (t.num_of_deals(), t.largest_categories(indices=True), t.num_of_deals_explained([j + .5 for j in range(n)]), t.paths_to_leaf(indices=True), t.recipes(), t.combined_values())
        else:
            t = SINGLE[step](m, r)
    require(r == recipe and s == tree and c == counts, "{} changed its recipe argument: {} {} {}", step, r, s, c)
    if step == "optimal":
        return t, [tuple(d) for d in t.procurement_sets]
    if step in ("tree_optimal", "itree_optimal"):
        return t, [t[1], t[2], t[3], t[4]]
    if step in ("tree_questions", "itree_questions"):
        return t, t
    return t, answers(t, n)


def isolation_run(case):
    """A sequence of mechanisms runs on one and the same market object; each gives the outcome it gives on a fresh market."""
    labels = []
    cats, recipe, tree, counts = case["cats"], case["recipe"], case["tree"], case["counts"]
    names = default_names(cats)
    shared = market_of(cats, names)
    before = snapshot(shared)
    require(before == [sorted(c, reverse=True) for c in cats], "the market holds {}", before)
    n = len(cats)
    kept = []
    now = [sorted(c, reverse=True) for c in cats]
    for step in case["steps"]:
        if isinstance(step, list):      # the market changes between the runs
            shared, now = edit(shared, now, step, recipe)
            before = snapshot(shared)
            require(before == now, "after {} the market holds {} instead of {}", step, before, now)
            labels.append("edited")
            continue

        def go(m):
            return run_step(step, m, recipe, tree, counts, n)
        state = random.getstate()
        t, got = go(shared)
        require(snapshot(shared) == before, "{} changed the market from {} to {}", step, before, snapshot(shared))
        _, want = go(market_of(now, names))
        require(got == want, "{} gives {} on a market that was used before and {} on a fresh one", step, got, want)
        require(random.getstate() == state, "{} changes the state of the random number generator", step)
        if makes_deals(got):
            labels.append("nontrivial")
        kept.append((step, t, got))
        if hasattr(t, "categories"):
            # the outcome belongs to the caller
            t2, _ = go(shared)
            for c in t2.categories:
                c.append(7)
                c.values.append(-7)
            if isinstance(t2.prices, list):
                t2.prices[:] = [77] * len(t2.prices)
            require(snapshot(shared) == before, "changing the outcome of {} changes the market", step)
            again = go(shared)[1]
            require(again == got, "after changing the outcome of {}, the next run gives {} instead of {}", step, again, got)
    for step, t, got in kept:
        if hasattr(t, "categories"):
            require(answers(t, n) == got, "the outcome of {} changed after other auctions: {} instead of {}", step, answers(t, n), got)
    return labels + ["%d steps" % len(case["steps"])]


class Interrupter:
    """Counts the lines that the code under test executes, and runs the given functions before some of them: the schedules of
    several threads, at the granularity of lines, in a single thread."""
    def __init__(self, at=()):
        self.count, self.at, self.error = 0, dict(at), None

    def __call__(self, frame, event, _arg):
        if not frame.f_code.co_filename.startswith(REPO):
            return None
        return self.line

    def line(self, frame, event, _arg):
        if event == "line":
            self.count += 1
            if self.count in self.at and self.error is None:
                try:
                    self.at[self.count]()
                except BaseException as e:
                    self.error = e
        return self.line

    def run(self, f):
        old = sys.gettrace()
        sys.settrace(self)
        try:
            return f()
        finally:
            sys.settrace(old)
            if self.error is not None:
                raise self.error


def interleaved_run(case):
    """A mechanism that is interrupted by others (on the same market or on another one) gives the outcome that it gives alone."""
    jobs = case["jobs"]
    alone = [run_step(j["step"], market_of(j["cats"]), j["recipe"], j["tree"], j["counts"], len(j["cats"]))[1] for j in jobs]
    markets = [market_of(jobs[j.get("on", i)]["cats"]) for i, j in enumerate(jobs)]
    markets = [markets[j.get("on", i)] for i, j in enumerate(jobs)]
    labels = ["same market" if jobs[1].get("on") == 0 else "two markets", jobs[0]["step"] + " interrupted"]

    def go(i):
        j = jobs[i]
        return run_step(j["step"], markets[i], j["recipe"], j["tree"], j["counts"], len(j["cats"]))
    counter = Interrupter()
    t, got = counter.run(lambda: go(0))
    require(got == alone[0], "{} gives {} and later {}", jobs[0]["step"], alone[0], got)
    if not counter.count:
        return ["not observed"]
    done = []

    def other(i):
        t, got = go(i)
        require(got == alone[i], "{} gives {} instead of {} when it runs while {} is running", jobs[i]["step"], got, alone[i], jobs[0]["step"])
        done.append((i, t))
    at = {1 + int(p * counter.count) % counter.count: (lambda i=i: other(i)) for i, p in zip(case["order"], case["points"])}
    t, got = Interrupter(at).run(lambda: go(0))
    require(got == alone[0], "{} gives {} instead of {} when it is interrupted by {}", jobs[0]["step"], got, alone[0], [jobs[i]["step"] for i, _ in done])
    for i, t in [(0, t)] + done:
        if hasattr(t, "categories"):
            require(answers(t, len(jobs[i]["cats"])) == alone[i], "the outcome of {} changes from {} to {} when other auctions are completed", jobs[i]["step"], alone[i], answers(t, len(jobs[i]["cats"])))
    for m, j in zip(markets, jobs):
        require(snapshot(m) == [sorted(c, reverse=True) for c in jobs[j["on"] if "on" in j else jobs.index(j)]["cats"]], "interleaved auctions changed the market to {}", snapshot(m))
    if done and all(makes_deals(a) for a in alone):
        labels.append("nontrivial")
    return labels + ["%d interruptions" % len(done)]


def interleaved_case(rng):
    first = isolation_case(rng)
    jobs = []
    same = rng.random() < .5
    for i in range(rng.choice([2, 2, 3])):
        src = first if i == 0 or same or rng.random() < .3 else isolation_case(rng)
        steps = [x for x in src["steps"] if isinstance(x, str)]
        step = rng.choice(steps) if i == 0 or rng.random() < .6 or (jobs[0]["step"].startswith("mcafee") and set(src["recipe"]) != {1}) else jobs[0]["step"]
        jobs.append({"step": step, "cats": src["cats"], "recipe": src["recipe"], "tree": src["tree"], "counts": src["counts"]})
        if i and same:
            jobs[i]["on"] = 0
    points = [rng.random() for _ in range(rng.choice([1, 1, 2, 3]))]
    return {"jobs": jobs, "points": points, "order": [rng.randrange(1, len(jobs)) for _ in points]}


def edit(market, model, step, recipe):
    """Another state of the market, by way of its public operations; the model is a list of sorted lists."""
    op, i, v = step
    model = [list(c) for c in model]
    i %= len(model)
    c = market.categories[i]
    if op == "append":
        c.append(v)
        model[i] = sorted(model[i] + [v], reverse=True)
    elif op == "append_list":
        c.append([v, v - 1, v + 2])
        model[i] = sorted(model[i] + [v, v - 1, v + 2], reverse=True)
    elif op == "append_trader":
        market.append_trader(i, v)
        model[i] = sorted(model[i] + [v], reverse=True)
    elif op == "append_PS":
        market.append_PS([v + q for q in range(len(model))])
        model = [sorted(m + [v + q], reverse=True) for q, m in enumerate(model)]
    elif op == "pop_high" and model[i]:
        c.remove_highest_agent()
        model[i] = model[i][1:]
    elif op == "pop_low" and model[i]:
        c.remove_lowest_agent()
        model[i] = model[i][:-1]
    elif op == "remove" and all(len(m) >= r for m, r in zip(model, recipe)):
        market.remove_highest_agents(list(recipe))
        model = [m[r:] for m, r in zip(model, recipe)]
    elif op == "clone":
        market = market.clone()
    elif op == "clone_cats":
        market = Market([c.clone() for c in market.categories])
    elif op == "rest":
        trade, market = market.optimal_trade(list(recipe))
        model = [m[trade.num_of_deals() * r:] for m, r in zip(model, recipe)]
    return market, model


def clone(struct):
    return [clone(x) if isinstance(x, list) else x for x in struct]


def tree_indices(tree):
    return {i for p in gen.tree_paths(tree) for i in p}


def isolation_case(rng):
    case = gen.tree_market_bulk(rng, max_nodes=5, counts=True, max_units=6) if rng.random() < .97 else gen.tree_large_bulk(True)(rng)
    n = len(case["cats"])
    if rng.random() < .5:       # counts are numbers of any kind of category, in the tree or not
        case["counts"] = [c if i in tree_indices(case["tree"]) else rng.choice([0, 1, 2, 5]) for i, c in enumerate(case["counts"])]
    ones = rng.random() < 0.5
    case["recipe"] = [1] * n if ones else [rng.randint(1, 3) if rng.random() < .9 else rng.randint(0, 9) for _ in range(n)]
    if not any(case["recipe"]):
        case["recipe"][0] = 1
    if rng.random() < 0.3:
        case["counts"] = None
    steps = ["tr", "tr_strict", "asc", "rt", "ri", "optimal", "tree_optimal", "itree_optimal", "tree_questions", "itree_questions"] + (["mcafee", "mcafee_plain"] if ones else [])
    case["steps"] = [rng.choice(steps) for _ in range(rng.randint(2, 5))]
    if rng.random() < .5:
        hi = 1 + max([abs(int(v)) for c in case["cats"] for v in c] + [2])
        for _ in range(rng.randint(1, 4)):
            op = rng.choice(["append", "append", "append_list", "append_trader", "append_PS", "pop_high", "pop_low", "remove", "clone", "clone_cats", "rest"])
            case["steps"].insert(rng.randint(0, len(case["steps"])), [op, rng.randrange(n), rng.randint(-hi, hi)])
    return case


# ------------------------------------------------------------------ validation

def expect_value_error(what, f):
    try:
        with quiet():
            f()
    except ValueError:
        return
    except Exception as e:
        raise Violation("{} raises {}({}) instead of ValueError".format(what, type(e).__name__, e))
    raise Violation(what + " is accepted")


def validation_case(rng):
    n = rng.randint(1, 5)
    cats = [[rng.randint(-9, 9) for _ in range(rng.randint(1, 4))] for _ in range(n)]
    m = rng.choice([x for x in range(1, 8) if x != n])
    bad = [1] * m if rng.random() < 0.5 else [rng.randint(1, 3) for _ in range(m)]
    recipe = [1] * n
    pos = rng.randrange(n)
    recipe[pos] = rng.choice([0, 2, 3, 5]) if n > 1 else rng.choice([2, 3])
    tree, size = gen.tree_bulk(rng, 6)
    nested = tree if rng.random() < 0.5 else [0, tree]
    return {"cats": cats, "bad": bad, "recipe": recipe, "tree": tree, "size": size, "cut": rng.randrange(12), "extra": rng.randrange(3), "short": rng.randint(1, 2)}


def odd_trees(tree):
    """All the trees with one child-list of odd length."""
    yield tree + [0]
    yield tree[:1]
    idx, sub = tree
    if sub:
        yield [idx, sub + [sub[0]]]
        yield [idx, sub[:-1]]
        for i in range(0, len(sub), 2):
            for new in odd_trees(sub[i:i + 2]):
                if len(new) == 2:
                    yield [idx, sub[:i] + new + sub[i + 2:]]


def validation_run(case):
    cats, bad, recipe = case["cats"], case["bad"], case["recipe"]
    m = market_of(cats)
    before = snapshot(m)
    expect_value_error("optimal_trade with a recipe of another length", lambda: m.optimal_trade(list(bad)))
    for name in SINGLE:
        expect_value_error(name + " with a recipe of another length", lambda: SINGLE[name](m, list(bad)))
    for name in ("mcafee", "mcafee_plain"):
        expect_value_error(name + " with the recipe {}".format(recipe), lambda: SINGLE[name](m, list(recipe)))
    expect_value_error("append_PS of another length", lambda: m.append_PS([1] * len(bad)))
    require(snapshot(m) == before, "a rejected call changed the market to {}", snapshot(m))
    labels = ["nontrivial"]
    # recipe-trees
    size = case["size"]
    agents = [AgentCategory("c%d" % i, [1, 2]) for i in range(size)]
    odd = [t for t in odd_trees(case["tree"])]
    t = odd[case["cut"] % len(odd)]
    if len(t) % 2 == 1:
        expect_value_error("RecipeTree of {}".format(t), lambda: recipetree.RecipeTree(agents, clone(t)))
        expect_value_error("integer RecipeTree of {}".format(t), lambda: recipetree_integer.RecipeTree(agents, clone(t)))
        for kind in ("rt", "ri"):
            expect_value_error("{} auction of {}".format(kind, t), lambda: run_tree(kind, Market([a.clone() for a in agents]), clone(t)))
        labels.append("odd tree")
    for mod in (prices, prices_integer):
        expect_value_error("an empty list of recipes", lambda: mod.SimultaneousAscendingPriceVectors([], -1000))
        expect_value_error("recipes of different lengths", lambda: mod.SimultaneousAscendingPriceVectors([[1] * len(cats), [1] * len(bad)], -1000))
        # recipes with a common category and one of their own each: if filled up, they would be valid
        width = 4 + case["extra"]
        uneven = [[1] + [1 if j == k else 0 for j in range(1, width)] for k in range(1, 4)]
        del uneven[case["cut"] % 3][-1 - case["cut"] % case["short"]:]
        expect_value_error("recipes of different lengths {}".format(uneven), lambda: mod.SimultaneousAscendingPriceVectors([list(x) for x in uneven], -1000))
        # a recipe that is contained in another recipe cannot have the same price-sum
        k = len(cats)
        small = [1] * k + [0] * (1 + case["extra"])
        large = [1] * (k + 1) + [1] * case["extra"]
        for pair in ([small, large], [large, small]):
            expect_value_error("initial prices for the recipes {}".format(pair), lambda: mod.calculate_initial_prices([list(x) for x in pair], -100))
    # exactly one increase per recipe
    paths = gen.tree_paths(case["tree"])
    recipes = [[1 if i in p else 0 for i in range(size)] for p in paths]
    choices = [[(i, 10, "x") for i in range(size)] if any(len(p) > 1 for p in paths) else [], []]
    if len(paths) > 1:
        choices.append([(paths[0][-1], 10, "x")])
        if len(paths[0]) > 1:
            choices.append([(paths[0][0], 10, "x"), (paths[-1][-1], 10, "y")])
        labels.append("several recipes")
    counts = [1 + (i + case["extra"]) % 3 for i in range(size)]
    for mod, weights, given in ((prices, None, None), (prices_integer, None, None), (prices_integer, counts, None), (prices_integer, None, counts)):
        rs = [[x * w for x, w in zip(r, weights or [1] * size)] for r in recipes]
        with quiet():
            pv = mod.SimultaneousAscendingPriceVectors(rs, -1000, *([list(given)] if given else []))
        start = list(pv.map_category_index_to_price())
        for ch in choices:
            expect_value_error("the increases {} for the recipes {}".format(ch, rs), lambda: pv.increase_prices(ch))
        require(list(pv.map_category_index_to_price()) == start, "a rejected increase changed the prices")
    return labels


def shrink_model(case):
    ops = case["ops"]
    for s in range(len(ops)):
        yield dict(case, ops=ops[:s] + ops[s + 1:])
    for new in gen.shrink_values(case["cats"]):
        yield dict(case, cats=new)


def shrink_jobs(case):
    if len(case["points"]) > 1:
        for i in range(len(case["points"])):
            yield dict(case, points=case["points"][:i] + case["points"][i + 1:], order=case["order"][:i] + case["order"][i + 1:])
    for i, j in enumerate(case["jobs"]):
        if "on" not in j:
            for new in gen.shrink_values(j["cats"]):
                yield dict(case, jobs=[dict(x, cats=new) if x is j or x.get("on") == i else x for x in case["jobs"]])


def shrink_steps(case):
    if len(case["steps"]) > 1:
        for i in range(len(case["steps"])):
            yield dict(case, steps=case["steps"][:i] + case["steps"][i + 1:])
    for new in gen.shrink_values(case["cats"]):
        yield dict(case, cats=new)


EXACT = p_single.EXACT
PROPERTIES = {
    "optimal-trade": lambda: Property("optimal-trade", "non-trivial: the optimal trade has at least one deal", [
        Facet("bulk ones", optimal_run, bulk=optimal_bulk("ones"), shrink=gen.shrink_market, quick=25000, thorough=800000),
        Facet("bulk integer", optimal_run, bulk=optimal_bulk("int"), shrink=gen.shrink_market, quick=30000, thorough=800000),
        Facet("tiny values", optimal_run, bulk=gen.tiny(optimal_bulk("int")), shrink=gen.shrink_market, quick=10000, thorough=200000),
        Facet("large", optimal_run, bulk=p_single.large("int", True), shrink=gen.shrink_market, quick=800, thorough=10000),
        Facet("huge", optimal_run, bulk=p_single.huge("int", True), shrink=p_single.shrink_huge, quick=64, thorough=2400),
        Facet("guided", optimal_run, strategy=gen.single_market(recipe=gen.int_recipe(zeros=True), max_scale=1000000), quick=2000, thorough=40000),
        Facet("small scope", optimal_run, enum=p_single.small_markets, quick=3, thorough=5),
    ], [EXACT]),
    "market-model": lambda: Property("market-model", "non-trivial: a history of at least 4 operations", [
        Facet("histories", model_run, bulk=model_case, shrink=shrink_model, quick=16000, thorough=500000),
    ]),
    "trade-accounting": lambda: Property("trade-accounting", "non-trivial: at least one deal", [
        Facet("bulk", accounting_run, bulk=accounting_case, shrink=shrink_questions, quick=60000, thorough=2000000),
        Facet("large", accounting_run, bulk=accounting_large, shrink=shrink_questions, quick=600, thorough=20000),
    ], ["tolerance 1e-9 relative to the sums involved"]),
    "isolation": lambda: Property("isolation", "non-trivial: some mechanism of the sequence made a deal", [
        Facet("sequences", isolation_run, bulk=isolation_case, shrink=shrink_steps, quick=8000, thorough=250000),
        Facet("interleaved", interleaved_run, bulk=interleaved_case, shrink=shrink_jobs, quick=1200, thorough=40000),
    ]),
    "input-validation": lambda: Property("input-validation", "non-trivial: every case (each one contains at least 10 malformed calls)", [
        Facet("malformed calls", validation_run, bulk=validation_case, quick=3000, thorough=80000),
    ]),
}
