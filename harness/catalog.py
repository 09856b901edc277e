"""The list of properties: ids, statements, anchors.  tools/meta.py writes properties.jsonl and MANIFEST.json from it."""

NOT_APPLICABLE = []
CATALOG = []


def prop(id, slug, title, statement, quantifier, why, files, mechanism, observe, technique, note, over=("inputs",)):
    assert len(title) <= 80, title
    CATALOG.append(dict(id=id, slug=slug, title=title, statement=statement, over=list(over), quantifier=quantifier, why=why,
                        files=files, mechanism=mechanism, observe=observe, technique=technique, note=note))


MARKETS = "every market of agent categories (any sizes including empty, ties, any signs, integer or quarter values below the documented 10^8 bound) and every valid recipe of the mechanism"
SINGLE_FILES = ["mcafee_protocol.py", "trade_reduction_protocol.py", "ascending_auction_protocol.py", "markets.py", "trade.py", "prices.py"]
SINGLE_MECH = [("McAfee reduction and price candidate", "mcafee_protocol.py: mcafee_trade_reduction"),
               ("external competition loop", "trade_reduction_protocol.py: budget_balanced_trade_reduction"),
               ("price clock", "ascending_auction_protocol.py: budget_balanced_ascending_auction"),
               ("price increase up to balance", "prices.py: AscendingPriceVector.increase_price_up_to_balance")]
OUT = ["the returned trade: categories, prices, num_of_deals(), gain_from_trade()"]
WHY = "doctests and unit tests fix a few hand-made markets; the guarantee quantifies over all markets, including ties, empty categories, unequal sizes and many-agent recipes that no test contains"
TREE_FILES = ["ascending_auction_recipetree_protocol.py", "ascending_auction_recipetree_integer_protocol.py", "recipetree.py", "recipetree_integer.py", "prices.py", "prices_integer.py"]
TREE_MECH = [("simultaneous price clock", "ascending_auction_recipetree_protocol.py / ascending_auction_recipetree_integer_protocol.py: budget_balanced_ascending_auction"),
             ("choice of the increasing categories", "recipetree.py / recipetree_integer.py: largest_categories"),
             ("number of deals", "recipetree.py / recipetree_integer.py: num_of_deals"),
             ("equal price-sums", "prices.py / prices_integer.py: SimultaneousAscendingPriceVectors.increase_prices")]
TREES = "every recipe-tree (any shape up to 9 categories, any agent counts per category in the integer variant) and every market, including empty categories and categories outside of the tree"
PBT = "property-based testing: random structured generators with shrinking, "

prop("C01", "budget-balance", "The auctioneer never loses money: price-sum of a deal is zero (McAfee: >= 0)",
     "In every outcome with at least one deal, the sum of the prices over the agents of one deal is exactly zero in the trade-reduction and ascending auctions, and non-negative in McAfee's mechanism. The gain including the auctioneer exceeds the traders' gain by exactly the number of deals times that sum. When there are no deals, both gains are zero.",
     MARKETS + "; McAfee's price heuristic is claimed for two categories, its plain reduction for any number of categories", WHY, SINGLE_FILES, SINGLE_MECH, OUT,
     PBT + "small-scope enumeration; invariant over the outcome", "random and exhaustive small-scope markets against an explicit invariant in exact arithmetic; not a proof")
prop("C02", "individual-rationality", "Every trader is a top-valued real agent and never pays more than its value",
     "The agents selected by any single-recipe mechanism are agents of the market, and are the highest-valued ones of their category. Each of them has a value at least the price it pays. The selected agents suffice for the reported number of deals and for no additional deal.",
     MARKETS, WHY, SINGLE_FILES, SINGLE_MECH, OUT, PBT + "small-scope enumeration; invariant over the outcome", "random and exhaustive small-scope markets; not a proof")
prop("C03", "truthfulness", "No agent gains by misreporting its value to a single-recipe mechanism",
     "In the ascending auction with any integer recipe, in trade reduction with one agent per category per deal, and in McAfee's mechanism (with its price heuristic: for a market of buyers and sellers), an agent's expected utility - the probability that it trades times its value minus its price - is maximised by reporting its true value. A truthful agent never has a negative utility.",
     MARKETS + ", every agent and every misreport; in McAfee's two-sided heuristic a misreport keeps the agent's side of the market", "no existing test compares the outcomes of two reports; the claim quantifies over all markets, agents and misreports",
     SINGLE_FILES, SINGLE_MECH, OUT, PBT + "small-scope enumeration; metamorphic relation between the truthful report and misreports", "misreports are biased to values near the margin; not a proof")
prop("C04", "efficiency", "Mechanisms lose at most one deal and a 1/k share of the optimal gain",
     "Each single-recipe mechanism makes at least k0-1 and at most k1 deals, where k0 and k1 are the smallest and largest numbers of deals in an optimal trade. Its expected gain from trade never exceeds the optimal gain. It is at least (1-1/k) of the optimum for the number of deals k of an optimal trade.",
     MARKETS, WHY, SINGLE_FILES, SINGLE_MECH, OUT, PBT + "small-scope enumeration; differential against an independent exact optimum", "the optimum is recomputed independently in rational arithmetic; not a proof")
prop("C05", "optimal-trade", "The optimal trade is optimal, lists its deals exactly and leaves the rest",
     "The optimal trade of a market has the maximum total gain over all sets of deals, with the largest number of deals achieving it (or the smallest, when zero-gain deals are excluded; or at most the requested maximum number of iterations). Its deals consist of each category's highest agents in rank order, are listed in increasing order of gain, and the remaining market holds exactly the other agents under the same names. The given market is not changed and shares nothing with the result.",
     "every market and every recipe of non-negative integers that is not all zero, and every iteration cap", WHY, ["markets.py", "trade.py", "agents.py"],
     [("greedy optimal trade", "markets.py: Market.optimal_trade"), ("taking the highest agents", "markets.py: get_highest_agents, remove_highest_agents")],
     ["Market.optimal_trade: the returned trade and remaining market"], PBT + "small-scope enumeration; differential against an independent optimum", "exact rational oracle; not a proof")
prop("C06", "mcafee-conformance", "McAfee's mechanism implements the published rule exactly",
     "With one agent per category per deal, McAfee's mechanism computes the optimal number of deals k including zero-gain ones. With the price heuristic, if every category has a next agent and the average absolute value of the next agents is acceptable to all k-th agents, all k deals are made at that price (negative for sellers); otherwise the k-th deal is cancelled and each category pays its k-th value. The selected agents, the number of deals and the prices equal those of this rule.",
     "every market with any number of categories, with and without the heuristic", WHY, ["mcafee_protocol.py", "markets.py"], [SINGLE_MECH[0]], OUT,
     PBT + "small-scope enumeration; conformance to a reference model in exact arithmetic", "the reference model is written from the paper; not a proof")
prop("C07", "trade-reduction-conformance", "Trade reduction with external competition follows its rule exactly",
     "The mechanism examines the agents of the optimal deals (and of the best losing deal) from the lowest deal upwards. It stops at the first agent whose value, together with the best external competitors (or the lowest possible value where there is none), gives a positive gain - or zero gain, unless zero gains are excluded; the competitors set the prices and the agent's category pays the balancing price. The selected agents, number of deals and prices equal those of this rule.",
     "every market and every recipe of positive integers, with and without zero-gain stopping", WHY, ["trade_reduction_protocol.py", "markets.py"], [SINGLE_MECH[1]], OUT,
     PBT + "small-scope enumeration; conformance to a reference model in exact arithmetic", "the reference model is independent of the code; not a proof")
prop("C08", "ascending-conformance", "The ascending auction follows its price clock rule exactly",
     "Prices start at minus the bound on the values; repeatedly the first category that supports the largest number of deals raises its price to the value of its lowest agent, who leaves, unless the price-sum of a deal reaches zero first, in which case its price is the balancing one and the auction ends. The remaining agents, the number of deals and the prices equal those of this rule, however many iterations are allowed for the optimal trade that it logs.",
     "every market and every recipe of non-negative integers", WHY, ["ascending_auction_protocol.py", "prices.py"], SINGLE_MECH[2:], OUT,
     PBT + "small-scope enumeration; conformance to a reference model in exact arithmetic", "the reference model is independent of the code; not a proof")
prop("C09", "tree-auction-outcome", "Recipe-tree auctions are balanced, individually rational and feasible",
     "In every outcome of the recipe-tree auctions the selected agents of each category are its highest agents in the market, and the number of deals is exactly the maximum number of path-deals these agents support. If there is a deal, then the prices along every root-to-leaf path, weighted by the agent counts, sum to zero, and every selected agent's value is at least its category's price. The reported gain is the optimal gain of the selected agents, is at most the market's optimal gain, and is zero without deals.",
     TREES, WHY, TREE_FILES, TREE_MECH, OUT, PBT + "invariant over the outcome with an independent exact optimum", "random trees and markets; not a proof")
prop("C10", "tree-truthfulness", "No agent gains by misreporting its value to a recipe-tree auction",
     "In the recipe-tree auctions, an agent that is excluded when it reports truthfully cannot, by any misreport, be selected at a price below its value. An agent that is selected cannot change its price, the number of selected agents of its category or the number of deals by a misreport with which it is still selected at a price below its value.",
     TREES + ", every agent and every misreport", "no existing test compares the outcomes of two reports", TREE_FILES, TREE_MECH, OUT,
     PBT + "metamorphic relation between the truthful report and misreports", "misreports are biased to values near others'; not a proof")
prop("C11", "tree-efficiency", "Recipe-tree auctions lose at most one deal per path",
     "A recipe-tree auction makes at most as many deals as the optimal trade and fewer by at most the number of root-to-leaf paths, also when agents have equal values. With one agent per category per deal and distinct values its gain is at least (1-1/kmin) of the optimum, where kmin is the smallest positive number of deals of a path in the optimal trade; with a single path this holds for any values, where kmin is the number of deals.",
     TREES, WHY, TREE_FILES, TREE_MECH, OUT, PBT + "differential against an independent exact optimum", "the optimum is recomputed by dynamic programming; not a proof")
prop("C12", "tree-optimal-trade", "The optimal trade of a recipe-tree is optimal and consists of valid path deals",
     "The optimal trade of a recipe-tree has the maximum total gain over all splits of deals among the root-to-leaf paths, with the largest number of deals achieving it, and its gain is the sum of its listed deals, none of which has a negative gain. Every deal holds the agents of one path with the right count of each category, no agent appears twice, and the highest agents of each category are used. The reported minimum and maximum numbers of deals per path are those of the listed deals, and the categories are not changed.",
     TREES, WHY, ["recipetree.py", "recipetree_integer.py"],
     [("merging the children's deals", "recipetree.py / recipetree_integer.py: combined_values, combined_values_detailed, combined_values_detailed_with_counters"),
      ("cutting at the last non-negative deal", "recipetree.py / recipetree_integer.py: optimal_trade, optimal_trade_with_counters")],
     ["RecipeTree.optimal_trade, optimal_trade_GFT, optimal_trade_with_counters, combined_values"], PBT + "differential against dynamic programming in exact arithmetic", "random trees and markets; not a proof")
prop("C13", "tree-structure", "Recipe-trees report their paths, recipes, capacity and clock correctly",
     "A recipe-tree built from a nested list reports exactly the root-to-leaf paths of that list, by indices and by names, and one recipe per path with the right agent counts. Its number of deals is the maximum number of path-deals its current agents support. The categories chosen for price increase contain exactly one category of every path: a node is chosen when it supports more deals than all its children together, and otherwise the choice is made in each of the children; all this follows the categories as agents leave and never changes them.",
     TREES, WHY, ["recipetree.py", "recipetree_integer.py"], TREE_MECH[1:3] + [("paths and recipes", "recipetree.py / recipetree_integer.py: paths_to_leaf, recipes, recipe_from_path")],
     ["RecipeTree.paths_to_leaf, recipes, recipe_from_path, num_of_deals, num_of_deals_explained, largest_categories"], PBT + "reference model of the tree", "random trees and sizes; not a proof")
prop("C14", "tree-auction-conformance", "The recipe-tree auction follows its simultaneous clock rule exactly",
     "With one agent per category per deal, the auction repeatedly raises the prices of the chosen clock categories together by the same amount until the lowest agent of one of them leaves or the price-sum of every path reaches zero; then the lowest agent of each of these categories leaves if its category's price has reached its value. The remaining agents, the number of deals and the prices equal those of this rule.",
     TREES, WHY, [f for f in TREE_FILES if "integer" not in f], TREE_MECH, OUT, PBT + "conformance to a reference model in exact arithmetic", "random trees and markets; not a proof")
prop("C15", "integer-tree-auction-conformance", "The integer recipe-tree auction follows its simultaneous clock rule exactly",
     "With any agent counts per category, the auction repeatedly raises the prices of the chosen clock categories together, at speeds inversely proportional to their counts so that all price-sums stay equal, until the lowest agent of one of them leaves or the price-sum of every path reaches zero; then the lowest agent of each of these categories leaves if its category's price has reached its value. The remaining agents, the number of deals and the prices equal those of this rule.",
     TREES, WHY, [f for f in TREE_FILES if "integer" in f], TREE_MECH, OUT, PBT + "conformance to a reference model in exact arithmetic", "random trees and markets; where agent counts are not powers of two, markets in which two events nearly coincide are skipped, since floats cannot tell them apart; not a proof")
prop("C16", "price-vector", "An ascending price vector stops exactly at balance or at the agent's value",
     "Raising a price to an agent's value sets exactly that price, unless the weighted price-sum would reach the given bound (zero by default), in which case the price stops where the price-sum equals the bound. The status tells which of the two happened, no other price changes, and the reported price-sums are always the weighted sums of the current prices, also for agent counts per category.",
     "every recipe, agent counts, initial prices and history of increases and assignments", "tests run a few fixed histories; the claim is about all histories", ["prices.py", "prices_integer.py"],
     [("stopping rule", "prices.py / prices_integer.py: AscendingPriceVector.increase_price_up_to_balance")], ["AscendingPriceVector: prices, status, price_sum, price_sum_after_increase, price_sum_without_category"],
     PBT + "stateful histories against a model", "model-based histories; not a proof", over=("inputs", "histories"))
prop("C17", "simultaneous-prices", "Simultaneous prices keep all recipes' price-sums equal and stop exactly",
     "The initial prices are at most the given lower bound on the values and give all recipes the same price-sum. A simultaneous increase of exactly one category of each recipe keeps all price-sums equal, raises the prices proportionally until the first of them reaches its target or the price-sum reaches the bound (at once, if it is there already), changes no other price, exceeds no target, and reports which of the two happened.",
     "the recipes of every tree with every agent counts, and every history of increases", "tests run a few fixed histories; the claim is about all histories", ["prices.py", "prices_integer.py"],
     [("initial prices", "prices.py / prices_integer.py: calculate_initial_prices"), TREE_MECH[3]], ["calculate_initial_prices, SimultaneousAscendingPriceVectors: prices, status, price_sum"],
     PBT + "stateful histories against an invariant and a model", "model-based histories; not a proof", over=("inputs", "histories"))
prop("C18", "trade-accounting", "Deals, gain from trade and the auctioneer's share are accounted correctly",
     "A trade with a single price vector has as many deals as its agents support under its recipe. Its expected gain is, for each category, the sum of the values times the fraction of agents that trade; without the auctioneer, the payments of the trading agents are subtracted. A materially-balanced trade counts its deals and sums their values; computing these never changes the trade.",
     "every list of categories, recipe and prices", WHY, ["trade.py"], [("accounting", "trade.py: TradeWithSinglePrice, TradeWithMaterialBalance")], ["num_of_deals(), gain_from_trade()"],
     PBT + "differential against exact arithmetic", "random trades; not a proof")
prop("C19", "market-model", "Markets and categories behave as sorted multisets with independent copies",
     "After every sequence of adding, removing, querying and cloning, each category holds exactly the expected agents in descending order and reports its size, extremes, prefixes and text accordingly. Clones and copies are independent of each other and of the caller's lists, as are the lists of agents that a category hands out. Requests for more agents than exist, and additions of a wrong number of agents, are refused without any change.",
     "every history of operations on a market and its clones", "tests run a few fixed histories; the claim is about all histories", ["markets.py", "agents.py"],
     [("category operations", "agents.py: AgentCategory"), ("market operations", "markets.py: Market")], ["AgentCategory and Market public methods"],
     PBT + "stateful histories against a model of sorted lists", "model-based histories; not a proof", over=("inputs", "histories"))
prop("C20", "isolation", "Mechanisms never change their inputs; outcomes are deterministic and independent",
     "Running any mechanism, or computing an optimal trade, never changes the market, the recipe, the recipe-tree or the agent counts it is given. Its outcome is the same on a market that was used before as on a fresh one. Outcomes are independent objects: later runs do not change earlier outcomes, and changing an outcome does not change the market. Runs that are interleaved with other runs, on the same market or on another one, give the outcomes that they give alone. Mechanisms, optimal trades and questions about a recipe-tree never change the state of the random number generator.",
     "every sequence and every interleaving of mechanisms run on one and the same market object", "tests build a fresh market for each run", SINGLE_FILES + TREE_FILES,
     [("cloning before the run", "all protocols: market.clone(), remaining categories"), ("tree over cloned categories", "ascending_auction_recipetree_protocol.py / ascending_auction_recipetree_integer_protocol.py")],
     ["the caller's arguments before and after; outcomes of repeated runs"], PBT + "metamorphic relation over sequences of runs", "random sequences; not a proof", over=("inputs", "histories"))
prop("C21", "input-validation", "Malformed recipes, trees and increases are rejected without side effects",
     "A recipe whose length differs from the number of categories, a McAfee recipe that is not all ones, a nested list that is not pairs of category and children, recipes of different lengths or of which one contains another, and a simultaneous increase without exactly one category of each recipe, are rejected with a ValueError. A rejected call leaves the market and the prices unchanged.",
     "every such malformed call", "tests contain few or no malformed calls", ["markets.py", "mcafee_protocol.py", "trade_reduction_protocol.py", "ascending_auction_protocol.py", "recipetree.py", "recipetree_integer.py", "prices.py", "prices_integer.py"],
     [("length checks", "the protocols and markets.py: raise ValueError"), ("tree checks", "recipetree.py / recipetree_integer.py: RecipeTree.__init__"), ("increase checks", "prices.py / prices_integer.py: SimultaneousAscendingPriceVectors.increase_prices")],
     ["ValueError"], PBT + "fuzzing of malformed structures", "generated malformed calls; not a proof")
prop("C22", "totality", "Every mechanism ends with a valid outcome on every market, traced or not",
     "On every valid market - with empty categories, single-category trees, deep or wide trees, large recipes, extreme, equal or fractional values, arbitrary names - every mechanism terminates without an error and returns an outcome with a printable text, a finite gain, and selected agents that are agents of the market. Enabling the tracing of the mechanisms never changes an outcome and never fails.",
     MARKETS + "; " + TREES, "tests run few, well-formed markets and never enable tracing", SINGLE_FILES + TREE_FILES, SINGLE_MECH + TREE_MECH, OUT + ["repr", "logging"],
     PBT + "stress generators with a CPU-time limit", "fuzzing of shapes and values; not a proof")
prop("C23", "symmetry", "Outcomes do not depend on order, names, number types or the money unit",
     "The outcome of every mechanism does not depend on the order in which agents are listed or added, on the names of the categories, or on whether values are integers or floats. Multiplying all values by a power of two multiplies the prices and leaves the deals as they were. The categories of an outcome keep their names and positions.",
     MARKETS + "; " + TREES, "tests compare no two runs", SINGLE_FILES + TREE_FILES + ["agents.py"], SINGLE_MECH + TREE_MECH, OUT, PBT + "metamorphic relations", "random markets; not a proof")
prop("C24", "relations", "Recipe-tree variants agree, and irrelevant categories change nothing",
     "For markets in general position (no ties between values or their sums), the integer recipe-tree auction without agent counts, or with all counts one, gives the same deals, traders and prices as the recipe-tree auction, and renumbering the categories renumbers them. A category that is in no recipe, empty or not, changes nothing in the recipe-tree auctions, in the ascending auction, in trade reduction and in the optimal trade.",
     MARKETS + "; " + TREES, "tests compare no two mechanisms", SINGLE_FILES + TREE_FILES, SINGLE_MECH[2:] + TREE_MECH, OUT, PBT + "metamorphic and differential relations between mechanisms", "random markets and trees; not a proof")
prop("C25", "reports", "Printed reports state exactly who trades, how many and at which price",
     "The text of a trade names every participating category with its selected agents, whether all of them or how many random ones out of them trade, and their price, consistently with the number of deals; categories outside of the recipe are not mentioned, and a trade without deals is printed as no trade. For a recipe-tree it states the potential deals and price of every leaf, how many agents of every inner category and how many deals of its children are selected, and the number of deals overall. The text of an optimal trade lists its deals.",
     MARKETS + "; " + TREES + "; any names and prices", "doctests print a few markets, in which most agents trade", ["trade.py", "recipetree.py", "recipetree_integer.py"] + TREE_FILES[:2],
     [("report of a single price vector", "trade.py: TradeWithSinglePrice.__repr__"), ("report of a recipe-tree", "recipetree.py / recipetree_integer.py: num_of_deals_explained")],
     ["repr of the trades; num_of_deals_explained; min_num_of_deals, max_num_of_deals"], PBT + "reference model of the report", "random trades; not a proof")
EXP_FILES = ["experiment.py", "experiment_comparing_sbb.py", "experiment_ascending_auction_recipetree_random.py", "experiment_ascending_auction_recipetree_integer_random.py", "tree_calculations.py", "agents.py"]
STOCK_FILES = ["stock/experiment_stock.py", "stock/experiment_compare_iterations_autions.py", "stock/experiment_compare_iterations_autions_without_mcafee.py",
               "stock/experiment_compare_sbb_shufled_stock.py", "experiment_ascending_auction_recipetree_stock.py", "experiment_ascending_auction_recipetree_integer_stock.py"]
prop("C26", "random-experiments", "Experiments on random markets report what the auctions did on them",
     "Each row of the results file of an experiment on random agents states the mean numbers of deals and gains of the optimal trade and of the auction over exactly the markets drawn for it, with the auctioneer's share included or not as the column says, and their ratios in percent (zero when the optimum is zero), up to rounding. The markets have the requested number of agents per category, with values in the requested ranges. Comparisons of two auctions run both on the same markets and count wins and ties correctly.",
     "every recipe or recipe-tree, value ranges, numbers of agents and iterations, and random seed", "no test runs an experiment", EXP_FILES,
     [("averages of one auction", "experiment.py: experiment"), ("wins of two auctions", "experiment_comparing_sbb.py: experiment"),
      ("averages of the recipe-tree auctions", "experiment_ascending_auction_recipetree_random.py / experiment_ascending_auction_recipetree_integer_random.py: experiment")],
     ["the rows of the results file, and the markets on which the auctions are run"], PBT + "differential: rows recomputed by an exact oracle", "random small experiments; not a proof")
prop("C27", "stock-experiments", "Experiments on stock prices report what the auctions did on them",
     "The experiments on given prices run every auction on markets made of exactly those prices (all of them, a prefix, or shuffled ones, each used once; where they are shuffled, anew for every iteration and without a preference for some of them; scaled for buyers and negated for sellers as documented by the code), and each row of the results file states the numbers of deals and gains of the optimal trade (with and without zero-gain deals) and of each auction, their ratios in percent and their averages over stocks and iterations, up to the printed digits. Results that exist already are not computed again.",
     "every recipe or recipe-tree, lists of prices, numbers of deals and iterations, and random seed", "no test runs an experiment", STOCK_FILES,
     [("one row per stock", "stock/experiment_stock.py: experiment"), ("averages over shuffles", "stock/experiment_compare_iterations_autions.py: experiment, padding_zeroes"),
      ("prefixes of the prices", "stock/experiment_compare_iterations_autions_without_mcafee.py: experiment"), ("averages over stocks", "stock/experiment_compare_sbb_shufled_stock.py: experiment"),
      ("recipe-trees", "experiment_ascending_auction_recipetree_stock.py / experiment_ascending_auction_recipetree_integer_stock.py: experiment")],
     ["the rows of the results file, and the markets on which the auctions are run"], PBT + "differential: rows recomputed by an exact oracle", "random small experiments; not a proof")
prop("C28", "stock-data", "Stock prices are loaded completely, exactly and with the right signs",
     "The prices loaded from the stock files for a recipe or a recipe-tree are exactly the files' High, Close, Open and Low prices in thousandths: High and Close for buyers, Open and Low negated for sellers, combined or repeated so that each category has the number of agents that the recipe asks for. Shuffled prices are all of the prices of the stock in random order; for recipe-trees each price is used at most once, in shares proportional to the agent counts, scaled by the agent values.",
     "every set of stock files, recipe, recipe-tree, agent counts and values, and random seed", "no test loads stock prices", ["get_stocks_data.py"],
     [("prices per recipe", "get_stocks_data.py: getPrices, getStocksPrices"), ("shuffled prices", "get_stocks_data.py: getAllPricesShuffled, getStocksPricesShuffled"),
      ("prices of a recipe-tree", "get_stocks_data.py: get_prices_tree, getStocksTreePrices")], ["the returned lists of prices and stock names"],
     PBT + "reference model; conservation of the multiset of prices", "digits below a thousandth are compared up to a thousandth; not a proof")
prop("C29", "random-agents", "Random categories have the requested size, range, sign and distribution",
     "A random category holds exactly the requested number of agents with integer values, sorted, reproducible from the random seed. Uniform values lie in the requested range, and normal, gamma and Pareto values - their absolute values, multiplied by the requested factor - have its sign; all follow the requested distribution, rounded to the nearest integers.",
     "every distribution, parameters, number of agents and random seed", "no test draws random agents", ["agents.py"],
     [("random categories", "agents.py: AgentCategory.uniformly_random, normalvariate_random, gammavariate_random, paretovariate_random")], ["the values of the returned category"],
     PBT + "invariants and robust statistical bounds", "statistical bounds hold with overwhelming probability; seeds are fixed by the case")
prop("C30", "tree-shapes", "Depths, sizes and children counts of nested recipe lists are right",
     "For every nested list of a recipe-tree, the computed depth is the number of levels and the largest category is the largest index; the size computed for a leaf is one plus its distance from the deepest level, for an inner category one, and for category 0 one less than the depth; the number of children of every category is right, counting one for a leaf and none for a category outside of the list. The list is not changed.",
     "every nested recipe list", "no test calls these functions", ["tree_calculations.py"],
     [("shape of a nested list", "tree_calculations.py: get_agents_analyze, get_depth_and_agents_size, get_children_counts")], ["the returned numbers"],
     PBT + "reference model of the tree", "random trees; not a proof")
prop("C31", "archived-auctions", "Archived multi-buyer and multi-recipe auctions follow their clock rules",
     "In the archived auction for several buyer categories, each buying a fixed number of units from one category of sellers, the selected agents, units and prices are those of its price clock: a buyer pays for its units exactly what their sellers are paid, and no agent pays more than its value. In the archived auction for several recipes of ones, either the largest common category or the largest unique category of every recipe raises its price until the price-sums are zero, recipes whose category is empty are dropped, and the remaining agents, deals and prices are those of this rule. Neither changes its arguments; malformed recipes (of a wrong length, with other entries than allowed, or several with the same buyers) are rejected with a ValueError, and reports state the outcome.",
     "every market and every list of recipes of the documented kinds, including empty categories and ties", "the archived doctests and tests contain a few hand-made markets, and partly fail for other reasons",
     ["old/ascending_auction_multibuyer_protocol.py", "old/ascending_auction_multirecipe_protocol.py", "prices.py"],
     [("two-sided price clock", "old/ascending_auction_multibuyer_protocol.py: budget_balanced_ascending_auction"), ("several recipes", "old/ascending_auction_multirecipe_protocol.py: budget_balanced_ascending_auction, _analyze_recipes")],
     OUT, PBT + "conformance to a reference model in exact arithmetic", "random markets; not a proof")
prop("C32", "archived-prices", "Archived tied price-vectors keep equal sums and stop exactly",
     "The archived collection of one price-vector per recipe starts from prices whose sum is the requested one in every recipe, each at most an equal share of it per category; if there are no such prices, no recipes at all, or recipes of different lengths, it is rejected with a ValueError. Increasing one category per recipe raises all the price-sums alike, up to the smallest sum that the targets allow but not above zero; the status tells whether zero was reached, all vectors agree on the price of a common category, and a wrong number of increases is rejected without changing the prices.",
     "every list of recipes that are the paths of a tree, initial price-sum and history of increases", "the archived doctests contain a few increases of two recipes",
     ["old/SimultaneousAscendingPriceVector.py", "prices.py"],
     [("initial prices", "old/SimultaneousAscendingPriceVector.py: calculate_initial_prices"), ("simultaneous increase", "old/SimultaneousAscendingPriceVector.py: SimultaneousAscendingPriceVectors.increase_prices")],
     ["prices, price_sum, status and text after each operation"], PBT + "stateful comparison with a reference model", "random histories; not a proof")
prop("C33", "archived-tree", "The archived recipe-tree reports its paths, capacity and optimal trade correctly",
     "The archived recipe-tree states the right paths, recipes and number of deals; its optimal trade has the highest possible gain, consists of disjoint deals with a positive gain, and its listed deals, their number and their gain agree; its largest categories are those of the children of a category unless they allow fewer deals than the category has agents. It explains its deals by the numbers and prices of the agents that are selected in every category. Lists of odd length are rejected with a ValueError, and questions do not change the categories.",
     "every tree and market, including empty categories and a tree of a single category", "the archived doctests contain a few hand-made trees, and partly fail for other reasons",
     ["recipetree.old.py"], [("structure", "recipetree.old.py: RecipeTree.paths_to_leaf, recipes, num_of_deals, largest_categories"), ("optimal trade", "recipetree.old.py: RecipeTree.combined_values, optimal_trade")],
     ["the returned values"], PBT + "reference model and exact optimum", "random trees; not a proof")
prop("C34", "trace", "The trace of a mechanism tells what the mechanism does",
     "With tracing enabled, what a mechanism logs is true: the market it starts from, the recipe or recipe-tree and its paths, the number of deals and gain of the optimal trade, the category or categories chosen in every step with their sizes, the planned and the actual prices, every agent that leaves and how many remain, the external competition of trade reduction and McAfee's candidate price, and the final prices. Following the trace from the given market leads to the agents and the prices of the returned outcome.",
     MARKETS + "; " + TREES + "; names that differ", "tests run with tracing disabled, and no test reads a trace", SINGLE_FILES + TREE_FILES,
     [("messages of the mechanisms", "the protocols: logger.info"), ("messages about prices", "prices.py / prices_integer.py: logger.info in increase_price_up_to_balance, increase_prices")], ["log records of the mechanisms' loggers at level INFO, and the outcome"],
     PBT + "replay of the trace against exact computations and the outcome", "random markets and trees; messages that are worded in another way are not judged; not a proof")
