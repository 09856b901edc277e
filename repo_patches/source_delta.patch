From faae8e96d399c38b546164c9e8a52fd33e57951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 01/20] fix: gain_from_trade with an empty category that does
 not participate in the recipe

---
 trade.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trade.py b/trade.py
index b191868..6de8e67 100644
--- a/trade.py
+++ b/trade.py
@@ -124,6 +124,8 @@ class TradeWithSinglePrice (Trade):
         for i in range(self.num_categories):
             category = self.categories[i]
             agents_per_deal = self.ps_recipe[i]
+            if agents_per_deal==0:
+                continue   # this category does not participate in the trade (and it may be empty).
             participating_agents_in_category = agents_per_deal*self.num_of_deals_cache
             probability_to_participate_in_trade = participating_agents_in_category/len(category.values)
             price_per_agent_per_deal = self.prices[i]
-- 
2.43.0


From d6b8c4f2a484657f6439de46e88096389dd7b28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 02/20] fix: recipe-tree auctions never terminate when a
 category is empty

The target price of an empty category was MAX_VALUE, so once its price is
MAX_VALUE the price-increase is 0, no agent leaves and the loop spins forever.
An empty category does not limit the increase.
---
 ascending_auction_recipetree_integer_protocol.py | 2 +-
 ascending_auction_recipetree_protocol.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ascending_auction_recipetree_integer_protocol.py b/ascending_auction_recipetree_integer_protocol.py
index 2ec3382..e0bee4b 100644
--- a/ascending_auction_recipetree_integer_protocol.py
+++ b/ascending_auction_recipetree_integer_protocol.py
@@ -173,7 +173,7 @@ def budget_balanced_ascending_auction(market:Market, ps_recipe_struct: List[Any]
         increases = []
         for category_index in indices_of_prices_to_increase:
             category = remaining_market.categories[category_index]
-            target_price = category.lowest_agent_value() if category.size()>0 else MAX_VALUE
+            target_price = category.lowest_agent_value() if category.size()>0 else math.inf
             increases.append((category_index, target_price, category.name))
 
         logger.info("Planned price-increases: %s", increases)
diff --git a/ascending_auction_recipetree_protocol.py b/ascending_auction_recipetree_protocol.py
index 8db1487..62fa5b4 100644
--- a/ascending_auction_recipetree_protocol.py
+++ b/ascending_auction_recipetree_protocol.py
@@ -169,7 +169,7 @@ def budget_balanced_ascending_auction(market:Market, ps_recipe_struct: List[Any]
         increases = []
         for category_index in indices_of_prices_to_increase:
             category = remaining_market.categories[category_index]
-            target_price = category.lowest_agent_value() if category.size()>0 else MAX_VALUE
+            target_price = category.lowest_agent_value() if category.size()>0 else math.inf
             increases.append((category_index, target_price, category.name))
 
         logger.info("Planned price-increases: %s", increases)
-- 
2.43.0


From f5c6842489eadf25f88c1cb903623e9824120680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 03/20] fix: initial prices of integer recipes must balance
 each recipe through a category of its own

The last category of a recipe may belong to other recipes too (e.g. the root,
when its index is the highest); then the price-sums became different or a
ValueError was raised for a valid recipe-tree.
---
 prices_integer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/prices_integer.py b/prices_integer.py
index a75f326..b6d2426 100644
--- a/prices_integer.py
+++ b/prices_integer.py
@@ -280,11 +280,13 @@ def calculate_initial_prices(ps_recipes:List[List[int]], max_price_per_category:
     for i in range(len(ps_recipes)):
         recipe = ps_recipes[i]
         for j in range(num_categories - 1, -1, -1):
-            if recipe[j] > 0:
-                if price_vector[j] != max_price_per_category:
-                    raise ValueError("Cannot determine initial prices: "+str(price_vector))
+            # Use a category that is not in any other recipe, so that the other price-sums do not change
+            if recipe[j] > 0 and all(other[j] == 0 for k,other in enumerate(ps_recipes) if k != i):
                 price_vector[j] = float(max_price_per_category * (max_weighted_depth - weighted_depths[i] + recipe[j])/recipe[j])
                 break
+        else:
+            if weighted_depths[i] != max_weighted_depth:
+                raise ValueError("Cannot determine initial prices: "+str(price_vector))
     return price_vector
 
 if __name__ == "__main__":
-- 
2.43.0


From bef13a2123090f508835d98bddfe72ea2dbd2a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 04/20] fix: simultaneous increase of integer prices must keep
 the price-sums equal

When several agents of a category take part in a deal, raising its price by x
raises the price-sum by x times their number. All increases are now measured
by their effect on the price-sum.
---
 prices_integer.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/prices_integer.py b/prices_integer.py
index b6d2426..c3e1a52 100644
--- a/prices_integer.py
+++ b/prices_integer.py
@@ -219,25 +219,31 @@ class SimultaneousAscendingPriceVectors:
         #if any([ipr!=1 for ipr in increases_per_recipe]):
         #    raise ValueError("There must be exactly one increase per recipe!")
 
+        # The number of agents of each increased category in each recipe that contains it:
+        agents_per_recipe = [max(recipe[category_index] for recipe in self.ps_recipes) * self.agent_counts[category_index]
+                             for (category_index,_,_) in increases]
+
+        # All increases are measured by their effect on the price-sum, so that the sum in all recipes remains equal.
         increase_to_upper_bound = sum_upper_bound - self.price_sum()
-        increases_to_new_prices = [new_price - self.vector[category_index]
-                                   for (category_index,new_price,_) in increases]
+        increases_to_new_prices = [(new_price - self.vector[category_index]) * count
+                                   for (category_index,new_price,_),count in zip(increases,agents_per_recipe)]
         min_increase_to_new_price = min(increases_to_new_prices)
         min_increase = min(min_increase_to_new_price, increase_to_upper_bound)
         if min_increase == increase_to_upper_bound:
             self.status = PriceStatus.STOPPED_AT_ZERO_SUM
-            for (category_index, new_price, description) in increases:
-                fixed_new_price = self.vector[category_index] + min_increase * self.agent_counts[category_index]
+            for (category_index, new_price, description),count in zip(increases,agents_per_recipe):
+                fixed_new_price = self.vector[category_index] + min_increase / count
                 logger.info("{}: while increasing price towards {}, stopped at {} where the price-sum crossed {}".format(description, new_price, fixed_new_price, sum_upper_bound))
                 self.vector[category_index] = fixed_new_price
 
         else: # min_increase == min_increase_to_new_price:
             self.status = PriceStatus.STOPPED_AT_AGENT_VALUE
-            for (category_index, new_price, description) in increases:
-                fixed_new_price = self.vector[category_index] + min_increase * self.agent_counts[category_index]
-                if fixed_new_price == new_price:
+            for (category_index, new_price, description),count,increase_to_new_price in zip(increases,agents_per_recipe,increases_to_new_prices):
+                if increase_to_new_price == min_increase:
+                    fixed_new_price = float(new_price)
                     logger.info("{}: price increases to {}".format(description, new_price))
                 else:
+                    fixed_new_price = self.vector[category_index] + min_increase / count
                     logger.info("{}: while increasing price towards {}, stopped at {} where an agent from another category left".format(description, new_price, fixed_new_price, sum_upper_bound))
                 self.vector[category_index] = fixed_new_price
 
-- 
2.43.0


From 022391b84ba1f29d20d56753086fa0d83cbb640e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 05/20] fix: combined_values_detailed_with_counters of an
 integer recipe-tree with children

It put each child list in a tuple of its own, so optimal_trade_with_counters
raised TypeError/IndexError for every tree that has more than one node, and
each deal of a leaf had a counter of its own.
---
 recipetree_integer.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/recipetree_integer.py b/recipetree_integer.py
index aab26aa..831976a 100644
--- a/recipetree_integer.py
+++ b/recipetree_integer.py
@@ -396,22 +396,21 @@ class RecipeTree (NodeMixin):
         for value in self_values:
             current_set.append(value)
             if len(current_set) == self.agent_count:
-                value_sets.append((current_set, {'counter': 0}))
+                value_sets.append(current_set)
                 current_set = []
 
-        if len(self.children) > 0:
-            children_values = [child.combined_values_detailed_with_counters() for child in self.children]
-            #children_values.sort(key=lambda x: sum(x[0]), reverse=True)
-            #Get the min size
-            min_len = min(len(value_sets), len(children_values))
+        if len(self.children) == 0:
+            # A single counter is shared by all the deals of the same path
+            deals_counter = {'counter': 0}
+            values = [(value_set, deals_counter) for value_set in value_sets]
+        else:
+            children_values = sum([child.combined_values_detailed_with_counters() for child in self.children], [])
+            children_values.sort(key=lambda x: sum(x[0]), reverse=True)
             #zip the parent with its child value
-            for i in range(min_len):
-                children_values[i] = ([*children_values[i][0], *self_values[i]], children_values[i][1])
-            value_sets = children_values
+            values = [([*value_set, *child_set], counter) for (value_set, (child_set, counter)) in zip(value_sets, children_values)]
 
-            logger.debug("children_values: %s", value_sets)
-        value_sets.sort(key=lambda x: sum(x[0]), reverse=True)
-        return value_sets
+            logger.debug("children_values: %s", values)
+        return values
 
     def combined_values_detailed(self) -> list:
         """
-- 
2.43.0


From ba3fe0c27e9d0a28713b0e0ff4d37968a1affcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 06/20] fix: optimal_trade of a recipe-tree with a single
 category

combined_values_detailed returns plain values (not tuples) when the tree is a
single node, so optimal_trade raised TypeError.
---
 recipetree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipetree.py b/recipetree.py
index f235b68..585c21f 100644
--- a/recipetree.py
+++ b/recipetree.py
@@ -326,7 +326,7 @@ class RecipeTree (NodeMixin):
         * third is the optimal GFT.
         """
         values = self.combined_values_detailed()
-        optimal_trade_values = [t for t in values if sum(t)>=0]
+        optimal_trade_values = [t for t in values if sum(flatten([t]))>=0]
         optimal_trade_count = len(optimal_trade_values)
         optimal_trade_values_GFT = sum(flatten(optimal_trade_values))
         return (optimal_trade_values, optimal_trade_count, optimal_trade_values_GFT)
-- 
2.43.0


From 412cd5f40e52ae99411b3adaef7da7524e3c5040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:58 +0000
Subject: [PATCH 07/20] fix: McAfee price heuristic treats a seller with a zero
 cost as a buyer

---
 mcafee_protocol.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/mcafee_protocol.py b/mcafee_protocol.py
index ecbdcfe..f67fa0a 100644
--- a/mcafee_protocol.py
+++ b/mcafee_protocol.py
@@ -31,15 +31,25 @@ def is_price_good_for_ps(price:float, ps:list)->bool:
     False
     >>> is_price_good_for_ps(5, [4, -3])
     False
+    >>> is_price_good_for_ps(5, [9, 0])
+    True
     """
     for i in range(len(ps)):
-        if ps[i] >= 0 and price > ps[i]:
+        if not is_seller(ps, i) and price > ps[i]:
             return False   # price too high for a buyer
-        elif ps[i] <= 0 and -price > ps[i]:
+        elif is_seller(ps, i) and -price > ps[i]:
             return False   # price too low for a seller
     return True
 
 
+def is_seller(ps:list, i:int)->bool:
+    """
+    Decides if agent i in the given PS is a seller: its value is negative,
+    or it is zero (a seller with no cost) and there is a buyer with a positive value.
+    """
+    return ps[i] < 0 or (ps[i] == 0 and any(value > 0 for value in ps))
+
+
 
 def mcafee_trade_reduction(market:Market, ps_recipe:list, price_heuristic=True):
     """
@@ -166,7 +176,7 @@ def mcafee_trade_reduction(market:Market, ps_recipe:list, price_heuristic=True):
 
         if price_heuristic and is_price_good_for_ps(price_candidate, last_positive_ps):
             # All optimal traders trade in the candidate price - no reduction
-            prices = [price_candidate * (-1 if last_positive_ps[i]<0 else +1)
+            prices = [price_candidate * (-1 if is_seller(last_positive_ps, i) else +1)
                       for i in range(market.num_categories)]
 
         else:
-- 
2.43.0


From 708af97dbdc39ae88fa4782773cf32d761664433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 08/20] fix: AscendingPriceVector of integer prices ignored the
 agent counts when stopping at zero sum

---
 prices_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prices_integer.py b/prices_integer.py
index c3e1a52..eff08fd 100644
--- a/prices_integer.py
+++ b/prices_integer.py
@@ -113,7 +113,7 @@ class AscendingPriceVector:
         ('PriceStatus.STOPPED_AT_ZERO_SUM', 0.0, 50.0)
 
         """
-        category_count_in_recipe = self.ps_recipe[category_index]
+        category_count_in_recipe = self.ps_recipe[category_index] * self.agent_counts[category_index]
         sum_without_category = self.price_sum_without_category(category_index)
         new_sum = sum_without_category + category_count_in_recipe*new_price
         if new_sum >= sum_upper_bound:
-- 
2.43.0


From 728015ee86faac6e7bf3284d29a6ec87b9cd6f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:47 +0000
Subject: [PATCH 09/20] fix: report of an integer recipe-tree said that all
 agents trade when some remain without a deal

---
 recipetree_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipetree_integer.py b/recipetree_integer.py
index 831976a..41dc69c 100644
--- a/recipetree_integer.py
+++ b/recipetree_integer.py
@@ -675,7 +675,7 @@ class RecipeTree (NodeMixin):
             sum_children_names = " + ".join(children_names)
             num_of_deals = min(sum_children_num_of_deals,self_num_of_deals)
             explanation = "".join(children_explanations)
-            if num_of_deals==self_num_of_deals:
+            if num_of_deals*self.agent_count==self.category.size():
                 explanation += "{}: all {} traders selected, price={}\n".format(self.name, self.category.size(), self_price)
             else:
                 explanation += "{}: {} out of {} traders selected, price={}\n".format(self.name, num_of_deals * self.agent_count, self.category.size(), self_price)
-- 
2.43.0


From 74ab95a7ab87d0d889e67a0fc2e1a21eee2e1a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:56 +0000
Subject: [PATCH 10/20] fix: averages in stock experiments are never printed in
 scientific notation

---
 stock/experiment_compare_iterations_autions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stock/experiment_compare_iterations_autions.py b/stock/experiment_compare_iterations_autions.py
index 50b4618..c2f535c 100644
--- a/stock/experiment_compare_iterations_autions.py
+++ b/stock/experiment_compare_iterations_autions.py
@@ -46,6 +46,7 @@ from tee_table.tee_table import TeeTable
 from collections import OrderedDict
 from get_stocks_data import getStocksPricesShuffled
 import random
+from decimal import Decimal
 from os import path
 
 def experiment(results_csv_file:str, auction_functions:list, auction_names:str, recipe:tuple, nums_of_agents=None,
@@ -231,6 +232,6 @@ def experiment(results_csv_file:str, auction_functions:list, auction_names:str,
 
 
 def padding_zeroes(result, num_digits:int):
-    str_result = str(result)
+    str_result = format(Decimal(str(result)), 'f')   # without scientific notation
     str_result += ("0" * num_digits) if '.' in str_result else '.' + ("0" * num_digits)
     return str_result[0 : str_result.index('.') + num_digits + 1]
-- 
2.43.0


From fa51f8bbf039fcd62b839472942c33a58a25a277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:56 +0000
Subject: [PATCH 11/20] fix: the smallest number of deals of a path is 0, not
 99999, when the optimal trade of a recipe-tree is empty

---
 recipetree.py         | 2 +-
 recipetree_integer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/recipetree.py b/recipetree.py
index 585c21f..0cb3336 100644
--- a/recipetree.py
+++ b/recipetree.py
@@ -304,7 +304,7 @@ class RecipeTree (NodeMixin):
         optimal_trade_values = [t for t in values if t[0]>=0]
         for value in optimal_trade_values:
             value[1]['counter'] += 1
-        kmin = optimal_trade_values[0][1]['counter'] if len(optimal_trade_values) > 0 else 99999
+        kmin = optimal_trade_values[0][1]['counter'] if len(optimal_trade_values) > 0 else 0
         kmax = 0
         optimal_trade_count = 0
         optimal_trade_values_GFT = 0
diff --git a/recipetree_integer.py b/recipetree_integer.py
index 41dc69c..7fb3880 100644
--- a/recipetree_integer.py
+++ b/recipetree_integer.py
@@ -454,7 +454,7 @@ class RecipeTree (NodeMixin):
         optimal_trade_values = [t for t in values if sum(t[0])>=0]
         for value in optimal_trade_values:
             value[1]['counter'] += 1
-        kmin = optimal_trade_values[0][1]['counter'] if len(optimal_trade_values) > 0 else 99999
+        kmin = optimal_trade_values[0][1]['counter'] if len(optimal_trade_values) > 0 else 0
         kmax = 0
         optimal_trade_count = 0
         optimal_trade_values_GFT = 0
-- 
2.43.0


From df9a3cd3066ef3afe5c111c574c94221f6218eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:25 +0000
Subject: [PATCH 12/20] fix: recipe-tree auctions lose many deals when agents
 have equal values

An agent whose value equals the current price of its category left the
market whenever any price increased, so ties could empty a category whose
price should not increase, and all deals were lost. An agent now leaves only
when the price of its own category increases.
---
 ascending_auction_recipetree_integer_protocol.py | 2 +-
 ascending_auction_recipetree_protocol.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ascending_auction_recipetree_integer_protocol.py b/ascending_auction_recipetree_integer_protocol.py
index e0bee4b..87d356d 100644
--- a/ascending_auction_recipetree_integer_protocol.py
+++ b/ascending_auction_recipetree_integer_protocol.py
@@ -186,7 +186,7 @@ def budget_balanced_ascending_auction(market:Market, ps_recipe_struct: List[Any]
             logger.info(remaining_market)
             return TradeWithMultipleRecipes(remaining_market.categories, recipe_tree, map_category_index_to_price)
 
-        for category_index in range(market.num_categories):
+        for category_index in indices_of_prices_to_increase:
             category = remaining_market.categories[category_index]
             if map_category_index_to_price[category_index] is not None \
                 and category.size()>0 \
diff --git a/ascending_auction_recipetree_protocol.py b/ascending_auction_recipetree_protocol.py
index 62fa5b4..e805c17 100644
--- a/ascending_auction_recipetree_protocol.py
+++ b/ascending_auction_recipetree_protocol.py
@@ -182,7 +182,7 @@ def budget_balanced_ascending_auction(market:Market, ps_recipe_struct: List[Any]
             logger.info(remaining_market)
             return TradeWithMultipleRecipes(remaining_market.categories, recipe_tree, map_category_index_to_price)
 
-        for category_index in range(market.num_categories):
+        for category_index in indices_of_prices_to_increase:
             category = remaining_market.categories[category_index]
             if map_category_index_to_price[category_index] is not None \
                 and category.size()>0 \
-- 
2.43.0


From 5055820404dcb3f0eefc9b2499d82ffc8f6a81a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:09 +0000
Subject: [PATCH 13/20] fix: the archived multi-buyer auction never stopped
 when the prices reach balance, so it never traded

---
 old/ascending_auction_multibuyer_protocol.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/old/ascending_auction_multibuyer_protocol.py b/old/ascending_auction_multibuyer_protocol.py
index bb0f209..066cb45 100644
--- a/old/ascending_auction_multibuyer_protocol.py
+++ b/old/ascending_auction_multibuyer_protocol.py
@@ -21,13 +21,17 @@ Since:  2019-08
 from agents import AgentCategory, EmptyCategoryException, MAX_VALUE
 from markets import Market
 from trade import Trade
-from prices import AscendingPriceVector
+from prices import AscendingPriceVector, PriceStatus
 
 import logging, sys
 logger = logging.getLogger(__name__)
 logger.addHandler(logging.StreamHandler(sys.stdout))
 # To enable tracing, set logger.setLevel(logging.INFO)
 
+class PricesCrossZeroException(Exception):
+    pass
+
+
 class TradeWithMultipleRecipes(Trade):
     """
     Represents the outcome of budget_balanced_ascending_auction.
@@ -178,6 +182,7 @@ def budget_balanced_ascending_auction(
                 lowest_value_per_unit = map_buyer_category_to_lowest_value_per_unit[category_index_with_lowest_value_per_unit]
                 logger.info("  lowest value per unit is %f, of category %d (%s)", lowest_value_per_unit, category_index_with_lowest_value_per_unit, category_with_lowest_value_per_unit.name)
                 prices.increase_price_up_to_balance(price_index, category_with_lowest_value_per_unit.lowest_agent_value()/map_buyer_category_to_seller_count[category_index_with_lowest_value_per_unit], category_with_lowest_value_per_unit.name)
+                if prices.status == PriceStatus.STOPPED_AT_ZERO_SUM: raise PricesCrossZeroException()
                 category_with_lowest_value_per_unit.remove_lowest_agent()
 
             category    = seller_category
@@ -189,10 +194,15 @@ def budget_balanced_ascending_auction(
                 if num_units_offered == 0:                 raise EmptyCategoryException()
                 if num_units_offered <= target_unit_count: break
                 prices.increase_price_up_to_balance(price_index, category.lowest_agent_value(), category.name)
+                if prices.status == PriceStatus.STOPPED_AT_ZERO_SUM: raise PricesCrossZeroException()
                 category.remove_lowest_agent()
 
             target_unit_count -= 1
 
+    except PricesCrossZeroException:
+        logger.info("\nPrice crossed zero.")
+        logger.info("  Final price-per-unit vector: %s", prices)
+
     except EmptyCategoryException:
         logger.info("\nOne of the categories became empty. No trade!")
         logger.info("  Final price-per-unit vector: %s", prices)
-- 
2.43.0


From 44869255fff3f6e4bd613faf4e18959d56293ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:09 +0000
Subject: [PATCH 14/20] fix: the archived multi-buyer auction raised an error
 when a category of buyers is empty

---
 old/ascending_auction_multibuyer_protocol.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/old/ascending_auction_multibuyer_protocol.py b/old/ascending_auction_multibuyer_protocol.py
index 066cb45..90582a1 100644
--- a/old/ascending_auction_multibuyer_protocol.py
+++ b/old/ascending_auction_multibuyer_protocol.py
@@ -23,7 +23,7 @@ from markets import Market
 from trade import Trade
 from prices import AscendingPriceVector, PriceStatus
 
-import logging, sys
+import logging, math, sys
 logger = logging.getLogger(__name__)
 logger.addHandler(logging.StreamHandler(sys.stdout))
 # To enable tracing, set logger.setLevel(logging.INFO)
@@ -173,9 +173,9 @@ def budget_balanced_ascending_auction(
                 logger.info("  Buyers demand %d units", num_units_demanded)
                 if num_units_demanded == 0:                 raise EmptyCategoryException()
                 if num_units_demanded <= target_unit_count: break
-                map_buyer_category_to_lowest_value = [category.lowest_agent_value() for category in buyer_categories]
-                logger.debug("  map_buyer_category_to_lowest_value=%s", map_buyer_category_to_lowest_value)
-                map_buyer_category_to_lowest_value_per_unit = [value / count for value,count in zip(map_buyer_category_to_lowest_value,map_buyer_category_to_seller_count)]
+                map_buyer_category_to_lowest_value_per_unit = [
+                    category.lowest_agent_value() / count if count > 0 and category.size() > 0 else math.inf  # only agents that demand units can leave
+                    for category,count in zip(buyer_categories,map_buyer_category_to_seller_count)]
                 logger.debug("  map_buyer_category_to_lowest_value_per_unit=%s", map_buyer_category_to_lowest_value_per_unit)
                 category_index_with_lowest_value_per_unit = min(range(num_buyer_categories), key=lambda i:map_buyer_category_to_lowest_value_per_unit[i])
                 category_with_lowest_value_per_unit = buyer_categories[category_index_with_lowest_value_per_unit]
-- 
2.43.0


From 9acac8a3eb6ff239af1f22f1b26fe997ba7fa45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:09 +0000
Subject: [PATCH 15/20] fix: the archived multi-recipe auction raised
 ValueError when raising the price of a common category

---
 old/ascending_auction_multirecipe_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/old/ascending_auction_multirecipe_protocol.py b/old/ascending_auction_multirecipe_protocol.py
index 5c3b59d..af36034 100644
--- a/old/ascending_auction_multirecipe_protocol.py
+++ b/old/ascending_auction_multirecipe_protocol.py
@@ -204,7 +204,7 @@ def budget_balanced_ascending_auction(
             main_category_index = largest_common_category_index
             main_category = remaining_market.categories[main_category_index]
             logger.info("%s before: %d agents remain", main_category.name, main_category.size())
-            increases = [(main_category_index, main_category.lowest_agent_value(), main_category.name)] * num_recipes
+            increases = [(main_category_index, main_category.lowest_agent_value(), main_category.name)]
 
         else:  # largest_common_category_size < unique_categories_size
             logger.info("Raising price of the largest unique categories in each recipe: %s", map_recipe_index_to_largest_unique_category_index)
-- 
2.43.0


From a41f7be77f53cbbe5e82c9e3e2e54d1c1c49aee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:09 +0000
Subject: [PATCH 16/20] fix: the archived multi-recipe auction deleted recipes
 from the list of its caller

---
 old/ascending_auction_multirecipe_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/old/ascending_auction_multirecipe_protocol.py b/old/ascending_auction_multirecipe_protocol.py
index af36034..78a43ae 100644
--- a/old/ascending_auction_multirecipe_protocol.py
+++ b/old/ascending_auction_multirecipe_protocol.py
@@ -214,7 +214,7 @@ def budget_balanced_ascending_auction(
                 logger.info("%s before: %d agents remain", main_category.name, main_category.size())
                 if main_category.size() == 0:
                     logger.info("\nThe %s category became empty - no trade in recipe %d", main_category.name, recipe_index)
-                    del ps_recipes[recipe_index]
+                    ps_recipes = ps_recipes[:recipe_index] + ps_recipes[recipe_index+1:]
                     if len(ps_recipes)>0:
                         return budget_balanced_ascending_auction(market, ps_recipes)
                     else:
-- 
2.43.0


From d9fdd82c5784e63e32cd4ee08596e5a412280f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:09 +0000
Subject: [PATCH 17/20] fix: the archived multi-recipe auction removed agents
 from categories whose price did not increase, in ties

---
 old/ascending_auction_multirecipe_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/old/ascending_auction_multirecipe_protocol.py b/old/ascending_auction_multirecipe_protocol.py
index 78a43ae..fb9a21a 100644
--- a/old/ascending_auction_multirecipe_protocol.py
+++ b/old/ascending_auction_multirecipe_protocol.py
@@ -236,7 +236,7 @@ def budget_balanced_ascending_auction(
             logger.info(remaining_market)
             return TradeWithMultipleRecipes(remaining_market.categories, ps_recipes, map_category_index_to_price)
 
-        for category_index in range(num_categories):
+        for category_index,_,_ in increases:
             category = remaining_market.categories[category_index]
             if map_category_index_to_price[category_index] is not None \
                 and category.size()>0 \
-- 
2.43.0


From 27814877f56ba8350d7b4a7fba80963041bb1132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:45 +0000
Subject: [PATCH 18/20] fix: initial simultaneous prices ignored the agent
 counts, so the price-sums of the recipes differed

---
 prices_integer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prices_integer.py b/prices_integer.py
index eff08fd..69b8d79 100644
--- a/prices_integer.py
+++ b/prices_integer.py
@@ -150,7 +150,8 @@ class SimultaneousAscendingPriceVectors:
         self.num_categories = num_categories
         self.agent_counts = agent_counts if agent_counts else [1] * num_categories
 
-        initial_prices = calculate_initial_prices(ps_recipes, initial_price_sum)
+        initial_prices = calculate_initial_prices(
+            [[r*count for r,count in zip(ps_recipe, self.agent_counts)] for ps_recipe in ps_recipes], initial_price_sum)
 
         self.ps_recipes = ps_recipes
         self.vector = AscendingPriceVector(ps_recipes[0], initial_prices, self.agent_counts)
-- 
2.43.0


From 414961b5086c1686972070ba53576be6dbb284e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:45 +0000
Subject: [PATCH 19/20] fix: simultaneous increases of integer prices were not
 required to contain exactly one category of each recipe

---
 prices_integer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prices_integer.py b/prices_integer.py
index 69b8d79..b00b3ad 100644
--- a/prices_integer.py
+++ b/prices_integer.py
@@ -215,10 +215,10 @@ class SimultaneousAscendingPriceVectors:
         for (recipe_index,recipe) in enumerate(self.ps_recipes):
             for (category_index, new_price, description) in increases:
                 if recipe[category_index] > 0:
-                    increases_per_recipe[recipe_index] += 1 / self.agent_counts[category_index]
+                    increases_per_recipe[recipe_index] += 1
         logger.info("  Increases per recipe: %s", increases_per_recipe)
-        #if any([ipr!=1 for ipr in increases_per_recipe]):
-        #    raise ValueError("There must be exactly one increase per recipe!")
+        if any([ipr!=1 for ipr in increases_per_recipe]):
+            raise ValueError("There must be exactly one increase per recipe!")
 
         # The number of agents of each increased category in each recipe that contains it:
         agents_per_recipe = [max(recipe[category_index] for recipe in self.ps_recipes) * self.agent_counts[category_index]
-- 
2.43.0


From 5a01728b0696e24baa744dff01fb0ff860d91e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:49 +0000
Subject: [PATCH 20/20] fix: the optimal trade of an archived recipe-tree of a
 single category failed (its combined values are numbers, not tuples)

---
 recipetree.old.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipetree.old.py b/recipetree.old.py
index 858edd2..f6be007 100644
--- a/recipetree.old.py
+++ b/recipetree.old.py
@@ -260,7 +260,7 @@ class RecipeTree (NodeMixin):
         * third is the optimal GFT.
         """
         values = self.combined_values_detailed()
-        optimal_trade_values = [t for t in values if sum(t)>0]
+        optimal_trade_values = [t for t in values if sum(flatten([t]))>0]
         optimal_trade_count = len(optimal_trade_values)
         optimal_trade_values_GFT = sum(flatten(optimal_trade_values))
         return (optimal_trade_values, optimal_trade_count, optimal_trade_values_GFT)
-- 
2.43.0

