"""Reference computations that are independent of /repo (no code of /repo is imported here)."""
from fractions import Fraction
import math

NEG = None


def F(x):
    return Fraction(x)


def isnum(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool) and math.isfinite(x) or type(x).__module__ == "numpy" and math.isfinite(float(x))


# ------------------------------------------------------------- single recipe

def optimal_single(cats, recipe):
    """Exact optimum over all sets of deals: returns (opt_gft, k0, k1): k0/k1 = the smallest/largest number of deals in an
    optimal trade. For every number of deals k the best trade uses the k*r_i highest agents of each category."""
    used = [i for i, r in enumerate(recipe) if r > 0]
    feasible = min(len(cats[i]) // recipe[i] for i in used)
    srt = [sorted((F(v) for v in c), reverse=True) for c in cats]
    best, k0, k1 = F(0), 0, 0
    total = F(0)
    for k in range(1, feasible + 1):
        for i in used:
            total += sum(srt[i][(k - 1) * recipe[i]:k * recipe[i]])
        if total > best:
            best, k0, k1 = total, k, k
        elif total == best:
            k1 = k
    return best, k0, k1


def deal_value(cats_sorted, recipe, k):
    """value of the k-th best deal (1-based)"""
    return sum(sum(cats_sorted[i][(k - 1) * r:k * r]) for i, r in enumerate(recipe))


# ------------------------------------------------------------- trees

def children_of(struct):
    sub = struct[1]
    return [] if sub is None else [sub[i:i + 2] for i in range(0, len(sub), 2)]


def tree_best(struct, cats, counts):
    """list B with B[n] = the maximum total value of n deals through the given subtree (None when infeasible)."""
    idx = struct[0]
    c = counts[idx] if counts else 1
    own = sorted((F(v) for v in cats[idx]), reverse=True)
    limit = len(own) // c
    kids = children_of(struct)
    if kids:
        conv = [F(0)]
        for kid in kids:
            b = tree_best(kid, cats, counts)
            new = [None] * (len(conv) + len(b) - 1)
            for i, x in enumerate(conv):
                if x is None:
                    continue
                for j, y in enumerate(b):
                    if y is not None and (new[i + j] is None or x + y > new[i + j]):
                        new[i + j] = x + y
            conv = new
        limit = min(limit, len(conv) - 1)
    out = [F(0)]
    s = F(0)
    for n in range(1, limit + 1):
        s += sum(own[(n - 1) * c:n * c])
        if kids:
            out.append(None if conv[n] is None else s + conv[n])
        else:
            out.append(s)
    return out


def tree_optimum(struct, cats, counts=None):
    """(OPT, k0, k1) for the recipe-tree: k0/k1 = the smallest/largest number of deals in an optimal trade."""
    b = tree_best(struct, cats, counts)
    best, k0, k1 = F(0), 0, 0
    for n in range(1, len(b)):
        if b[n] is None:
            continue
        if b[n] > best:
            best, k0, k1 = b[n], n, n
        elif b[n] == best:
            k1 = n
    return best, k0, k1


def tree_capacity(struct, cats, counts=None):
    """Maximum number of deals (whatever their value)."""
    zero = [[0] * len(c) for c in cats]
    b = tree_best(struct, zero, counts)
    return max(n for n in range(len(b)) if b[n] is not None)


def tree_value_with_leaf_counts(struct, cats, counts, leaf_counts):
    """The value of the best trade in which leaf category j takes part in leaf_counts[j] deals; None if infeasible."""
    def rec(s):
        kids = children_of(s)
        idx = s[0]
        c = counts[idx] if counts else 1
        if kids:
            n, v = 0, F(0)
            for kid in kids:
                r = rec(kid)
                if r is None:
                    return None
                n, v = n + r[0], v + r[1]
        else:
            n, v = leaf_counts[idx], F(0)
        own = sorted((F(x) for x in cats[idx]), reverse=True)
        if n * c > len(own):
            return None
        return n, v + sum(own[:n * c])
    r = rec(struct)
    return None if r is None else r[1]
