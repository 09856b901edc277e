"""property id -> module that defines it"""
import importlib
import catalog

_MODULES = ["p_single", "p_model", "p_market", "p_prices", "p_tree", "p_robust", "p_report", "p_experiment", "p_data", "p_archive", "p_trace"]
_SLUGS = {}
for _m in _MODULES:
    _mod = importlib.import_module(_m)
    _SLUGS.update(_mod.PROPERTIES)
IDS = {p["id"]: p["slug"] for p in catalog.CATALOG}
IDS.update({p["slug"]: p["id"] for p in catalog.CATALOG})
_cache = {}
# the numbers of cases of the quick tier are multiplied so that most checks take 10 to 20 seconds on 8 cores
QUICK_FACTOR = {"C10": 5, "C13": 5, "C16": 5, "C19": 5, "C21": 6, "C22": 1.3, "C26": 2, "C27": 1.5, "C29": 2, "C30": 4, "C31": 1.3, "C07": 2, "C11": 2, "C14": 2, "C15": 2, "C23": 2, "C34": 1}


def load(pid):
    """The property of an id (C01) or of a slug."""
    if pid in IDS and pid not in _SLUGS:
        slug = IDS[pid]
    elif pid in _SLUGS:
        slug, pid = pid, IDS[pid]
    else:
        raise SystemExit("unknown property: " + pid)
    if pid not in _cache:
        _cache[pid] = _SLUGS[slug]()
        _cache[pid].pid = pid
        _cache[pid].quick_factor = QUICK_FACTOR.get(pid, 3)
    return _cache[pid]


def all_ids():
    return [p["id"] for p in catalog.CATALOG]
