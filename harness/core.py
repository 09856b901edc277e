"""
The engine shared by all checks: it drives the facets of a property with Hypothesis (random, structured
generation with shrinking) or with an enumerating generator (small-scope exhaustive), in parallel worker
processes, writes the evidence file and reports violations with a replay file.

A *case* is plain JSON data: everything random is drawn by the generator before the code under test runs
(when a case needs the repository's own `random` module, the case carries the seed), so a case is its own replay.

A *facet* is one executable form of a property: a generator of cases plus a function `run(case)` that drives
the real code in /repo, raises Violation when the property is broken and returns a list of labels
(classification of the case).  A case is non-trivial when its labels contain "nontrivial".
"""
import faulthandler, hashlib, io, json, multiprocessing, os, random, resource, shutil, signal, sys, tempfile, time, traceback, contextlib

REPO = os.path.realpath(os.environ.get("AUCTIONS_UNDER_TEST", "/repo"))   # another tree only while developing the checks
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("VERIF_EVIDENCE_DIR", os.path.join(VERIF, "evidence"))
CASE_CPU_SECONDS = 20      # a typical case takes milliseconds
WALL_LIMIT = 850           # seconds; beyond it the check gives up (error exit, never a violation)

for p in (REPO, os.path.join(REPO, "stock")):
    if p not in sys.path:
        sys.path.insert(0, p)
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)


class Violation(Exception):
    """The property is broken by the code under test."""


class CaseTimeout(KeyboardInterrupt):
    """The code under test did not finish (derives from KeyboardInterrupt so that Hypothesis lets it through)."""


class HarnessError(Exception):
    pass


def require(condition, message, *args):
    if not condition:
        raise Violation(message.format(*args) if args else message)


class Facet:
    """name: of the facet.  run(case) -> labels.  quick/thorough: number of generated cases.  One generator of JSON cases:
    strategy: a Hypothesis strategy;
    enum: a function (shard, shards, count) -> iterator of cases (exhaustive small scopes);
    bulk: a function (random.Random) -> case (fast random generation; shrink(case) yields smaller candidates)."""
    def __init__(self, name, run, strategy=None, enum=None, bulk=None, shrink=None, quick=1000, thorough=20000, shards=8, warm=None):
        self.name, self.run, self.strategy, self.enum, self.bulk, self.shrink = name, run, strategy, enum, bulk, shrink
        self.quick, self.thorough, self.shards, self.warm = quick, thorough, shards, warm


class Property:
    def __init__(self, pid, rule, facets, assumptions=()):
        self.pid, self.rule, self.facets, self.assumptions = pid, rule, facets, list(assumptions)


def canonical(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def case_hash(text):
    return int.from_bytes(hashlib.blake2b(text.encode(), digest_size=8).digest(), "big")


def _repo_frame(tb):
    """The innermost frame of the traceback that lies in /repo (or None)."""
    found = None
    for f in traceback.extract_tb(tb):
        if os.path.realpath(f.filename).startswith(REPO + "/"):
            found = f
    return found


def _on_timer(_sig, _frame):
    raise CaseTimeout("case used {} s of CPU time".format(CASE_CPU_SECONDS))


def execute(facet, case):
    """Run a single case. Returns its labels; raises Violation / CaseTimeout / HarnessError."""
    signal.signal(signal.SIGVTALRM, _on_timer)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_SECONDS)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            return list(facet.run(json.loads(canonical(case))))
    except (Violation, CaseTimeout):
        raise
    except Exception as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        frame = _repo_frame(e.__traceback__)
        if frame is not None:   # valid input, and the code under test crashed instead of giving an outcome
            raise Violation("{}: {} at {}:{} ({})".format(type(e).__name__, e, os.path.basename(frame.filename), frame.lineno, frame.line)) from e
        if isinstance(e, (AttributeError, TypeError, LookupError, ArithmeticError, ValueError)):     # e.g. a category of the outcome is None
            last = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation("the outcome is malformed: {}: {} ({})".format(type(e).__name__, e, last.line)) from e
        raise HarnessError("".join(traceback.format_exception(type(e), e, e.__traceback__))) from e
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def derive_seed(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest(), "big")


class Recorder:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.seen_labels = set()

    def record(self, case, labels):
        self.evaluations += 1
        for l in set(labels):
            self.labels[l] = self.labels.get(l, 0) + 1
        if "nontrivial" in labels:
            text = canonical(case)
            self.nontrivial.add(case_hash(text))
            fresh = set(labels) - self.seen_labels
            if len(text) < 1500 and (fresh and len(self.samples) < 6):
                self.seen_labels |= fresh
                self.samples.append(case)


def shrink_case(facet, case, message, seconds=20):
    """Greedy delta-debugging of a failing case with the facet's own candidates."""
    if facet.shrink is None:
        return case, message
    deadline = time.time() + seconds
    progress = True
    while progress and time.time() < deadline:
        progress = False
        for cand in facet.shrink(case):
            if time.time() > deadline:
                break
            try:
                execute(facet, cand)
            except Violation as e:
                case, message, progress = cand, str(e), True
                break
            except (CaseTimeout, HarnessError):
                continue
    return case, message


def _worker(args):
    pid, facet_name, shard, shards, count, seed = args
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    import registry
    facet = [f for f in registry.load(pid).facets if f.name == facet_name][0]
    rec = Recorder()
    last = {}
    result = {"facet": facet_name, "shard": shard, "job": list(args)}
    t0 = time.time()
    try:
        if facet.bulk is not None:
            rng = random.Random(seed)
            for _ in range(count):
                case = facet.bulk(rng)
                last["case"] = case
                try:
                    labels = execute(facet, case)
                except Violation as e:
                    last["case"], message = shrink_case(facet, case, str(e))
                    raise Violation(message)
                rec.record(case, labels)
        elif facet.enum is not None:
            for case in facet.enum(shard, shards, count):
                last["case"] = case
                rec.record(case, execute(facet, case))
        else:
            import hypothesis
            from hypothesis import settings, HealthCheck, Phase
            import hypothesis.internal.conjecture.engine as engine
            engine.MAX_SHRINKING_SECONDS = 25

            def body(case):
                last["case"] = case
                rec.record(case, execute(facet, case))

            test = hypothesis.given(facet.strategy)(body)
            test = settings(max_examples=count, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
                            phases=[Phase.generate, Phase.shrink],
                            suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example])(test)
            test = hypothesis.seed(seed)(test)
            with contextlib.redirect_stdout(io.StringIO()):
                test()
    except Violation as e:
        result["violation"] = str(e)[:2000]
        result["case"] = last.get("case")
    except CaseTimeout as e:
        result["violation"] = "the code under test did not terminate: " + str(e)
        result["case"] = last.get("case")
    except HarnessError as e:
        result["error"] = str(e)
        result["case"] = last.get("case")
    except BaseException as e:
        # Hypothesis reports a failure whose re-run does not fail again as flaky
        if type(e).__name__ in ("Flaky", "FlakyFailure", "ExceptionGroup"):
            subs = list(getattr(e, "exceptions", [])) + [e.__cause__, e.__context__]
            v = [s for s in subs if isinstance(s, Violation)]
            if v:
                result["violation"] = "(not reproduced on immediate re-run) " + str(v[0])[:2000]
                result["case"] = last.get("case")
        if "violation" not in result:
            result["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))
            result["case"] = last.get("case")
    result.update(evaluations=rec.evaluations, nontrivial=rec.nontrivial, labels=rec.labels, samples=rec.samples, wall=time.time() - t0)
    return result


def run_property(prop, tier, seed):
    t0 = time.time()
    pid = prop.pid
    jobs = []
    only = os.environ.get("VERIF_FACET")
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    for facet in prop.facets:
        if only and facet.name != only:
            continue
        if facet.warm:
            facet.warm()
        total = facet.thorough if tier == "thorough" else facet.quick
        if facet.enum is not None and scale < .5:
            continue        # only while developing the checks
        if facet.enum is None:
            total = max(1, int(total * scale * (prop.quick_factor if tier != "thorough" else 1)))
        shards = facet.shards if facet.enum is not None else min(facet.shards, total)
        for shard in range(shards):
            count = total if facet.enum is not None else -(-total // shards)
            jobs.append((pid, facet.name, shard, shards, count, derive_seed(seed, pid, facet.name, shard)))
    jobs.sort(key=lambda j: (j[2], j[1]))
    results = []
    bad = None
    base, default_base = tempfile.mkdtemp(prefix="verif-"), tempfile.tempdir
    tempfile.tempdir = base     # scratch directories of terminated workers are removed, too
    pool = multiprocessing.get_context("fork").Pool(int(os.environ.get("VERIF_WORKERS", min(8, os.cpu_count() or 8))))
    try:
        it = pool.imap_unordered(_worker, jobs)
        for _ in jobs:
            try:
                r = it.next(timeout=max(1, WALL_LIMIT - (time.time() - t0)))
            except multiprocessing.TimeoutError:
                print("ERROR: the check did not finish within {} s".format(WALL_LIMIT))
                return 4
            results.append(r)
            if "violation" in r or "error" in r:
                bad = r
                break
    finally:
        pool.terminate()
        pool.join()
        tempfile.tempdir = default_base
        shutil.rmtree(base, ignore_errors=True)
    evaluations = sum(r["evaluations"] for r in results)
    nontrivial = set().union(*[r["nontrivial"] for r in results]) if results else set()
    labels, samples = {}, []
    for r in results:
        for k, v in r["labels"].items():
            key = r["facet"] + ": " + k
            labels[key] = labels.get(key, 0) + v
    for f in prop.facets:
        pick = [s for r in results if r["facet"] == f.name for s in r["samples"]]
        samples += [{"facet": f.name, "case": s} for s in pick[:3]]
    wall = time.time() - t0
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": prop.rule,
            "samples": samples[:24],
            "classes": dict(sorted(labels.items())),
            "facets": {f.name: sum(r["evaluations"] for r in results if r["facet"] == f.name) for f in prop.facets},
        },
        "assumptions": prop.assumptions,
        "wall_s": round(wall, 2),
        "violations": 1 if bad is not None and "violation" in bad else 0,
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
    if bad is not None and "violation" in bad:
        known = known_findings(pid)
        text = canonical(bad["case"])
        path = os.path.join(EVIDENCE, "replay-{}-{:016x}.json".format(pid, case_hash(bad["facet"] + text)))
        with open(path, "w") as f:
            json.dump({"property": pid, "facet": bad["facet"], "case": bad["case"], "message": bad["violation"], "job": bad["job"]}, f, indent=1)
        print("facet {}: {}".format(bad["facet"], bad["violation"]))
        print("case: {}".format(text if len(text) < 3000 else text[:3000] + "..."))
        print("VIOLATION property={} replay={}".format(pid, path))
        return 1
    if bad is not None:
        print("ERROR in facet {} (harness, not a violation):\n{}\ncase: {}".format(bad["facet"], bad["error"], bad.get("case")))
        return 3
    for line in known_findings(pid):
        print("KNOWN-FINDING: property={} {}".format(pid, line))
    if not nontrivial:
        print("ERROR: no non-trivial case was generated")
        return 3
    print("property {} held: {} cases ({} distinct non-trivial) in {:.1f} s".format(pid, evaluations, len(nontrivial), wall))
    return 0


def known_findings(pid):
    path = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            prefix = "finding: property={} ".format(pid)
            if line.startswith(prefix):
                out.append(line[len(prefix):].strip())
    return out


def replay(path):
    import registry
    data = json.load(open(path))
    prop = registry.load(data["property"])
    facet = [f for f in prop.facets if f.name == data["facet"]][0]
    if facet.warm:
        facet.warm()
    try:
        labels = execute(facet, data["case"])
    except (Violation, CaseTimeout) as e:
        print("facet {}: {}".format(facet.name, e))
        print("VIOLATION property={} replay={}".format(prop.pid, path))
        return 1
    if data.get("job"):     # perhaps it needs the history of the process: run all the cases that preceded it
        r = _worker(tuple(data["job"]))
        if "violation" in r:
            print("facet {}, after the cases that preceded this one in its process: {}".format(facet.name, r["violation"]))
            print("VIOLATION property={} replay={}".format(prop.pid, path))
            return 1
    print("the case no longer violates the property; labels: {}".format(labels))
    return 0
