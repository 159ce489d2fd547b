"""One check: design models, histories, the real code, trace validation, evidence."""
import collections, json, os, random, shutil, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import core, plan, scen

KNOWN = os.path.join(core.VERIF, "known-findings.txt")


def known_findings(prop):
    """Lines 'known: property=<id> event=<json> <text>'; event fields must all match."""
    res = []
    try:
        lines = open(KNOWN).read().splitlines()
    except OSError:
        return res
    for line in lines:
        head = "known: property=%s event=" % prop
        if line.startswith(head):
            obj, end = json.JSONDecoder().raw_decode(line[len(head):])
            res.append((obj, line[len(head) + end:].strip()))
    return res


def matches(pattern, event):
    return all(k in event and event[k] == v for k, v in pattern.items())


# ------------------------------------------------------------------ histories

def design(entry, tier, work, workers):
    """Model-check one design model; (name, generated, distinct, histories, table)."""
    cfg = entry["thorough"] if tier == "thorough" and entry.get("thorough") else entry["quick"]
    t = time.time()
    rc, out = core.tlc(entry["module"] + ".tla", cfg, work, workers=workers, heap="6g" if tier == "thorough" else "4g",
                       timeout=1500)
    if rc != 0 or "No error has been found" not in out:
        keep = os.path.join(core.VERIF, "replays", "design-%s.log" % cfg)
        os.makedirs(os.path.dirname(keep), exist_ok=True)
        lines = [x for x in out.splitlines() if not x.startswith('"')]
        open(keep, "w").write("\n".join(lines))
        raise core.ToolError("the specification's own model %s with %s failed (%s):\n%s"
                             % (entry["module"], cfg, keep, "\n".join(lines)[-2500:]))
    gen, dist = core.stats(out)
    return dict(model=entry["module"], config=cfg, transitions=gen, states=dist, wall_s=round(time.time() - t, 1),
                histories=core.printed(out, "SCN"), table=(core.printed(out, "TAB") or [None])[0])


def sample(hs, cap, rng):
    """At most `cap` operations' worth of histories; all of them if they fit."""
    total = sum(len(h) for h in hs)
    if total <= cap:
        return list(hs), True
    order = list(range(len(hs)))
    rng.shuffle(order)
    res, n = [], 0
    for k in order:
        if n >= cap:
            break
        res.append(hs[k])
        n += len(hs[k])
    return res, False


def encoder_ops(table, tier, rng):
    """The encoder automaton TLC printed, run over ranges of integers."""
    lo, hi = -2 ** 31, 2 ** 31 - 1

    def op(a, b, step):
        n = (b - a) // step + 1
        return {"op": "enc32", "table": table, "from": a, "to": b, "step": step, "expect": min(n, 2 ** 31 - 1)}
    if tier == "thorough":
        q = 2 ** 29
        return [[op(lo + k * q, lo + (k + 1) * q - 1, 1)] for k in range(8)]
    res = [[op(lo, lo + 300000, 1)], [op(hi - 300000, hi, 1)], [op(-1200000, 1200000, 1)]]
    res += [[op(lo + rng.randrange(9973), hi, 9973)]]
    res += [[op(s * (1 << k) - 3000, min(hi, s * (1 << k) + 3000), 1)] for k in range(20, 31) for s in (1, -1)]
    return res


# ----------------------------------------------------------------- validation

def shards_of(scenarios, limit):
    """Split by number of operations; long histories first, greedily balanced."""
    total = sum(len(s["ops"]) for s in scenarios) or 1
    n = max(1, min(len(scenarios), max(core.CORES, -(-total // limit))))
    bins = [[0, k, []] for k in range(n)]
    import heapq
    heapq.heapify(bins)
    for s in sorted(scenarios, key=lambda x: -len(x["ops"])):
        b = heapq.heappop(bins)
        b[2].append(s)
        b[0] += len(s["ops"])
        heapq.heappush(bins, b)
    return [sorted(b[2], key=lambda s: s["sid"]) for b in bins if b[2]]


def run_histories(prop, scenarios, work, op_limit=20, limit=20000, stop_early=True, until=None):
    """Drive and validate; rejections as (event, scenario)."""
    parts = shards_of(scenarios, limit)
    state = dict(bad=0, late=False)

    def one(k):
        if stop_early and state["bad"] >= 40:
            return [], 0, 0, 0, collections.Counter()
        part = parts[k]
        trace = os.path.join(work, "trace-%s-%d.ndjson" % (prop, k))
        left = 150 if until is None else max(5, min(150, until - time.time()))
        if core.drive(part, trace, op_limit, left):
            state["late"] = True
        rejects, judged, states = core.validate(prop, trace, work)
        ops, n, found = collections.Counter(), 0, []
        want = {(s, i) for s, i, _ in rejects}
        by = {s["sid"]: s for s in part}
        sids = set()
        with open(trace) as f:
            for line in f:
                e = json.loads(line)
                n += 1
                sids.add(e["sid"])
                ops[e["op"]] += 1
                if (e["sid"], e["i"]) in want:
                    found.append((e, by[e["sid"]]))
        os.remove(trace)
        state["bad"] += len(found)
        return found, judged, states, len(sids), ops

    res = core.parallel(one, range(len(parts)))
    found = [x for r in res for x in r[0]]
    ops = collections.Counter()
    for r in res:
        ops.update(r[4])
    return dict(found=found, judged=sum(r[1] for r in res), states=sum(r[2] for r in res),
                traces=sum(r[3] for r in res), ops=ops, shards=len(parts), late=state["late"])


THOROUGH_S = float(os.environ.get("RSM_THOROUGH_S", 480))      # thorough: rounds of further random histories until this much time has gone


DRIVE_S = 300      # what has not run by then is not judged: slow code is not wrong code


MAKERS = {"gen_new", "new", "new_gen", "aset_new", "aset_from", "aset_clone", "mlist_new"}


def shrink(prop, event, scenario, work, seconds=60):
    """Leave out operations that the rejection does not need."""
    ops, end = scenario["ops"][:event["i"]], time.time() + seconds
    try:
        size = max(1, len(ops) // 2)
        while time.time() < end and len(ops) > 1:
            cands = []
            for a in range(0, len(ops) - 1, size):
                keep = ops[:a] + [o for o in ops[a:min(a + size, len(ops) - 1)] if o["op"] in MAKERS] + ops[min(a + size, len(ops) - 1):]
                if len(keep) < len(ops):
                    cands.append(keep)
            hit = None
            if cands:
                cands = cands[:64]
                r = run_histories(prop, [dict(sid=k, ops=c) for k, c in enumerate(cands)], work, 5, stop_early=False)
                hits = sorted(e["sid"] for e, s in r["found"] if e["i"] == len(s["ops"]))
                hit = cands[hits[0]] if hits else None
            if hit is not None:
                ops = hit
            elif size == 1:
                break
            else:
                size //= 2
    except core.ToolError:
        pass
    return ops


def write_replay(prop, n, event, ops):
    d = os.path.join(core.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (prop, n))
    with open(path, "w") as f:
        json.dump(dict(property=prop, rejected={k: v for k, v in event.items() if k not in ("sid",)}, ops=ops), f, indent=1)
    return path


# --------------------------------------------------------------------- driver

def shorten(x, n=700):
    t = json.dumps(x)
    return x if len(t) <= n else t[:n] + "..."


def check(prop, tier, seed):
    t0 = time.time()
    p = plan.PLAN[prop]
    rng = random.Random("%s/%s/%s" % (prop, seed, tier))
    work = tempfile.mkdtemp(prefix="rsm-%s-" % prop)
    try:
        with ThreadPoolExecutor(1) as ex:
            built = ex.submit(core.build)
            models = [design(m, tier, work, core.CORES) for m in p["models"]]
            built.result()
        scenarios, origin, complete = [], [], {}
        cap = p["cap"][tier]
        for m, d in zip(p["models"], models):
            hs, full = sample(d["histories"], cap, rng)
            if d["table"]:
                hs = hs + encoder_ops(d["table"], tier, rng)
            complete[d["config"]] = full
            d["replayed"] = len(hs)
            scenarios += hs
        n_spec = len(scenarios)
        scenarios += scen.histories(prop, seed, p["random"])
        scenarios = [dict(sid=k, ops=ops) for k, ops in enumerate(scenarios) if ops]
        r = run_histories(prop, scenarios, work, p.get("op_limit", 20), until=time.time() + DRIVE_S)
        count, rounds = len(scenarios), 1
        while tier == "thorough" and not r["found"] and not r["late"] and time.time() - t0 < THOROUGH_S:
            more = [dict(sid=count + k, ops=ops)
                    for k, ops in enumerate(scen.histories(prop, "%s/%d" % (seed, rounds), 3 * p["random"])) if ops]
            x = run_histories(prop, more, work, p.get("op_limit", 20))
            r = dict(found=x["found"], judged=r["judged"] + x["judged"], states=r["states"] + x["states"],
                     traces=r["traces"] + x["traces"], ops=r["ops"] + x["ops"], shards=x["shards"], late=x["late"])
            count += len(more)
            rounds += 1
        known, fresh = [], []
        patterns = known_findings(prop)
        for e, s in r["found"]:
            hit = [txt for pat, txt in patterns if matches(pat, e)]
            (known if hit else fresh).append((e, s, hit))
        for txt in sorted({h for _, _, hs in known for h in hs}):
            print("KNOWN-FINDING: property=%s %s" % (prop, txt))
        lines = []
        for n, (e, s, _) in enumerate(fresh[:3]):
            ops = shrink(prop, e, s, work) if n == 0 else s["ops"][:e["i"]]
            lines.append("VIOLATION property=%s replay=%s" % (prop, write_replay(prop, n, e, ops)))
            print("rejected: %s" % json.dumps({k: v for k, v in e.items() if k not in ("sid",)})[:1500])
        picks = rng.sample(scenarios, min(3, len(scenarios)))
        evidence = dict(
            property=prop, tier=tier, seed=seed, level="model_checking",
            coverage=dict(
                states=sum(m["states"] for m in models) + r["states"],
                transitions=sum(m["transitions"] for m in models) + r["states"],
                traces_validated_against_impl=r["traces"],
                samples=[shorten(x["ops"]) for x in picks],
                design_models=[{k: v for k, v in m.items() if k not in ("histories", "table")}
                               | dict(histories=len(m["histories"]), all_histories_replayed=complete[m["config"]]) for m in models],
                trace_states=r["states"], spec_generated_traces=n_spec, random_traces=count - n_spec, rounds=rounds, cut_short=r["late"],
                answers_judged=r["judged"], operations=dict(r["ops"]),
                explanation="states and transitions: TLC on the design models plus the trace specification; "
                            "every trace is the recorded behaviour of the crate built from /repo's working tree, "
                            "checked event by event against spec/Trace.tla"),
            assumptions=p.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(fresh))
        os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(core.VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
        print("%s %s seed=%d: design states %d, traces %d (%d from the specification), events %d, judged %d, rejected %d, known %d, %.1fs"
              % (prop, tier, seed, sum(m["states"] for m in models), r["traces"], n_spec, sum(r["ops"].values()),
                 r["judged"], len(fresh), len(known), time.time() - t0))
        for line in lines:
            print(line)
        if r["late"]:
            print("the code is too slow for all of the histories in the time given; what was not run is not judged")
        if not fresh and (r["judged"] == 0 or r["traces"] != count and not r["late"]):
            raise core.ToolError("nothing was judged, or not every trace was read")
        return 1 if fresh else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    data = json.load(open(path))
    core.build()
    work = tempfile.mkdtemp(prefix="rsm-replay-")
    try:
        r = run_histories(data["property"], [dict(sid=0, ops=data["ops"])], work)
        for e, _ in r["found"]:
            print("rejected: " + json.dumps(e))
            print("VIOLATION property=%s replay=%s" % (data["property"], path))
        if not r["found"]:
            print("accepted: %d events, %d judged" % (sum(r["ops"].values()), r["judged"]))
        return 1 if r["found"] else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
