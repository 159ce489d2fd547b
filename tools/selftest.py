#!/usr/bin/env python3
"""Does the trace specification notice wrong answers? Record real traces, falsify one answer per
trace, and count how many falsified traces are rejected, per property, operation and kind of change.

  selftest.py [prop ...]      a property whose judge accepts everything shows as 0%"""
import collections, copy, json, os, random, shutil, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.dont_write_bytecode = True
import core, plan, scen, check

RELEVANT = {
    "C01": ["gen_json"], "C02": ["orig", "genpos", "each"], "C03": ["gen_json"], "C04": ["gen_json"], "C05": ["gen_json"],
    "C06": ["gen_add", "gen_json"], "C07": ["orig"], "C08": ["genpos"], "C09": ["allpos"], "C10": ["each"],
    "C11": ["orig", "genpos", "allpos", "each"], "C12": ["orig", "genpos", "allpos", "each", "content", "hasall", "sources"],
    "C13": ["new", "csu", "sources"], "C14": ["content", "genpos", "allpos"], "C15": ["content", "hasall"], "C16": ["orig"],
    "C17": ["genpos", "allpos"], "C18": ["each"], "C19": ["build", "new"], "C20": ["vlq", "b64"], "C21": ["search"],
    "C22": ["aset_has", "aset_index", "aset_at", "aset_size", "aset_list"], "C23": ["mlist_list", "mlist_iter", "cmp", "strcmp"],
    "C24": ["join", "relative", "rejoin"], "C25": ["orig", "genpos", "allpos", "each", "new", "new_raw"],
    "C26": ["new", "sources", "content", "hasall"], "C27": ["orig", "genpos", "allpos", "each", "content", "hasall", "sources", "new", "views"],
    "C28": ["rewrite", "held"], "C29": ["orig", "genpos", "allpos", "each", "content", "gen_json"]}


def leaves(v, path=()):
    if isinstance(v, dict):
        for k in sorted(v):
            yield from leaves(v[k], path + (k,))
    elif isinstance(v, list):
        yield path
        for k, x in enumerate(v):
            yield from leaves(x, path + (k,))
    else:
        yield path


def at(v, path):
    for k in path:
        v = v[k]
    return v


def falsify(e, r):
    """A copy of the event with one wrong answer, and what was done; None if it can not be done."""
    f = copy.deepcopy(e)
    if f["r"]["k"] == "panic":
        f["r"] = {"k": "ok", "v": []}
        return f, "panic to nothing"
    if r.random() < 0.15:
        f["r"] = {"k": "panic", "v": []} if "v" in f["r"] else {"k": "panic"}
        return f, "answer to panic"
    p = r.choice(list(leaves(f["r"]["v"])))
    old = at(f["r"]["v"], p)
    if isinstance(old, list):
        if not old:
            return None
        new = old[:-1] if r.random() < 0.5 else old + [copy.deepcopy(old[-1])]
        what = "shorter" if len(new) < len(old) else "longer"
    elif isinstance(old, bool):
        new, what = not old, "flipped"
    elif isinstance(old, int):
        new, what = old + r.choice([1, -1]) if abs(old) < 2 ** 31 - 1 else 0, "number"
    elif isinstance(old, str):
        new, what = old + "x", "text"
    else:
        return None
    if p:
        at(f["r"]["v"], p[:-1])[p[-1]] = new
    else:
        f["r"]["v"] = new
    names = "/".join(str(k) for k in p if isinstance(k, str))
    return f, "%s %s" % (what, names)


def main(props):
    core.build()
    rc = 0
    for prop in props or sorted(plan.PLAN):
        r = random.Random(prop)
        work = tempfile.mkdtemp(prefix="rsm-self-")
        try:
            hs = scen.histories(prop, 77, 60)
            trace = os.path.join(work, "t.ndjson")
            core.drive([dict(sid=k, ops=o) for k, o in enumerate(hs)], trace, 20)
            by = collections.defaultdict(list)
            for line in open(trace):
                e = json.loads(line)
                by[e["sid"]].append(e)
            out, kind, sid = [], {}, 0
            for es in by.values():
                for _ in range(6):
                    idx = [k for k, e in enumerate(es) if e["op"] in RELEVANT[prop]]
                    if not idx:
                        continue
                    k = r.choice(idx)
                    x = falsify(es[k], r)
                    if x is None:
                        continue
                    for j, e in enumerate(es):
                        out.append(dict(x[0] if j == k else e, sid=sid))
                    kind[sid] = (es[k]["op"], x[1], es[k]["i"])
                    sid += 1
            per = max(1, len(kind) // 8)
            files = []
            for a in range(0, sid, per):
                p = os.path.join(work, "f%d.ndjson" % a)
                with open(p, "w") as f:
                    for e in out:
                        if a <= e["sid"] < a + per:
                            f.write(json.dumps(e) + "\n")
                files.append(p)
            rej = set()
            for rs, _, _ in core.parallel(lambda p: core.validate(prop, p, work), files):
                rej |= {s for s, i, op in rs}
            tot, hit = collections.Counter(), collections.Counter()
            for s, (op, what, i) in kind.items():
                tot[op, what] += 1
                hit[op, what] += s in rej
            print("%s: %d of %d falsified traces rejected" % (prop, len(rej), len(kind)))
            for key in sorted(tot):
                if hit[key] < tot[key]:
                    print("    %-10s %-34s %d of %d" % (key[0], key[1], hit[key], tot[key]))
            if not rej:
                rc = 1
        finally:
            shutil.rmtree(work, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
