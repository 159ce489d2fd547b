#!/usr/bin/env python3
"""Does every clause of the specification matter? Change one token of it at a time and look whether the
verdicts over a fixed set of recorded traces (real ones, and real ones with one answer falsified) change.
A change nobody notices is a clause no history exercises, or one that says the same in other words.

  specmut.py [-j N] [module[:first line] ...]      prints the unnoticed changes"""
import collections, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.path.insert(0, os.path.join(VERIF, "tools"))
sys.dont_write_bytecode = True
import core, plan, scen, check, selftest

MODULES = {
    "Vlq": "C20 C01 C25", "SourceMapText": "C01 C25 C02 C28 C07", "Lookup": "C07 C08 C09 C11 C16 C17 C18",
    "Url": "C24 C13 C14 C26 C05", "Generator": "C01 C04 C05 C06 C02 C03 C23",
    "Consumer": "C10 C15 C11 C16 C17 C18 C19 C26 C08 C09 C25 C28", "Containers": "C21 C22 C23", "Document": "C28",
    "Common": "C07 C09 C13 C17 C24 C28",
    "Trace": " ".join(sorted(plan.PLAN))}

SWAPS = [(r"<=", "<"), (r">=", ">"), (r"(?<![<=:])<(?![<=])", "<="), (r"(?<![>=|\-])>(?![>=])", ">="),
         (r"(?<![<>=:/\\]) = ", " # "), (r" # ", " = "), (r"\\in\b", r"\\notin"), (r"\\notin\b", r"\\in"),
         (r"(?<=\S )/\\", r"\\/"), (r"(?<=\S )\\/", r"/\\"), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "),
         (r"\\A", r"\\E"), (r"\\E", r"\\A"), (r"\bTRUE\b", "FALSE"), (r"\bFALSE\b", "TRUE"),
         (r"\bIF (.*?) THEN", r"IF ~(\1) THEN"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\bMin\b", "Max"), (r"\bMax\b", "Min"),
         (r"~", ""), (r"=>", "/\\\\")]


def code_lines(text):
    """Line numbers that are code: not comments, not headers."""
    res, depth = [], 0
    for n, line in enumerate(text.split("\n")):
        start = depth
        depth += line.count("(*") - line.count("*)")
        s = line.strip()
        if start or depth or s.startswith("(*") or s.startswith("\\*") or s.startswith("----") or s.startswith("====") or s.startswith("EXTENDS") or not s:
            continue
        res.append(n)
    return res


def mutants(mod):
    text = open(os.path.join(core.SPEC, mod + ".tla")).read()
    lines = text.split("\n")
    stop = next((n for n, x in enumerate(lines) if x.startswith("TraceInit")), len(lines)) if mod == "Trace" else len(lines)
    for n in code_lines(text):
        if n >= stop:
            break
        line = lines[n].split("\\*")[0] if "\\* " in lines[n] else lines[n]
        seen = set()
        for pat, rep in SWAPS:
            for m in re.finditer(pat, line):
                new = line[:m.start()] + m.expand(rep) + line[m.end():]
                if new != line and new not in seen:
                    seen.add(new)
                    yield n, line, new, "\n".join(lines[:n] + [new] + lines[n + 1:])
        m = re.match(r"^(\s*)(/\\|\\/) (.*)$", line)          # leave out a whole clause
        if m:
            new = m.group(1) + m.group(2) + (" TRUE" if m.group(2) == "/\\" else " FALSE")
            yield n, line, new, "\n".join(lines[:n] + [new] + lines[n + 1:])


def record(prop, work):
    """Recorded traces of one property: real histories and falsified ones."""
    r = random.Random("mut" + prop)
    hs = []
    for m in plan.PLAN[prop]["models"]:
        d = check.design(m, "quick", work, 4)
        hs += check.sample(d["histories"], 900, r)[0]
    hs += scen.histories(prop, 5, 120)
    hs = [h for h in hs if len(h) <= 400]
    raw = os.path.join(work, prop + ".raw")
    core.drive([dict(sid=k, ops=o) for k, o in enumerate(hs)], raw, 20)
    by = collections.OrderedDict()
    for line in open(raw):
        e = json.loads(line)
        by.setdefault(e["sid"], []).append(e)
    out = [e for es in by.values() for e in es]
    sid = len(hs)
    room = 6000
    for es in sorted(by.values(), key=len):
        for _ in range(2):
            idx = [k for k, e in enumerate(es) if e["op"] in selftest.RELEVANT[prop]]
            if not idx or room < 0:
                continue
            k = r.choice(idx)
            x = selftest.falsify(es[k], r)
            if x is None:
                continue
            for j, e in enumerate(es[:k + 1]):
                out.append(dict(x[0] if j == k else e, sid=sid))
            room -= k + 1
            sid += 1
    path = os.path.join(work, prop + ".ndjson")
    for _ in range(60):          # leave out what the specification has no value for at all
        with open(path, "w") as f:
            for e in out:
                f.write(json.dumps(e) + "\n")
        if verdict(core.SPEC, prop, path) != "error":
            break
        rc, text = core.tlc("Trace.tla", "Trace.cfg", work, {"PROP": prop, "TRACE": path})
        bad = out[int(re.findall(r"depth of the complete state graph search is (\d+)", text)[-1]) - 1]["sid"]
        out = [e for e in out if e["sid"] != bad]
    return path


def verdict(spec, prop, trace):
    meta = tempfile.mkdtemp(dir=spec)
    e = core.env()
    e.update(PROP=prop, TRACE=trace)
    cmd = ["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xmx2g", "-Xss64m", "-Djava.io.tmpdir=" + meta, "-cp", core.JARS, "tlc2.TLC",
           "-noGenerateSpecTE", "-metadir", meta, "-workers", "1", "-config", "Trace.cfg", "Trace.tla"]
    try:
        p = subprocess.run(cmd, cwd=spec, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
    except subprocess.TimeoutExpired:
        return "time"
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    if p.returncode and re.search(r"Parsing or semantic analysis failed|Parse Error|Lexical error|Semantic error|level error", out):
        return "invalid"
    if p.returncode:
        return "error"
    return tuple(sorted(re.findall(r'<<"REJECT", (-?\d+), (\d+), "(\w+)">>', out)))


def main(args):
    jobs = core.CORES
    if args[:1] == ["-j"]:
        jobs, args = int(args[1]), args[2:]
    core.build()
    work = tempfile.mkdtemp(prefix="rsm-mut-")
    try:
        frozen = os.path.join(work, "spec")     # the specification may go on changing
        shutil.copytree(core.SPEC, frozen, ignore=shutil.ignore_patterns("states"))
        core.SPEC = frozen
        first = {a.split(":")[0]: int(a.split(":")[1]) for a in args if ":" in a}
        mods = [a.split(":")[0] for a in args] or list(MODULES)
        props = sorted({p for m in mods for p in MODULES[m].split()})
        with ThreadPoolExecutor(jobs) as ex:
            traces = dict(zip(props, ex.map(lambda p: record(p, work), props)))
            base = dict(zip(props, ex.map(lambda p: verdict(core.SPEC, p, traces[p]), props)))
        for p in props:
            if base[p] in ("time", "invalid", "error"):
                raise SystemExit("no verdict on the unchanged specification: %s %s" % (p, base[p]))
        todo = [(m,) + x for m in mods for x in mutants(m) if x[0] + 1 >= first.get(m, 0)]
        print("%d changes to try, %d properties recorded" % (len(todo), len(props)), flush=True)

        def one(x):
            mod, n, old, new, text = x
            spec = tempfile.mkdtemp(dir=work)
            try:
                for f in os.listdir(core.SPEC):
                    if f.endswith((".tla", ".json")) or f == "Trace.cfg":
                        shutil.copy(os.path.join(core.SPEC, f), spec)
                open(os.path.join(spec, mod + ".tla"), "w").write(text)
                for p in MODULES[mod].split():
                    if mod == "Trace":
                        own = re.findall(r'"(C\d\d)"', old)
                        if own and p not in own:
                            continue
                    v = verdict(spec, p, traces[p])
                    if v == "invalid":
                        return x, "invalid"
                    if v != base[p]:
                        return x, p
                return x, None
            finally:
                shutil.rmtree(spec, ignore_errors=True)
        tally = collections.Counter()
        with ThreadPoolExecutor(jobs) as ex:
            for x, v in ex.map(one, todo):
                tally["invalid" if v == "invalid" else "noticed" if v else "unnoticed"] += 1
                if v is None:
                    print("UNNOTICED %s:%d\n    %s\n    %s" % (x[0], x[1] + 1, x[2].strip(), x[3].strip()), flush=True)
        print(dict(tally))
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main(sys.argv[1:])
