"""Seeded random histories per property. They are inputs only: nothing here
knows what an answer should be; TLC judges the recorded traces."""
import random
import re

B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
MAXI = 2 ** 31 - 1


def opt(x):
    return [] if x is None else [x]


def vlq(v):
    v = (-v << 1) | 1 if v < 0 else v << 1
    out = ""
    while True:
        d, v = v & 31, v >> 5
        out += B64[d | (32 if v else 0)]
        if not v:
            return out


def text(segs):
    """Segments (gl, gc, None | (s, l, c, None | n)) to mappings text."""
    out, line, f, first = [], 1, [0] * 5, True
    for gl, gc, o in segs:
        while line < gl:
            out.append(";")
            line += 1
            f[0], first = 0, True
        if not first:
            out.append(",")
        first = False
        v = [gc] + ([] if o is None else [o[0], o[1] - 1, o[2]] + ([] if o[3] is None else [o[3]]))
        for k, x in enumerate(v):
            out.append(vlq(x - f[k]))
            f[k] = x
    return "".join(out)


def doc(mtext="", sources=(), names=(), root=None, contents=None, file=None, version=3, sections=None):
    d = {"version": version, "file": opt(file), "root": opt(root), "sources": opt(list(sources)),
         "names": opt(list(names)), "m": opt([ord(c) for c in mtext]),
         "contents": opt(None if contents is None else [opt(c) for c in contents]),
         "sections": opt(sections)}
    if sections is not None:
        for k in ("sources", "names", "m"):
            d[k] = []
    return d


def section(ol, oc, d, url=None):
    return {"ol": ol, "oc": oc, "url": opt(url), "doc": d}


# ------------------------------------------------------------------- segments

COLS = [0, 0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 40, 63, 64, 100, 511, 512, 513, 1023, 1024]
BIG = [16383, 16384, 32767, 65535, 1 << 20, (1 << 25) - 1, 1 << 25, (1 << 30) - 1, 1 << 30, MAXI - 2, MAXI - 1]


def rcol(r, big=0.03):
    x = r.random()
    if x < big:
        return r.choice(BIG)
    if x < 0.6:
        return r.choice(COLS)
    return r.randrange(0, r.choice([4, 10, 50, 200]))


def rline(r, top):
    return r.randrange(1, top + 1)


class Map:
    """A random plain map."""

    def __init__(self, r, nsrc=None, size=None, lines=None, ties=None, nameless=0.5, origless=0.15, unsorted=0.1,
                 src=None, big=0.03, dense_orig=None):
        self.nsrc = nsrc if nsrc is not None else r.choice([1, 1, 2, 2, 3, 3, 5, 12])
        self.names = odd_names(r, ["n%d" % i for i in range(r.choice([1, 2, 5, 20, 40]))])
        self.sources = src if src is not None else plain_sources(r, self.nsrc)
        self.nsrc = len(self.sources)
        size = size if size is not None else r.choice([0, 1, 2, 3, 5, 8, 13, 20, 40, 80])
        lines = lines or r.choice([1, 1, 2, 3, 5, 10, 30])
        if r.random() < 0.2:                 # columns in steps of one and two, so that ends and offsets coincide
            rcol = lambda r, big: r.randrange(0, r.choice([4, 8, 14]))
        else:
            rcol = globals()["rcol"]
        gap = r.choice([0, 0, 0, 3, 40]) if lines < 30 else 0
        base = 0
        if r.random() < 0.03:                # far down, or far apart
            gap, base = r.choice([(0, 300), (300, 0), (1100, 0), (0, 1100), (40, 260)])
        ties = r.random() < 0.35 if ties is None else ties
        ocols = dense_orig if dense_orig is not None else (r.random() < 0.5)
        oline = r.choice([1, 2, 3, 10, 200])
        # sources that get no mapping at all, so that buckets are empty
        used = [s for s in range(self.nsrc) if r.random() < 0.8] or ([0] if self.nsrc else [])
        segs, seen = [], set()
        for _ in range(size):
            gl = rline(r, lines)
            gl += base + (gap if gl > lines // 2 else 0)
            gc = rcol(r, big)
            if (gl, gc) in seen and not ties:
                continue
            seen.add((gl, gc))
            o = None
            if used and r.random() >= origless:
                ol = rline(r, oline) if r.random() > big else r.choice([1000, 70000, MAXI])
                oc = r.randrange(0, 4) if ocols else rcol(r, big)
                o = (r.choice(used), ol, oc, None if r.random() < nameless else r.randrange(len(self.names)))
            segs.append((gl, gc, o))
            if ties and r.random() < 0.2:
                segs.append(segs[-1])
        segs.sort(key=lambda m: (m[0], m[1]))
        self.segs = segs
        order = list(segs)
        if r.random() < unsorted:            # a writer that does not sort within a line
            order.sort(key=lambda m: (m[0], r.random()))
        self.text = text(order)

    def doc(self, **kw):
        return doc(self.text, self.sources, self.names, **kw)


def big_map(r):
    """Past the sizes that small counters hold: many sources, names, lines, or segments of one line."""
    k = r.randrange(5)
    n = r.choice([260, 300, 520, 1030])
    m = Map(r, nsrc=n if k == 0 else 2, size=40, lines=3)
    m.names = ["n%d" % i for i in range(n if k == 1 else 20)]
    segs = set()
    for i in range(300 if k < 2 else n):
        gl, gc = (i + 1, r.choice([0, 1, 5])) if k == 2 else (1 + r.randrange(2), 3 * i + r.randrange(3)) if k == 3 else (rline(r, 40), r.randrange(400))
        ol, oc = (1 + r.randrange(2 * n), r.randrange(3)) if k == 4 else (rline(r, 30), r.randrange(40))
        segs.add((gl, gc, (r.randrange(m.nsrc), ol, oc, None if r.random() < 0.3 else r.randrange(len(m.names)))))
    m.segs = sorted(segs, key=lambda x: (x[0], x[1], x[2][:3], x[2][3] is None, x[2][3] or 0))
    m.text = text(m.segs)
    return m


def some_map(r, **kw):
    return big_map(r) if r.random() < 0.02 else Map(r, **kw)


def alias(r, s):
    """Another spelling of the same source."""
    if s.startswith("http"):
        h, _, rest = s[len("http://"):].partition("/")
        return "http://%s/%s/%s" % (h, r.choice([".", "q/..", "x/y/../.."]), rest)
    if s.startswith("/"):
        return r.choice(["/.", "/q/..", "/../k/.."]) + s
    return r.choice([".", "q/..", "x/./..", "q/../."]) + "/" + s


def with_aliases(r, srcs, p=0.25):
    """Sometimes entries that are different strings and name the same source."""
    if len(srcs) < 2 or r.random() >= p:
        return srcs
    srcs = list(srcs)
    for _ in range(r.choice([1, 1, 2])):
        i = r.randrange(len(srcs) - 1)
        j = r.randrange(i + 1, len(srcs))
        a = alias(r, srcs[i])
        if a not in srcs:
            srcs[j] = a
        if r.random() < 0.5:                 # and something listed after them
            srcs.append("z%d.js" % len(srcs))
    return srcs


def with_near(r, srcs, p=0.2):
    """Sometimes entries that are nearly another one."""
    if len(srcs) < 2 or r.random() >= p:
        return srcs
    srcs = list(srcs)
    for _ in range(r.choice([1, 2])):
        i, j = r.sample(range(len(srcs)), 2)
        s = srcs[i]
        d, _, f = s.rpartition("/")
        a = (d + "/" if d else "") + r.choice([f.upper(), f.capitalize(), f + "x", f[:-1] or "q", "lib/" + f, f + ".map", f.replace(".", "-")])
        if a not in srcs:
            srcs[j] = a
    return srcs


PIECES = list("abcdefgxyzABZ0189 \t\n\r\\/\"'`.,;:-_+=*?#%&<>|!@$^~(){}[]") + [
    "\r\n", "\n\r", "\ufeff", "\u0000", "\u0001", "\u001b", "\u007f", "\u0085", "\u00a0", "\u00df", "\u0130", "e\u0301", "\u00e9", "\u200b",
    "\u2028", "\u2029", "\ufffd", "\uffff", "\U00010000", "\U0001f600", "\U0010ffff", "%20", "%2F", "\\n", "\\u0041", "&amp;", "//", "/*", "*/",
    "..", "./", "null", "true", "undefined", "__proto__", "__rust", "${x}", "{}", "{0}", "sourceMappingURL=", "-->", "1e9", "0x"]


def anytext(r):
    """A text nobody may look into: what it is made of must not matter."""
    x = r.random()
    if x < 0.04:
        return r.choice(PIECES) * r.choice([255, 256, 257, 1000, 4100])
    n = r.choice([1, 1, 2, 3, 5, 8])
    s = "".join(r.choice(PIECES) for _ in range(n))
    if x < 0.3:                              # white space, line ends and slashes at the ends
        s = r.choice(["", " ", "\n", "\t", "/", "\ufeff", "\r\n"]) + s + r.choice(["", " ", "\n", "\r\n", "/", "\\", "\u0000"])
    return s


def odd_names(r, names):
    """Sometimes names that are empty, the same twice, or not plain letters."""
    if r.random() < 0.25:
        names = list(names)
        for _ in range(r.choice([1, 2])):
            names[r.randrange(len(names))] = r.choice(["", "", anytext(r), "n0", "N0", " n0", "n0 ", "\u00fc", "\U0001f600", "a\"b", "null", "0", "constructor", "n0\n"])
    return names


def plain_sources(r, n):
    return with_near(r, with_aliases(r, plain_names(r, n)))


def plain_names(r, n):
    kinds = [lambda i: "s%d.js" % i, lambda i: "lib/x%d.js" % i, lambda i: "/abs/y%d.js" % i,
             lambda i: "http://h.org/z%d.js" % i, lambda i: "d%d/e/f.ts" % i, lambda i: chr(97 + i % 26) + ("" if i < 26 else str(i))]
    k = r.randrange(len(kinds) + 2)
    return [kinds[k](i) if k < len(kinds) else kinds[r.randrange(len(kinds))](i) for i in range(n)]


def gen_queries(r, segs, n):
    """(line, column) pairs around generated positions."""
    q = []
    for _ in range(n):
        if segs and r.random() < 0.8:
            gl, gc, _ = r.choice(segs)
            x = r.random()
            if x < 0.35:
                q.append((gl, gc))
            elif x < 0.55:
                q.append((gl, min(MAXI, gc + 1)))
            elif x < 0.75:
                q.append((gl, max(0, gc - 1)))
            elif x < 0.85:
                q.append((gl + r.choice([1, -1]) if gl > 1 else gl + 1, r.choice([0, gc, 1000])))
            else:
                q.append((gl, r.choice([0, 1, 5, 30, 500, MAXI])))
        else:
            q.append((r.choice([1, 2, 3, 4, 50, MAXI]), r.choice([0, 1, 2, 10, 100, MAXI])))
    return q


def orig_queries(r, segs, nsrc, n):
    """(source index, line, column) around original positions."""
    os = [o for _, _, o in segs if o]
    q = []
    for _ in range(n):
        s = r.randrange(nsrc) if nsrc else 0
        if os and r.random() < 0.8:
            o = r.choice(os)
            if r.random() < 0.8:
                s = o[0]
            l, c = o[1], o[2]
            x = r.random()
            if x < 0.3:
                pass
            elif x < 0.45:
                c = min(MAXI, c + 1)
            elif x < 0.6:
                c = max(0, c - 1)
            elif x < 0.7:
                l, c = min(MAXI, l + 1), r.choice([0, c])
            elif x < 0.8:
                l, c = max(1, l - 1), r.choice([0, c, 1000])
            elif x < 0.9:
                c = r.choice([0, MAXI])
            else:
                l, c = r.choice([1, MAXI]), r.choice([0, MAXI])
            q.append((s, l, c))
        else:
            q.append((s, r.choice([1, 2, 3, 10, 300, MAXI]), r.choice([0, 1, 3, 20, MAXI])))
    return q


def o_orig(h, l, c, b):
    return {"op": "orig", "h": h, "line": l, "col": c, "bias": b}


def nearly(r, name):
    """The name of another source, a little different from this one."""
    ways = [name + "?v=2", name + "#x", name + "x", name + "/", name + " b", name.upper(), name.rsplit("/", 1)[-1], "d/" + name,
            name.rsplit(".", 1)[0], name[:-1], name.replace("/", "_"), name.split("?")[0].split("#")[0], name + "?", "%20" + name]
    out = [w for w in ways if w and w != name and w == w.strip() and (":" not in w or ":/" in w)]
    return r.choice(out or ["nope.js"])


def src_arg(r, s, nsrc, unknown=0.05, names=None):
    """By reported name, or sometimes by the document's or another spelling."""
    if nsrc == 0 or r.random() < unknown:
        if nsrc and names and r.random() < 0.6:
            return {"src": nearly(r, names[s])}
        return {"src": r.choice(["nope.js", "not/there.ts", "zz"])}
    if names and r.random() < 0.12:
        return {"src": r.choice([names[s], alias(r, names[s])])}
    return {"srci": s}


def o_gen(h, sa, l, c, b):
    return dict({"op": "genpos", "h": h, "line": l, "col": c, "bias": b}, **sa)


def o_all(h, sa, l, c):
    return dict({"op": "allpos", "h": h, "line": l, "col": opt(c)}, **sa)


def o_break(r, h):
    """An enumeration whose callback panics after some mappings."""
    return {"op": "each_break", "h": h, "ord": r.choice(["gen", "orig"]), "stop": r.choice([0, 1, 1, 2, 5, 20])}


def o_each(h, o):
    return {"op": "each", "h": h, "ord": o}


def o_new(h, d, url=None, ctor="create", fmt=0, **kw):
    return dict({"op": "new", "h": h, "ctor": ctor, "doc": d, "url": opt(url), "fmt": fmt}, **kw)


def maybe_spans(r, ops, h, p):
    if r.random() < p:
        ops.append({"op": "spans", "h": h})


CTORS = ["create", "new", "json", "consume"]


def plain_ctor(r):
    """A constructor and a map URL that leaves plain names alone."""
    return r.choice(["create", "create", "new", "json"])


def opened(r, h, m, ctor=None):
    """Open a consumer on a plain map: from its document, or from a generator given the same mappings."""
    plain = [o_new(h, m.doc(), ctor=ctor or plain_ctor(r))]
    if r.random() > 0.12 or len(m.segs) > 150 or len({s[:2] for s in m.segs}) < len(m.segs):
        return plain
    ms = [gmap(gl, gc, o and (o[1], o[2]), o and m.sources[o[0]], m.names[o[3]] if o and o[3] is not None else None) for gl, gc, o in m.segs]
    if r.random() < 0.6:
        r.shuffle(ms)
    order = []
    for x in ms:
        if x["s"] and x["s"][0] not in order:
            order.append(x["s"][0])
    m.segs = [(gl, gc, o and (order.index(m.sources[o[0]]),) + o[1:]) for gl, gc, o in m.segs]
    m.sources, m.nsrc = order, len(order)
    return [g_new("g")] + [g_add("g", x) for x in ms] + [{"op": "new_gen", "h": h, "g": "g", "ctor": r.choice(["gen", "gen", "create", "new", "json"]), "url": []}]


# ------------------------------------------------------------------ generator

ODD = ["", "a b.js", "\u00fc\u00e9.js", "\u6587\u4ef6.ts", "q\"uote.js", "back\\slash.js", "tab\t.js", "\U0001f600.js", "A.js", "a.js ", "null", "l" * 300 + ".js", "/".join("d%d" % i for i in range(40))]


def pool(r, base, odd=True):
    n = r.choice([1, 2, 3, 6, 20, 45])
    p = ["%s%d" % (base, i) for i in range(n)]
    if odd and r.random() < 0.5:
        p += r.sample(ODD, r.randrange(1, len(ODD)))
    if odd and r.random() < 0.4:
        p += [anytext(r) for _ in range(r.choice([1, 2, 4]))]
    if r.random() < 0.3:                     # strings that are different and mean the same to others
        p += r.sample(["./%s0" % base, "/%s0" % base, "%s0/" % base, "q/../%s0" % base, base.upper() + "0", "%s0?" % base, " %s0" % base], 2)
    return p


def gmap(gl, gc, o=None, s=None, n=None):
    return {"gl": gl, "gc": gc, "o": [] if o is None else [{"l": o[0], "c": o[1]}], "s": opt(s), "n": opt(n)}


def valid_mappings(r, n, sources, names, distinct=False, big=0.03, lines=None, huge=True):
    if huge and r.random() < 0.01:           # past the sizes that small counters hold
        n = r.choice([300, 600])
        k = r.randrange(3)
        if k == 0:
            sources += ["big/%d.js" % i for i in range(280)]
        elif k == 1:
            names += ["big%d" % i for i in range(280)]
        else:
            lines = 1
    lines = lines or r.choice([1, 2, 3, 8, 30])
    dense = r.choice([3, 6, 12]) if r.random() < 0.25 else 0
    far = [0, r.choice([500, 500, 500, 300, 1100, 5000])] if r.random() < 0.1 else [0]
    if r.random() < 0.02:                    # all of them far down
        far = [r.choice([300, 1100, 5000])]
    style = r.random()
    out, seen = [], set()
    for _ in range(n):
        gl = rline(r, lines) + r.choice(far)
        gc = r.randrange(dense) if dense else rcol(r, big)
        if distinct:
            if (gl, gc) in seen:
                continue
            seen.add((gl, gc))
        x = r.random()
        if x < 0.15:
            m = gmap(gl, gc)
        else:
            o = (rline(r, r.choice([2, 50])) if r.random() > big else r.choice([MAXI, MAXI - 1, 40000]), rcol(r, big))
            m = gmap(gl, gc, o, r.choice(sources), r.choice(names) if x < 0.6 else None)
        out.append(m)
        if not distinct and r.random() < 0.1:
            out.append(dict(m))
        if not distinct and r.random() < 0.1 and m["s"]:
            out.append(gmap(gl, gc, (m["o"][0]["l"], m["o"][0]["c"]), r.choice(sources), r.choice(names)))
    key = lambda m: (m["gl"], m["gc"])
    if style < 0.3:
        out.sort(key=key)
    elif style < 0.4:
        out.sort(key=key, reverse=True)
    elif style < 0.6 and out:                # nearly sorted: a few go to the wrong place
        out.sort(key=key)
        for _ in range(r.randrange(1, 3)):
            out.insert(r.randrange(len(out) + 1), out.pop(r.randrange(len(out))))
    elif style < 0.7 and len(out) > 1:       # neighbours change places
        out.sort(key=key)
        for _ in range(r.randrange(1, 3)):
            k = r.randrange(len(out) - 1)
            out[k], out[k + 1] = out[k + 1], out[k]
    else:
        r.shuffle(out)
    return out


def g_new(h, r=None, file=None, root=None, skip=False):
    return {"op": "gen_new", "h": h, "file": opt(file), "root": opt(root), "skip": skip}


def g_add(h, m):
    return {"op": "gen_add", "h": h, "m": m}


def g_json(h):
    return {"op": "gen_json", "h": h}


def c01(r):
    while True:
        sources, names = pool(r, "s"), pool(r, "n")
        n = r.choice([1, 2, 3, 5, 8, 20, 60, 120])
        ops = [g_new("g", root=r.choice([None, None, "/root", ""]), skip=r.random() < 0.2)]
        ms = valid_mappings(r, n, sources, names)
        for m in ms:
            ops.append(g_add("g", m))
            if r.random() < 0.05:
                ops.append(g_json("g"))
        ops.append(g_json("g"))
        yield ops


def c03(r):
    while True:
        sources, names = pool(r, "s"), pool(r, "n")
        n = r.choice([1, 2, 3, 4, 6, 10, 30])
        ms = valid_mappings(r, n, sources, names)
        ops = []
        for k in range(3):
            h = "g%d" % k
            ops.append(g_new(h))
            order = list(ms)
            if k:
                r.shuffle(order)
            if k == 2 and r.random() < 0.7:
                order.sort(key=lambda m: (m["gl"], m["gc"]))
                for _ in range(r.choice([0, 1, 1, 2]) if len(order) > 1 else 0):
                    j = r.randrange(len(order) - 1)
                    order[j], order[j + 1] = order[j + 1], order[j]
            for m in order:
                ops.append(g_add(h, m))
                if k and r.random() < 0.3:
                    ops.append(g_json(h))
                if r.random() < 0.05:
                    ops += [g_json(h), g_json(h)]
            ops += [g_json(h), g_json(h)]
        yield ops


def c04(r):
    while True:
        sources, names = pool(r, "s"), pool(r, "n")
        f = r.choice([None, "", "out.js", "\u00fc.js", "dir/o.js", anytext(r)])
        root = r.choice([None, "", "/root", "/root/", "http://h.org/x", "src", "src/", "../up", "a b", anytext(r)])
        skip = r.random() < 0.2
        ops = [g_new("g", file=f, root=root, skip=skip)]
        for m in valid_mappings(r, r.choice([0, 1, 2, 5, 20, 60]), sources, names):
            ops.append(g_add("g", m))
            if not skip and r.random() < 0.1:
                ops.append(g_add("g", invalid_mapping(r, sources + ["bad.js"], names + ["bad"])))
            if r.random() < 0.08:
                ops.append(g_json("g"))
        ops.append(g_json("g"))
        yield ops


C05_SOURCES = ["a.js", "b/c.js", "/x/y.js", "http://h.org/z.js", "d", "e/f/g.ts", "../up.js", "long/name/of/a/file.mjs", "k.js", "m0.js", "p0/q.js", "/p1",
               "/a.js", "http://h.org/r/a.js", "src/a.js", "./d", "x y.js", "a.js?v=1", "a.js#1", "//h.org/z.js", "\u00fc.js", "/x/a.js", "file:///x/f.js", "webpack:///b/c.js"]


def c05(r):
    while True:
        root = r.choice([None, None, "", "/", "http://h.org/", "/root", "http://h.org/r", "http://o.org", "src", "..", "src/", "/x", "/x/", "b/", "./", "?q", "#f", "/x#f", "http://h.org/r?x=1", "file:///x", "/x/p0"])
        srcs = r.sample(C05_SOURCES, r.randrange(1, 7))
        if root and root[0] in "/hf" and r.random() < 0.8:
            srcs = [s for s in srcs if not s.startswith("../")] or ["a.js"]
        ops = [g_new("g", root=root)]
        for _ in range(r.choice([3, 6, 12, 25])):
            x = r.random()
            s = r.choice(srcs)
            if x < 0.35:
                ops.append(g_add("g", gmap(rline(r, 5), rcol(r), (rline(r, 9), rcol(r)), s, r.choice([None, "n"]))))
            elif x < 0.8:
                c = r.choice([None, "", "x", "line1\nline2", "line1\r\nline2\r\n", "\ufeffx", "null", "\u00fc \U0001f600", "content of " + s, str(r.random()), anytext(r), anytext(r)])
                ops.append({"op": "gen_content", "h": "g", "src": s, "c": opt(c)})
            else:
                ops.append(g_json("g"))
        ops.append(g_json("g"))
        yield ops


NEG = [0, -1, -2, -100, -MAXI - 1]


def invalid_mapping(r, sources, names):
    gl, gc, ol, oc = rline(r, 5), rcol(r), rline(r, 5), rcol(r)
    s, n = r.choice(sources), r.choice(names)
    k = r.randrange(11)
    full = r.random() < 0.7
    name = n if r.random() < 0.5 else None
    if k == 0:
        return gmap(r.choice(NEG), gc, (ol, oc) if full else None, s if full else None, name if full else None)
    if k == 1:
        return gmap(gl, r.choice(NEG[1:]), (ol, oc) if full else None, s if full else None, name if full else None)
    if k == 2:
        return gmap(gl, gc, (ol, oc), None, name)
    if k == 3:
        return gmap(gl, gc, None, s, name)
    if k == 4:
        return gmap(gl, gc, None, None, n)
    if k == 5:
        return gmap(gl, gc, (r.choice(NEG), oc), s, name)
    if k == 6:
        return gmap(gl, gc, (ol, r.choice(NEG[1:])), s, name)
    if k == 7:
        return gmap(r.choice(NEG), r.choice(NEG[1:]), (r.choice(NEG), r.choice(NEG[1:])), s, name)
    if k == 8:
        return gmap(r.choice(NEG), gc)
    if k == 9:
        return gmap(gl, gc, (r.choice(NEG), r.choice(NEG[1:])), None, name)
    return gmap(gl, r.choice(NEG[1:]), (ol, oc), s, n)


def c06(r):
    while True:
        sources, names = pool(r, "s"), pool(r, "n")
        skip = r.random() < 0.25
        ops = [g_new("g", root=r.choice([None, "/r"]), skip=skip)]
        good = valid_mappings(r, r.choice([1, 3, 8, 20]), sources, names, big=0.08)
        if skip and r.random() < 0.5:
            good = []
        bad = [invalid_mapping(r, sources + ["bad.js", ""], names + ["bad", ""]) for _ in range(r.choice([1, 4, 12]))]
        huge = r.random() < 0.3              # never serialized: one ';' per line
        if huge:
            bad.append(gmap(MAXI, MAXI))
        ms = good + bad
        r.shuffle(ms)
        for m in ms:
            ops.append(g_add("g", m))
            if not skip and not huge and r.random() < 0.15:
                ops.append(g_json("g"))
        if not skip and not huge:
            ops.append(g_json("g"))
        yield ops


def c02(r):
    while True:
        root = r.choice([None, None, None, "/root", "http://h.org/r/", "lib"])
        sources = plain_sources(r, r.choice([1, 2, 4, 9]))
        if root:
            sources = with_aliases(r, ["s%d.js" % i for i in range(len(sources))])
        names = list(dict.fromkeys(odd_names(r, ["n%d" % i for i in range(r.choice([1, 3, 30]))])))
        ms = valid_mappings(r, r.choice([1, 2, 3, 6, 15, 40]), sources, names, distinct=True)
        ops = [g_new("g", root=root, file=r.choice([None, "o.js"]))]
        for m in ms:
            ops.append(g_add("g", m))
        if r.random() < 0.5:
            for s in sources:
                if r.random() < 0.5:
                    ops.append({"op": "gen_content", "h": "g", "src": s, "c": ["text"]})
        if r.random() < 0.3:
            ops.append(g_json("g"))
        order = []
        for m in ms:
            if m["s"] and m["s"][0] not in order:
                order.append(m["s"][0])
        for h, ctor in (("c", "gen"), ("d", r.choice(["create", "new", "json"]))):
            url = r.choice([None, None, "http://m.org/x/y.map"])
            ops.append({"op": "new_gen", "h": h, "g": "g", "ctor": ctor, "url": opt(url)})
            qs = [o_each(h, "gen"), o_each(h, "orig")]
            for m in ms:
                qs.append(o_orig(h, m["gl"], m["gc"], r.randrange(3)))
                if m["s"]:
                    qs.append(o_gen(h, {"srci": order.index(m["s"][0])}, m["o"][0]["l"], m["o"][0]["c"], r.randrange(3)))
            r.shuffle(qs)
            if r.random() < 0.3:
                qs.insert(r.randrange(len(qs)), {"op": "spans", "h": h})
            ops += qs[:60]
        yield ops


# ------------------------------------------------------------------- consumer

def c07(r):
    while True:
        m = some_map(r)
        ops = opened(r, "c", m)
        for l, c in gen_queries(r, m.segs, 30):
            maybe_spans(r, ops, "c", 0.03)
            if r.random() < 0.03:
                ops.append(o_each("c", r.choice(["gen", "orig"])))
            b = r.randrange(3)
            ops.append(o_orig("c", l, c, b))
            if r.random() < 0.3:
                ops.append(o_orig("c", l, c, (b + 1) % 3))
        yield ops


def c08(r):
    while True:
        m = some_map(r, origless=0.1)
        ops = opened(r, "c", m)
        for s, l, c in orig_queries(r, m.segs, m.nsrc, 30):
            maybe_spans(r, ops, "c", 0.03)
            b = r.randrange(3)
            sa = src_arg(r, s, m.nsrc, names=m.sources)
            ops.append(o_gen("c", sa, l, c, b))
            if r.random() < 0.3:
                ops.append(o_gen("c", sa, l, c, (b + 1) % 3))
        if r.random() < 0.06:
            ops += every_source(r, "c", m.nsrc, ("genpos",)) + every_source(r, "c", m.nsrc, ("genpos",))
        yield ops


def c09(r):
    while True:
        m = some_map(r, origless=0.1, ties=r.random() < 0.5, dense_orig=r.random() < 0.7)
        ops = opened(r, "c", m)
        for s, l, c in orig_queries(r, m.segs, m.nsrc, 30):
            maybe_spans(r, ops, "c", 0.03)
            ops.append(o_all("c", src_arg(r, s, m.nsrc, names=m.sources), l, None if r.random() < 0.4 else c))
        yield ops


def c10(r):
    while True:
        m = some_map(r, size=r.choice([0, 1, 2, 5, 20, 60, 150]))
        ops = opened(r, "c", m)
        for _ in range(4):
            maybe_spans(r, ops, "c", 0.2)
            if r.random() < 0.1:
                ops.append(o_break(r, "c"))
            if m.segs and r.random() < 0.3:
                ops.append(o_orig("c", *gen_queries(r, m.segs, 1)[0], r.randrange(3)))
            if m.segs and r.random() < 0.2:
                s, l, c = orig_queries(r, m.segs, m.nsrc, 1)[0]
                ops.append(o_gen("c", src_arg(r, s, m.nsrc), l, c, r.randrange(3)))
            ops.append(o_each("c", r.choice(["gen", "orig"])))
        yield ops


def any_query(r, h, m, unknown=0.05):
    """A random valid query against a plain map (name lookups by reported index)."""
    x = r.random()
    if x < 0.35:
        return o_orig(h, *gen_queries(r, m.segs, 1)[0], r.randrange(3))
    s, l, c = orig_queries(r, m.segs, m.nsrc, 1)[0]
    if x < 0.6:
        return o_gen(h, src_arg(r, s, m.nsrc, unknown, m.sources), l, c, r.randrange(3))
    if x < 0.85:
        return o_all(h, src_arg(r, s, m.nsrc, unknown, m.sources), l, None if r.random() < 0.4 else c)
    return o_each(h, r.choice(["gen", "orig"]))


def c11(r):
    n = 0
    while True:
        n += 1
        if n % 4 == 0:
            x = Indexed(r, overlap=False)
            ops = [o_new("c", x.doc(), ctor=r.choice(["create", "json"]))]
            qs = [x.query(r, "c") for _ in range(25)]
        else:
            m = some_map(r, big=0.02)
            ops = opened(r, "c", m)
            qs = [any_query(r, "c", m) for _ in range(25)]
        for _ in range(r.randrange(0, 3)):
            qs.insert(r.randrange(len(qs)), {"op": "spans", "h": "c"})
        if r.random() < 0.2:
            qs.insert(r.randrange(len(qs)), o_break(r, "c"))
        yield ops + qs


# -------------------------------------------------------------------- indexed

class Indexed:
    def __init__(self, r, n=None, overlap=True, equal=0.15, shared=0.5, plain=True):
        n = n if n is not None else r.choice([1, 2, 2, 3, 3, 4, 7])
        many = n > 3 and r.random() < 0.06
        if many:
            n = r.choice([40, 70, 140, 300])
        ol, oc = r.choice([(0, 0), (0, 0), (0, 5), (2, 0), (3, 7), (100, 4)])
        self.secs, self.offs = [], []
        for k in range(n):
            self.offs.append((ol, oc))
            if overlap and r.random() < equal:
                pass
            elif r.random() < 0.45:
                oc += r.choice([1, 2, 5, 10, 40])
            else:
                ol, oc = ol + r.choice([1, 1, 2, 5, 30]), r.choice([0, 0, 1, 3, 10, 64])
        for k in range(n):
            pre = "" if r.random() < shared else "x%d/" % k
            srcs = with_near(r, with_aliases(r, [pre + "s%d.js" % i for i in range(r.choice([0, 1, 1, 2, 3]))]))
            m = Map(r, size=r.choice([0, 1, 3, 8, 20] if not many else [0, 1, 1, 2]), lines=r.choice([1, 1, 2, 4]), src=srcs, big=0.0)
            if not overlap and k + 1 < n:
                nl, nc = self.offs[k + 1]
                dl = nl - self.offs[k][0]
                room = [s for s in m.segs if s[0] <= dl or (s[0] == dl + 1 and s[1] + (self.offs[k][1] if s[0] == 1 else 0) < nc)]
                m.segs = room
                m.text = text(room)
            self.secs.append(m)

    def doc(self, **kw):
        return doc(sections=[section(o[0], o[1], m.doc(**kw)) for o, m in zip(self.offs, self.secs)])

    def queries(self, r, n):
        """Whole-file generated positions."""
        out = []
        for _ in range(n):
            k = r.randrange(len(self.secs))
            (ol, oc), m = self.offs[k], self.secs[k]
            x = r.random()
            if m.segs and x < 0.6:
                gl, gc, _ = r.choice(m.segs)
                l, c = gl + ol, gc + (oc if gl == 1 else 0) + r.choice([0, 0, 0, 1, -1, 5])
            elif x < 0.85:
                l, c = ol + 1 + r.choice([0, 0, 0, 1, -1]), oc + r.choice([0, 0, 1, -1, 3, -3])
            else:
                l, c = r.choice([1, 2, 3, 5, 20, 200]), r.choice([0, 1, 4, 5, 6, 20, 1000])
            out.append((max(1, l), max(0, c)))
        return out

    def source_names(self):
        return [s for m in self.secs for s in m.sources]

    def name(self, r):
        x = r.random()
        ns = self.source_names()
        if not ns or x < 0.06:
            return {"src": "nope.js"}
        s = r.choice(ns)
        return {"src": alias(r, s) if r.random() < 0.1 else s}

    def oq(self, r):
        k = r.randrange(len(self.secs))
        m = self.secs[k]
        s, l, c = orig_queries(r, m.segs, m.nsrc, 1)[0]
        sa = {"src": m.sources[s]} if m.nsrc and r.random() < 0.7 else self.name(r)
        return sa, l, c

    def query(self, r, h):
        x = r.random()
        if x < 0.4:
            return o_orig(h, *self.queries(r, 1)[0], r.randrange(3))
        sa, l, c = self.oq(r)
        if x < 0.6:
            return o_gen(h, sa, l, c, r.randrange(3))
        if x < 0.85:
            return o_all(h, sa, l, None if r.random() < 0.4 else c)
        return o_each(h, r.choice(["gen", "orig"]))


IDX_CTORS = ["create", "create", "new", "json"]


def c16(r):
    while True:
        x = Indexed(r)
        ops = [o_new("c", x.doc(), ctor=r.choice(IDX_CTORS))]
        for l, c in x.queries(r, 35):
            maybe_spans(r, ops, "c", 0.02)
            ops.append(o_orig("c", l, c, r.randrange(3)))
        yield ops


def c17(r):
    while True:
        x = Indexed(r, n=r.choice([1, 2, 3, 4, 6]))
        ops = [o_new("c", x.doc(), ctor=r.choice(IDX_CTORS))]
        for _ in range(35):
            maybe_spans(r, ops, "c", 0.03)
            sa, l, c = x.oq(r)
            if r.random() < 0.5:
                ops.append(o_gen("c", sa, l, c, r.randrange(3)))
            else:
                ops.append(o_all("c", sa, l, None if r.random() < 0.4 else c))
        yield ops


def c18(r):
    while True:
        x = Indexed(r, overlap=False)
        ops = [o_new("c", x.doc(), ctor=r.choice(IDX_CTORS))]
        for _ in range(5):
            maybe_spans(r, ops, "c", 0.3)
            if r.random() < 0.1:
                ops.append(o_break(r, "c"))
            if r.random() < 0.3:
                ops.append(x.query(r, "c"))
            ops.append(o_each("c", r.choice(["gen", "orig"])))
        yield ops


def c19(r, reps=6):
    while True:
        n = r.choice([0, 1, 2, 3, 5, 8, 8, 16, 16, 40])
        offs, ol, oc = [], 0, 0
        for _ in range(n):
            offs.append((ol, oc))
            x = r.random()
            if x < 0.15:
                pass
            elif x < 0.5:
                oc += r.choice([1, 3, 50])
            else:
                ol, oc = ol + r.choice([1, 2]), r.choice([0, 3, 9])
        if n >= 2 and r.random() < 0.45:
            k = r.randrange(n - 1)
            how = r.randrange(4)
            if how == 0:
                offs[k], offs[k + 1] = offs[k + 1], offs[k]
            elif how == 1:
                offs[k] = (offs[k + 1][0], offs[k + 1][1] + 1)
            elif how == 2:
                offs[k] = (offs[k + 1][0] + 1, 0)
            else:
                j = r.randrange(n)
                offs[k], offs[j] = offs[j], offs[k]
        urls = r.choice([0, 0, 0, 0.02, 0.2])
        heavy = r.random() < 0.4
        secs = []
        for k, o in enumerate(offs):
            m = Map(r, src=["s%d_%d.js" % (k, i) for i in range(r.choice([0, 1, 1, 2] if not heavy else [1, 1, 1, 30]))],
                    size=r.choice([0, 2]), lines=2, big=0)
            url = r.choice(["http://h.org/o.map", "", "x.map", "/m/o.map"]) if r.random() < urls else None
            secs.append(section(o[0], o[1], m.doc(), url))
            if k and r.random() < 0.15:              # the same map again, wherever it starts
                secs[-1]["doc"] = secs[r.choice([-2, r.randrange(k)])]["doc"]
        d = doc(sections=secs, version=3 if r.random() < 0.95 else r.choice([2, 4, 0]))
        ops = [{"op": "build", "doc": d, "url": [], "ctor": r.choice(["create", "new", "json"]), "threads": [1, 2, 3, 8], "reps": reps}]
        if r.random() < 0.3:
            ops.append(o_new("c", d, ctor=r.choice(IDX_CTORS)))
        yield ops


# ----------------------------------------------------------- histories (C12)

def bad_query(r, h, m):
    """Out-of-domain or failing queries, to be survived."""
    sa = {"srci": 0} if m.nsrc else {"src": "nope.js"}
    return r.choice([o_break(r, h), o_break(r, h), o_orig(h, 0, 1, 0), o_orig(h, 1, -1, 1), o_gen(h, sa, 0, 0, 0), o_gen(h, sa, 1, -1, 2),
                     o_all(h, sa, 0, None), o_all(h, sa, 1, -1), o_gen(h, {"src": "nope.js"}, 1, 0, 0),
                     {"op": "content", "h": h, "src": "nope.js", "panic": []}])


def every_source(r, h, n, by=("content", "genpos", "allpos")):
    """Each of them, in some order."""
    out, order = [], list(range(n))
    way = r.randrange(4)
    if way == 0:
        order.reverse()
    elif way > 1:
        r.shuffle(order)
    one = r.choice(by + (None,))
    for i in order[:40]:
        k = one or r.choice(by)
        sa = {"srci": i}
        out.append(dict({"op": "content", "h": h, "panic": opt(r.choice([None, False]))}, **sa) if k == "content"
                   else o_gen(h, sa, r.choice([1, 1, 2]), r.choice([0, 5, 100]), r.randrange(3)) if k == "genpos"
                   else o_all(h, sa, r.choice([1, 1, 2]), None))
    return out


def c12(r):
    n = 0
    while True:
        n += 1
        sweep = r.random() < 0.15
        if n % 3 == 0:
            x = Indexed(r)
            contents = r.random() < 0.5
            d = doc(sections=[section(o[0], o[1], m.doc(contents=["c%d" % i for i in range(m.nsrc)] if contents else None))
                              for o, m in zip(x.offs, x.secs)])
            ctor, m = r.choice(["create", "json"]), Map(r, size=0, nsrc=0)
            query = lambda h: x.query(r, h)
            names = x.source_names() + ["nope.js"]
        else:
            m = Map(r, nsrc=r.choice([5, 12, 20, 40])) if sweep else Map(r)
            root = r.choice([None, None, "/root", "lib"])
            if root:
                m.sources = ["s%d.js" % i for i in range(m.nsrc)]
            d = m.doc(root=root, contents=[r.choice([None, "", "text %d" % i]) for i in range(m.nsrc)] if r.random() < 0.7 else None)
            if r.random() < 0.08:
                d["m"] = [[ord(c) for c in m.text + r.choice(["!", "g", "A!", ";@"])]]
            ctor = plain_ctor(r)
            query = lambda h: any_query(r, h, m, 0.1)
            names = m.sources + (["%s/%s" % (root, s) for s in m.sources] if root else []) + ["nope.js", "./" + (m.sources or ["q"])[0]]

        def extra(h):
            y = r.random()
            if y < 0.55:
                return {"op": "content", "h": h, "src": r.choice(names), "panic": opt(r.choice([None, True, False]))}
            if y < 0.7:
                return {"op": "hasall", "h": h}
            if y < 0.8:
                return {"op": "sources", "h": h}
            return dict(query(h), **({}))

        def gen(h):
            y = r.random()
            if y < 0.6:
                return query(h)
            if y < 0.85:
                return extra(h)
            if y < 0.93:
                return bad_query(r, h, m)
            return {"op": "spans", "h": h}

        ops = [o_new("a", d, ctor=ctor)]
        hist = [gen("a") for _ in range(14)]
        if sweep:
            hist += every_source(r, "a", len(names) if d["sections"] else m.nsrc)
        qs = [q for q in hist if q["op"] != "spans"]
        r.shuffle(qs)
        ops += hist
        # the same questions to the used consumer again, and each to a fresh one
        again = [dict(q) for q in qs]
        r.shuffle(again)
        ops += again
        for k, q in enumerate(qs[:8]):
            h = "f%d" % k
            ops.append(o_new(h, d, ctor=ctor))
            if r.random() < 0.2:
                ops.append({"op": "spans", "h": h})
            ops.append(dict(q, h=h))
        if r.random() < 0.3:
            ops += [{"op": "spans", "h": "a"}, {"op": "spans", "h": "a"}, {"op": "spans", "h": "f0"}]
        for o in ops:
            o["d"] = "D"
        yield ops


# ------------------------------------------------------- sources and contents

SEG = ["a", "b", "lib", "src", "x.js", "main.ts", "p0", "p1", "p0p1", "a..b", "index.min.js", ".hidden", "_", "~u", "v1.2", "w-3",
       "@scope", "a+b", "x(1).js", "k=v", "c,d", "s;t", "it's", "$0", "a&b", "!", "dist.map", "app.js.map", "...", "..c", "d..", "host", "http", "A", "B.JS", "1",
       "my file.js", "\u00fc\u00e9.js", "\u6587\u4ef6", "\U0001f600.ts", "a<b>", "{x}", "q\"q", "b`t", "%20", "a%2Fb", "dir\\x.js", "..\\up.js", ".\\d", "d//e", "d///e.js",
       "a:b.js", "1:2", "1:", "9:/w.js", ":", "xy:", "qq:/r", "_:z.js"]
SEGC = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789._~-+@=,;!$&'()"


def seg(r):
    if r.random() < 0.8:
        return r.choice(SEG)
    while True:
        s = "".join(r.choice(SEGC) for _ in range(r.choice([1, 2, 3, 6, 12])))
        if s not in (".", ".."):
            return s



def path(r, n=None, dots=0.25, up=True):
    n = n if n is not None else r.choice([1, 1, 2, 2, 3, 4])
    out = []
    for _ in range(n):
        x = r.random()
        if x < dots * 0.5:
            out.append(".")
        elif x < dots and up:
            out.append("..")
        else:
            out.append(seg(r))
    return "/".join(out)


def ref(r, kinds=("rel", "rel", "path", "scheme", "abs"), tail=0.15, dirs=0.15, dots=0.25):
    k = r.choice(kinds)
    p = path(r, dots=dots)
    if r.random() < 0.04:                    # deep, or climbing far
        p = r.choice([path(r, n=r.choice([6, 9, 14]), dots=0.1), "../" * r.randrange(3, 14) + p, path(r, n=8, dots=0.02) + "/.." * r.randrange(3, 10)])
    if r.random() < dirs:
        p += "/"
    if k == "rel":
        s = "./" + p if re.match("[A-Za-z][-A-Za-z0-9+.]*:", p) else p
    elif k == "path":
        s = "/" + (p if r.random() < 0.95 else "")
    elif k == "scheme":
        s = "//" + r.choice(["h.org", "g.com:8080", "h.org:8080", "u@h.org", "H.org", "g.com:443"]) + "/" + p
    else:
        s = r.choice(ORIGINS) + "/" + p
    if r.random() < tail:
        s += "?" + r.choice(["q", "v=1", "a=b&c=d", "x/../y", "", "a b\u00fc", "w\\{\"<>`}", "%41"])
    if r.random() < tail:
        s += "#" + r.choice(["f", "L10", "a/b", "", "a b\u6587", "w\\{\"<>`}", "x?y"])
    return s


ORIGINS = ["http://h.org", "https://g.com:8080", "http://g.com", "webpack://", "webpack://ns", "https://h.org", "http://h.org:8080",
           "http://h.org:8081", "http://sub.h.org", "http://u@h.org", "http://u:p@h.org", "http://localhost:3000", "http://127.0.0.1", "file://",
           "ng://", "app+x.1-y://", "webpack:", "app+x:", "Z:", "HTTP://h.org", "http://H.ORG", "http://h.org:80", "https://g.com:443", "https://h.org:80", "http://U@H.org", "Webpack://NS", "wss://h.org:443", "ftp://h.org:21"]

SHORT = ["", "a", ".", "/", "..", "b", "/a", "a/", "./", "../", "./a", "../a", "a/..", "a/.", "/..", "/.", "//h/", "#", "?", "#f", "?q"]


def anyref(r, **kw):
    return r.choice(SHORT) if r.random() < 0.15 else ref(r, **kw)


def rooturl(r):
    root = None if r.random() < 0.3 else ("" if r.random() < 0.1 else anyref(r, tail=0))
    url = None if r.random() < 0.35 else ref(r, kinds=("rel", "path", "scheme", "abs", "abs"), tail=0.1)
    return root, url


def nofile(xs):
    """file: URLs have no ports or user names, and lose leading empty segments."""
    if any(x and (x.startswith("//") and ("@" in x or ":" in x) or "//" in x.replace("://", "", 1).lstrip("/")) for x in xs):
        return [x and x.replace("file:", "flie:") for x in xs]
    return xs


def readable(s):
    """Not a scheme without a slash, nor a special one with a single or a third slash."""
    m = re.match("([A-Za-z][-A-Za-z0-9+.]*):(/*)", s)
    if not m:
        return not re.match("//(/|$)", s)
    special = m[1].lower() in ("http", "https", "ws", "wss", "ftp")
    return m[2] != "" and (len(m[2]) == 2 if special else len(m[2]) == 3 if m[1].lower() == "file" else True)


def plain_src(s):
    """A root without query or fragment."""
    return s not in ("", "#", "?", "#f", "?q")


def c13(r):
    while True:
        ops = []
        for _ in range(12):
            root, url = rooturl(r)
            s = anyref(r)
            if root is not None and not plain_src(root):
                root = ""
            root, s, url = nofile([root, s, url])
            ops.append({"op": "csu", "root": opt(root), "src": s, "url": opt(url)})
        for k in range(3):
            root, url = rooturl(r)
            if root is not None and not plain_src(root):
                root = ""
            srcs = []
            for _ in range(r.randrange(1, 6)):
                s = anyref(r)
                srcs.append(s)
            root, url, *srcs = nofile([root, url] + srcs)
            d = doc("", srcs, [], root=root)
            ctor = r.choice(["create", "new", "json"] + (["consume"] if url else []))
            ops.append(o_new("c%d" % k, d, url, ctor))
            ops.append({"op": "sources", "h": "c%d" % k})
        yield ops


def c14(r):
    while True:
        root = None if r.random() < 0.35 else r.choice(["", "/root", "lib", "lib/deep", "http://h.org/r", "..", "//c.net/z", "src/", "/", "."])
        url = None if r.random() < 0.4 else r.choice(["http://m.org/maps/out.js.map", "/maps/out.map", "//h.org/m/x.map", "https://m.org/o.map?v=1", "webpack:///m/o.map"])
        srcs = []
        for _ in range(r.randrange(1, 6) if r.random() < 0.95 else 25):
            s = ref(r, tail=0.05)
            if s not in srcs:
                srcs.append(s)
        if r.random() < 0.3 and root:       # a listed source that another one spells with the root
            srcs.append(r.choice(["x.js", "a"]))
            srcs.append(root.rstrip("/") + "/" + srcs[-1])
        srcs = [s for s in srcs if s]
        m = Map(r, size=r.choice([0, 3, 8]), src=srcs)
        contents = ["content %d" % i for i in range(len(srcs))] if r.random() < 0.85 else None
        d = m.doc(root=root, contents=contents)
        ctor = r.choice(["create", "new", "json"] + (["consume"] if url else []))
        ops = [o_new("c", d, url, ctor)]
        names = [{"srci": i} for i in range(len(srcs))] + [{"src": s} for s in srcs]
        names += [{"src": "./" + s} for s in srcs if not s.startswith("/") and ":/" not in s]
        names += [{"src": s} for s in ["nope.js", "a", "", "x.js", "../x.js", "/a", "http://h.org/a", "lib/a"]]
        for _ in range(26):
            n = r.choice(names)
            x = r.random()
            if x < 0.55:
                ops.append(dict({"op": "content", "h": "c", "panic": opt(r.choice([None, True, False]))}, **n))
            elif x < 0.8:
                _, l, c = orig_queries(r, m.segs, m.nsrc, 1)[0]
                ops.append(o_gen("c", n, l, c, r.randrange(3)))
            else:
                _, l, c = orig_queries(r, m.segs, m.nsrc, 1)[0]
                ops.append(o_all("c", n, l, None if r.random() < 0.5 else c))
        if r.random() < 0.1:
            ops += every_source(r, "c", len(srcs)) + every_source(r, "c", len(srcs))
        yield ops


def rcontents(r, n):
    x = r.random()
    if x < 0.12:
        return None
    k = n
    if x < 0.3:
        k = r.randrange(0, n + 1)
    elif x < 0.4:
        k = n + r.randrange(1, 3)
    holes = r.choice([0, 0, 0.3, 0.9])
    return [None if r.random() < holes else r.choice(["", "x", "text %d" % i, "null", "\u00fc\n", anytext(r)]) for i in range(k)]


def c15(r):
    while True:
        n = r.choice([0, 1, 1, 1, 2, 2, 3, 3, 6, 6])
        if r.random() < 0.05:
            n = r.choice([12, 40, 300])
        m = Map(r, nsrc=n, size=r.choice([0, 3]))
        d = m.doc(contents=rcontents(r, n))
        ops = [o_new("c", d, ctor=plain_ctor(r))]
        for _ in range(14):
            x = r.random()
            if x < 0.2:
                ops.append({"op": "hasall", "h": "c"})
            else:
                sa = src_arg(r, r.randrange(m.nsrc), m.nsrc, 0.2, m.sources) if m.nsrc else {"src": "nope.js"}
                ops.append(dict({"op": "content", "h": "c", "panic": opt(r.choice([None, True, False]))}, **sa))
        if r.random() < 0.1 and m.nsrc:
            ops += every_source(r, "c", m.nsrc, ("content",)) + every_source(r, "c", m.nsrc, ("content",))
        yield ops


def c26(r):
    while True:
        x = Indexed(r, n=r.choice([1, 2, 3, 5]))
        url = None if r.random() < 0.5 else "http://m.org/maps/o.map"
        docs = []
        for k, m in enumerate(x.secs):
            root = r.choice([None, None, "/root", "lib%d" % k])
            docs.append(m.doc(root=root, contents=rcontents(r, m.nsrc) if m.nsrc else r.choice([None, []])))
        d = doc(sections=[section(o[0], o[1], k) for o, k in zip(x.offs, docs)])
        ops, parts = [], []
        for k, sd in enumerate(docs):
            ops.append(o_new("p%d" % k, sd, url))
            parts.append("p%d" % k)
        ctor = r.choice(["create", "new", "json"] + (["consume"] if url else []))
        ops.append(o_new("c", d, url, ctor, parts=parts))
        if r.random() < 0.3:
            ops.append({"op": "hasall", "h": "c"})
        total = len(x.source_names())
        for _ in range(16):
            y = r.random()
            if y < 0.1:
                ops.append({"op": "sources", "h": "c", "parts": parts})
            elif y < 0.2:
                ops.append({"op": "hasall", "h": "c"})
            else:
                sa = {"srci": r.randrange(total)} if total and r.random() < 0.9 else {"src": "nope.js"}
                ops.append(dict({"op": "content", "h": "c", "panic": opt(r.choice([None, True, False]))}, **sa))
        yield ops


# ----------------------------------------------------------------------- C25

def c25(r):
    n = 0
    while True:
        n += 1
        ops = []
        k = n % 4
        if k == 0:                                     # out-of-domain queries on a plain map
            m = Map(r, size=r.choice([1, 5, 20]))
            ops.append(o_new("c", m.doc(), ctor=plain_ctor(r)))
            for _ in range(25):
                maybe_spans(r, ops, "c", 0.03)
                l, c = r.choice([0, 0, -1, -5, -MAXI - 1, 1, 2, 3]), r.choice([0, 1, 5, -1, -2, -MAXI, -MAXI - 1])
                x = r.random()
                sa = src_arg(r, r.randrange(m.nsrc) if m.nsrc else 0, m.nsrc, 0.1)
                if x < 0.4:
                    ops.append(o_orig("c", l, c, r.randrange(3)))
                elif x < 0.7:
                    ops.append(o_gen("c", sa, l, c, r.randrange(3)))
                else:
                    ops.append(o_all("c", sa, l, None if r.random() < 0.4 else c))
        elif k == 1:                                   # the same on an indexed map
            x = Indexed(r)
            ops.append(o_new("c", x.doc(), ctor=r.choice(IDX_CTORS)))
            for _ in range(25):
                l, c = r.choice([0, 0, -1, -5, 1, 2, 4, -1000]), r.choice([0, 1, 5, -1, -2, -1000])
                y = r.random()
                if y < 0.5:
                    ops.append(o_orig("c", l, c, r.randrange(3)))
                elif y < 0.75:
                    ops.append(o_gen("c", x.name(r), l, c, r.randrange(3)))
                else:
                    ops.append(o_all("c", x.name(r), l, None if r.random() < 0.4 else c))
        elif k == 2:                                   # malformed mappings text
            m = Map(r, size=r.choice([1, 3, 10]), nsrc=r.choice([1, 2, 3]))
            t = m.text
            cut = r.randrange(len(t) + 1)
            how = r.randrange(6)
            if how == 0:
                t = t[:cut] + r.choice("!@$ -_.*=~\u00fc") + t[cut:]
            elif how == 1:
                t = t + r.choice(["g", ",g", ";gggg", "A" * 0 + ";/"])
            elif how == 2:
                t = r.choice(["D", ";D", "C,F", "ADAA", "AAD", "AAAD", "AAAAD"])
            elif how == 3:
                t = t + r.choice([";AA", ";AAA", ";CC", ";CCC"])
            elif how == 4:
                t = t + ";A=A"
            else:
                t = t + ";gggggggggggggggggggggA"
            d = doc(t, m.sources, m.names)
            idx = r.random() < 0.2
            if idx:
                d = doc(sections=[section(0, 0, d)])
            ops.append(o_new("c", d, ctor=r.choice(["create", "json"])))
            for _ in range(12):
                y = r.random()
                sa = src_arg(r, r.randrange(m.nsrc), m.nsrc, 0.1)
                if y < 0.4:
                    ops.append(o_orig("c", *gen_queries(r, m.segs, 1)[0], r.randrange(3)))
                elif y < 0.6:
                    ops.append(o_gen("c", sa, r.choice([1, 2]), r.choice([0, 1, 5]), r.randrange(3)))
                elif y < 0.8:
                    ops.append(o_all("c", sa, r.choice([1, 2]), None))
                elif not idx:
                    ops.append(o_each("c", r.choice(["gen", "orig"])))
        else:                                          # documents that are not version 3 maps
            for _ in range(4):
                v = r.choice([0, 1, 2, 4, 5, -3, 30, 33, 300, MAXI])
                m = Map(r, size=2)
                y = r.random()
                if y < 0.5:
                    d = m.doc(version=v)
                elif y < 0.75:
                    d = doc(sections=[section(0, 0, m.doc())], version=v)
                else:
                    d = doc(sections=[section(0, 0, m.doc()), section(5, 0, m.doc(version=v))])
                ops.append(o_new("c", d, ctor=r.choice(["create", "new", "json"])))
            for t in r.sample(NOT_MAPS, 4):
                ops.append({"op": "new_raw", "h": "r", "text": t, "url": [], "want": "err"})
        yield ops


NOT_MAPS = ["", " ", "nope", "{", "[]", "3", "null", "\"map\"", "{}", "{\"version\":\"x\",\"sources\":[],\"mappings\":\"\"}",
            "{\"version\":3,\"sources\":3,\"names\":[],\"mappings\":\"\"}", "{\"version\":3,\"sources\":[1],\"names\":[],\"mappings\":\"\"}",
            "{\"sources\":[],\"names\":[],\"mappings\":\"\"}", "{\"version\":3,\"sources\":[],\"names\":[],\"mappings\":7}",
            "{\"version\":3,\"sections\":[{}]}", "{\"version\":3,\"sections\":[{\"offset\":{\"line\":0},\"map\":{\"version\":3}}]}",
            "{\"version\":3.5,\"sources\":[],\"names\":[],\"mappings\":\"\"}", "{\"version\":99999999999,\"sources\":[],\"names\":[],\"mappings\":\"\"}",
            "{\"version\":3,\"sources\":[],\"names\":[],\"mappings\":\"\"} x", ")]}'{\"version\":3,\"sources\":[],\"names\":[],\"mappings\":\"\"}"]


# ----------------------------------------------------------------------- C27

def c27(r):
    n = 0
    while True:
        n += 1
        url = r.choice([None, "", "http://m.org/d/o.map", "/maps/o.map", "http://m.org/d/o.map", "rel/o.map"])
        ops = []
        if n % 3 == 0:
            x = Indexed(r)
            d = x.doc(root=r.choice([None, "/root"]))
            if r.random() < 0.3:                       # sections decide, whatever else the document holds
                m = x.secs[0]
                d.update(r.choice([dict(sources=[m.sources], names=[m.names], m=[[ord(c) for c in m.text]]), dict(sources=[[]]), dict(m=[[]]), dict(root=["/r"], file=["f"])]))
            if r.random() < 0.05:
                d["sections"] = [[]]
                x.secs, x.offs = x.secs[:1], x.offs[:1]
            qs = [x.query(r, "?") for _ in range(8)]
            names = x.source_names() + ["nope.js"]
            hs = [("a", "create"), ("b", "new"), ("c", "json")] + ([("d", "consume")] if url is not None else [])
            for h, ctor in hs:
                ops.append(o_new(h, d, url, ctor, fmt=r.choice([0, 0, 1, 2, 3, 4])))
            ops.append({"op": "views", "doc": d, "url": opt(url)})
        elif n % 3 == 1:
            m = Map(r)
            root = r.choice([None, None, "/root", "lib"])
            d = m.doc(root=root, contents=rcontents(r, m.nsrc) if m.nsrc else None)
            qs = [any_query(r, "?", m, 0.1) for _ in range(8)]
            names = m.sources + ["nope.js", "./x"] + [s.rsplit("/", 1)[-1] for s in m.sources]
            hs = [("a", "create"), ("b", "new"), ("c", "json")] + ([("d", "consume")] if url is not None else [])
            for h, ctor in hs:
                ops.append(o_new(h, d, url, ctor, fmt=r.choice([0, 0, 1, 2, 3, 4])))
            ops.append({"op": "views", "doc": d, "url": opt(url)})
        else:
            sources = with_aliases(r, ["s%d.js" % i for i in range(3)])
            root = r.choice([None, "/root", "lib", "http://h.org"])
            ops.append(g_new("g", root=root, file=r.choice([None, "o"])))
            ms = valid_mappings(r, r.choice([1, 5, 15]), sources, ["n1", "n2"])
            for mm in ms:
                ops.append(g_add("g", mm))
            for s in sources:
                if r.random() < 0.5:
                    ops.append({"op": "gen_content", "h": "g", "src": s, "c": ["text of " + s]})
            hs = [("a", "gen"), ("b", "create"), ("c", "new"), ("d", "json")] + ([("e", "consume")] if url is not None else [])
            for h, ctor in hs:
                ops.append({"op": "new_gen", "h": h, "g": "g", "ctor": ctor, "url": opt(url)})
            used = len({m["s"][0] for m in ms if m["s"]})
            segs = [(mm["gl"], mm["gc"], (0, mm["o"][0]["l"], mm["o"][0]["c"], None) if mm["o"] else None) for mm in ms]
            mm = Map(r, size=0, src=sources[:used])
            mm.segs = segs
            qs = [any_query(r, "?", mm, 0.1) for _ in range(8)]
            names = sources + ["nope.js", "./s0.js", "/root/s1.js"]
        for _ in range(4):
            y = r.random()
            if y < 0.6:
                qs.append({"op": "content", "h": "?", "src": r.choice(names), "panic": opt(r.choice([None, True, False]))})
            elif y < 0.8:
                qs.append({"op": "hasall", "h": "?"})
            else:
                qs.append({"op": "sources", "h": "?"})
        for h, _ in hs:
            mine = [dict(q, h=h) for q in qs]
            r.shuffle(mine)
            ops += mine
        for o in ops:
            o["d"] = "D"
        yield ops


# ------------------------------------------------------------ functions, lists

def int32(r):
    x = r.random()
    if x < 0.3:
        v = r.randrange(-70, 71)
    elif x < 0.7:
        v = (1 << r.randrange(32)) + r.randrange(-2, 3)
        v = v if r.random() < 0.5 else -v
    else:
        v = r.randrange(-2 ** 31, 2 ** 31)
    return max(-2 ** 31, min(2 ** 31 - 1, v))


def c20(r):
    yield [{"op": "b64", "v": v} for v in list(range(-3, 70)) + [127, 128, 255, 256, 1 << 30, MAXI, -MAXI - 1, -64, 320]]
    yield [{"op": "vlq", "v": s * (1 << k) + d} for k in range(31) for s in (1, -1) for d in (-1, 0, 1)
           if -2 ** 31 <= s * (1 << k) + d < 2 ** 31] + [{"op": "vlq", "v": -2 ** 31}, {"op": "vlq", "v": -2 ** 31 + 1}, {"op": "vlq", "v": MAXI}]
    while True:
        yield [{"op": "vlq", "v": int32(r)} for _ in range(200)]


def c21(r):
    while True:
        ops = []
        for _ in range(30):
            n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100])
            x = r.random()
            if x < 0.01:
                n = r.choice([256, 300, 1025])
            elif x < 0.03:
                n = max(0, (1 << r.randrange(4, 13)) + r.choice([-1, 0, 1]))
            elif x < 0.2:
                n = r.randrange(200)
            span = r.choice([1, 3, max(1, n), 4 * n + 4])
            hay = sorted(r.randrange(-span, span + 1) for _ in range(n))
            if r.random() < 0.05:
                hay = sorted(hay + [MAXI, -MAXI - 1])
            x = r.random()
            if hay and x < 0.6:
                needle = min(MAXI, max(-MAXI - 1, r.choice(hay) + r.choice([0, 0, 1, -1])))
            else:
                needle = r.choice([-span - 1, span + 1, 0, r.randrange(-span, span + 1)])
            ops.append({"op": "search", "hay": hay, "needle": needle, "bias": r.randrange(3)})
        yield ops


def c22(r):
    while True:
        p = r.choice([["a"], ["a", "b"], ["a", "b", "c", ""], ["s%d" % i for i in range(12)], ["s%d" % i for i in range(60)], ODD + ["\u00dc\u00e9.js", "a", "A", " a"], ["s%d" % i for i in range(400)]])
        dupf = r.choice([0, 0.2, 0.5, 1])
        ops, hs = [], []

        def start(h):
            if r.random() < 0.5:
                return {"op": "aset_new", "h": h}
            return {"op": "aset_from", "h": h, "vals": [r.choice(p) for _ in range(r.choice([0, 1, 3, 8, 20]))], "dup": r.random() < max(0.3, dupf)}
        ops.append(start("s"))
        hs.append("s")
        for _ in range(r.choice([8, 25, 60] if len(p) < 100 else [20, 900])):
            h = r.choice(hs)
            x = r.random()
            if x < 0.4:
                ops.append({"op": "aset_add", "h": h, "x": r.choice(p), "dup": r.random() < dupf})
            elif x < 0.52:
                ops.append({"op": "aset_has", "h": h, "x": r.choice(p + ["zz"])})
            elif x < 0.64:
                ops.append({"op": "aset_index", "h": h, "x": r.choice(p + ["zz"])})
            elif x < 0.78:
                ops.append({"op": "aset_at", "h": h, "idx": r.choice([0, 1, 2, 5, 10, 20, 100, -1, -2, MAXI, -MAXI - 1])})
            elif x < 0.86:
                ops.append({"op": "aset_size", "h": h})
            elif x < 0.96:
                ops.append({"op": "aset_list", "h": h})
            elif len(hs) < 3:
                t = "t%d" % len(hs)
                hs.append(t)
                ops.append(dict({"op": "aset_clone", "h": h, "to": t}))
        for h in hs:
            ops += [{"op": "aset_list", "h": h}, {"op": "aset_size", "h": h}]
            ops += [{"op": "aset_index", "h": h, "x": x} for x in p[:6]]
        yield ops


STR23 = ["a", "b", "A", "B", "Z", "_", "a.js", "a.jsx", "aa", "ab", "a/b", "a-b", "0", "9", "10", "n", "", "~"]


def m23(r, near=None):
    if near is not None and r.random() < 0.75:
        m = {k: (list(v) if isinstance(v, list) else v) for k, v in near.items()}
        m["o"] = [dict(x) for x in m["o"]]
        k = r.randrange(7)
        if k == 0:
            m["gl"] = max(1, min(MAXI, m["gl"] + r.choice([1, -1])))
        elif k == 1:
            m["gc"] = max(0, min(MAXI, m["gc"] + r.choice([1, -1])))
        elif k == 2 and m["s"]:
            m["s"] = [r.choice(STR23)]
        elif k == 3 and m["o"]:
            m["o"][0]["l"] = max(1, min(MAXI, m["o"][0]["l"] + r.choice([1, -1])))
        elif k == 4 and m["o"]:
            m["o"][0]["c"] = max(0, min(MAXI, m["o"][0]["c"] + r.choice([1, -1])))
        elif k == 5 and m["s"]:
            m["n"] = opt(r.choice([None] + STR23))
        return m
    gl, gc = r.choice([1, 1, 2, 3, 10, MAXI]), r.choice([0, 0, 1, 2, 10, 100, MAXI])
    if r.random() < 0.2:
        return gmap(gl, gc)
    return gmap(gl, gc, (r.choice([1, 1, 2, 9, MAXI]), r.choice([0, 0, 1, 7, MAXI])), r.choice(STR23), r.choice([None, None] + STR23))


def c23(r):
    while True:
        ops = []
        prev = None
        for _ in range(20):
            a = m23(r, prev)
            b = m23(r, a)
            prev = b
            ops.append({"op": "cmp", "a": a, "b": b})
            if r.random() < 0.5:
                ops.append({"op": "cmp", "a": b, "b": a})
            x, y = opt(r.choice([None] + STR23)), opt(r.choice([None] + STR23))
            ops.append({"op": "strcmp", "a": x, "b": y})
        ops.append({"op": "mlist_new", "h": "l"})
        ms = valid_mappings(r, r.choice([1, 2, 3, 5, 10, 40, 90]), ["a", "b", "c", "A", "aa"], ["n", "m", "N"])
        if r.random() < 0.15:                # any numbers at all
            for m in ms:
                for k in ("gl", "gc"):
                    if r.random() < 0.3:
                        m[k] = r.choice([0, -1, -5, MAXI, MAXI - 1, -MAXI, -MAXI - 1, 1 << 30, -(1 << 30)])
        for m in ms:
            ops.append({"op": "mlist_add", "h": "l", "m": m})
            if r.random() < 0.12:
                ops.append({"op": r.choice(["mlist_list", "mlist_list", "mlist_iter"]), "h": "l"})
        ops += [{"op": "mlist_list", "h": "l"}, {"op": "mlist_iter", "h": "l"}, {"op": "mlist_list", "h": "l"}]
        yield ops


def c24(r):
    while True:
        ops = []
        for _ in range(14):
            a = anyref(r, tail=0)
            b = anyref(r)
            if not plain_src(a):
                a = r.choice(["", "x"])
            a, b = nofile([a, b])
            ops.append({"op": "join", "a": a, "b": b})
        for _ in range(14):
            a = anyref(r, tail=0)
            x = r.random()
            if not plain_src(a):
                a = r.choice(["", "x"])
            if x < 0.5:
                b = a.rstrip("/") + r.choice(["/", "/x", "/a/b.js", "/../y", "", "/..", "/../..", "/./q", "/a?z=1", "/b#f", "/"])
            elif x < 0.7 and "://" in a:           # the same path on another host, and the like
                h, _, rest = a.partition("://")
                host, _, rest = rest.partition("/")
                b = r.choice(["%s://%s.x/%s", "%s://%s:81/%s", "%sx://%s/%s", "%s://u@%s/%s", "%s://%s/%s"]) % (h, host.split("@")[-1].split(":")[0] or "q", rest)
                b = b.replace("file:", "http:") if "@" in b or ":81" in b else b
            else:
                b = anyref(r)
            if r.random() < 0.1 and "?" not in a + b and "#" not in a + b:   # empty segments
                d = a.rstrip("/")
                a = d + r.choice(["//", "///", "//x/", "/x//", "//x//"])
                b = r.choice([d + r.choice(["/c.js", "//c.js", "///c.js", "/x/c.js", "//x/c.js", "/", "//"]), b])
            a, b = [x if readable(x) else "x" for x in nofile([a, b])]
            ops.append({"op": "relative", "a": a, "b": b})
            ops.append({"op": "rejoin", "a": a, "b": b})
        yield ops


# ------------------------------------------------------------------ documents

TXT28 = ["", "a", "null", "x.js", "a b", "\u00fc\u6587", "\U0001f600", "q\"uote", "back\\slash", "tab\t\n\r", "/r/../x", "\u0000\u001f", "\u2028", "</script>", "3", "AAAA;", "\u007f"]
MEMBERS = ["version", "file", "sourceRoot", "sources", "names", "mappings", "sourcesContent", "sections"]
KINDS28 = ["drop", "null", "string", "number", "float", "big", "bool", "array", "object", "mixed"]
INTS28, STRS28, LISTS28 = ["version", "line", "column"], ["file", "sourceRoot", "mappings", "url"], ["sources", "names", "sourcesContent", "sections"]
NUM28 = [0, 1, 2, 3, 7, 255, 256, 65536, MAXI, -1, -MAXI - 1]


def doc28(r, depth=2):
    t = lambda: r.choice(TXT28) if r.random() < 0.7 else anytext(r)
    some = lambda f, p=0.6: [f()] if r.random() < p else []
    many = lambda f: [f() for _ in range(r.choice([0, 1, 2, 5, 20]))]
    if r.random() < 0.01:
        many = lambda f: [f() for _ in range(300)]
    return {"version": 3 if r.random() < 0.6 else r.choice(NUM28), "file": some(t, 0.4), "root": some(t, 0.4),
            "sources": some(lambda: many(t)), "names": some(lambda: many(t)),
            "m": some(lambda: [ord(c) for c in (Map(r, size=4).text if r.random() < 0.6 else r.choice([";", ";;", ",", "A;;", ";A", ",,A", "A,", "\n", " A", "a b"]) if r.random() < 0.5 else t())]),
            "contents": some(lambda: many(lambda: some(t)), 0.5),
            "sections": some(lambda: [{"ol": r.choice(NUM28), "oc": r.choice(NUM28), "url": some(t, 0.3), "doc": doc28(r, depth - 1)}
                                      for _ in range(r.choice([0, 1, 1, 2, 3]))], 0.35) if depth else []}


NEAR28 = ["source_root", "sources_content", "sourceroot", "Version", "mapping", "Sources", "sourcesContents", "section", "x_google_ignoreList",
          "", "FILE", " file", "names ", "source", "name", "url", "map", "offset", "debugId"]


def hurt28(r, d):
    while True:
        sec = r.randrange(0, len(d["sections"][0]) + 1) if d["sections"] else 0
        m = r.choice(MEMBERS if sec == 0 else MEMBERS[:-1] + ["offset", "map", "line", "column", "url"])
        k = r.choice(KINDS28)
        if (k == "string" and m in STRS28) or (k == "number" and m in INTS28) or (k == "array" and m in LISTS28):
            continue
        return {"sec": sec, "member": m, "kind": k}


def c28(r):
    while True:
        ops = []
        for _ in range(4):
            d = doc28(r)
            order = []
            if r.random() < 0.6:
                order = MEMBERS + ["x_%d" % k for k in range(3)] + ["x_" + k for k in r.sample(NEAR28, 3)]
                r.shuffle(order)
                order = order[:r.randrange(1, len(order) + 1)]
            ops.append({"op": "rewrite", "doc": d, "hurt": opt(hurt28(r, d) if r.random() < 0.4 else None), "order": order, "fmt": r.choice([0, 1, 2, 3, 4])})
        # what a consumer holds is the document it was made from, whatever it is asked
        if r.random() < 0.6:
            m = Map(r, size=r.choice([0, 3, 10]))
            d = m.doc(root=r.choice([None, "", "/root", "lib"]), file=r.choice([None, "", "o.js"]),
                      contents=rcontents(r, m.nsrc) if m.nsrc else None)
            ask = lambda: any_query(r, "c", m, 0.1)
            names = m.sources + ["nope.js"]
        else:
            x = Indexed(r)
            d = x.doc()
            ask = lambda: x.query(r, "c")
            names = x.source_names() + ["nope.js"]
        ops.append(o_new("c", d, r.choice([None, "http://m.org/d/o.map"]), plain_ctor(r) if d["sections"] == [] else r.choice(["create", "new", "json"]), fmt=r.choice([0, 1, 2, 3, 4])))
        ops.append({"op": "held", "h": "c"})
        for _ in range(r.choice([1, 4, 10])):
            y = r.random()
            ops.append(ask() if y < 0.6 else {"op": "spans", "h": "c"} if y < 0.7 else {"op": "hasall", "h": "c"} if y < 0.8
                       else {"op": "content", "h": "c", "src": r.choice(names), "panic": opt(r.choice([None, True, False]))})
            if r.random() < 0.2:
                ops.append({"op": "held", "h": "c"})
        ops.append({"op": "held", "h": "c"})
        yield ops


# ------------------------------------------------------- objects side by side

def renamed(ops, tag, p):
    """The same operations on other objects."""
    out = []
    for o in ops:
        o = dict(o, p=p)
        for k in ("h", "g", "to", "d"):
            if k in o:
                o[k] = tag + o[k]
        if "parts" in o:
            o["parts"] = [tag + h for h in o["parts"]]
        out.append(o)
    return out


def sibling(r, ops):
    """The same operations on documents that are nearly the same: other names and contents, and sometimes roots."""
    mark = r.choice(["'", "~", "2"])
    root = r.random() < 0.5
    shift = r.choice([None, r.random()])

    def moved(m):
        """One generated column, and those after it on the line, one further: text of the same length."""
        at = [k for k, c in enumerate(m) if (k == 0 or m[k - 1] in (44, 59)) and chr(c) in B64[:30:2]]
        if shift is None or not at or len(m) > 4000 or any(chr(c) in B64[32:] and chr(b) in B64[32:] and chr(a) in B64[32:] for a, b, c in zip(m, m[1:], m[2:])):
            return m
        k = at[int(shift * len(at))]
        return m[:k] + [ord(B64[B64.index(chr(m[k])) + 2])] + m[k + 1:]

    def sub(d, inner=False):
        d = dict(d)
        d["names"] = [[n + mark for n in d["names"][0]]] if d["names"] else []
        d["contents"] = [[[c[0] + mark] if c else [] for c in d["contents"][0]]] if d["contents"] else []
        if root and not (d["root"] and set("?#") & set(d["root"][0])):
            d["root"] = [(d["root"][0].rstrip("/") if d["root"] else "") + "/zz"]
        if not inner and not d["sections"]:      # in a section it could overlap the next one
            d["m"] = [moved(d["m"][0])] if d["m"] else []
        d["sections"] = [[dict(x, doc=sub(x["doc"], True)) for x in d["sections"][0]]] if d["sections"] else []
        return d
    out = []
    for o in ops:
        o = dict(o)
        if o["op"] == "new":
            o["doc"] = sub(o["doc"])
        elif o["op"] == "gen_add" and o["m"]["n"]:
            o["m"] = dict(o["m"], n=[o["m"]["n"][0] + mark])
        elif o["op"] == "gen_content" and o["c"]:
            o["c"] = [o["c"][0] + mark]
        out.append(o)
    return out


MIXED = ["C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18",
         "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28"]


REFUSED = ['{"version":3,"names":[],"mappings":"",%s}' % x for x in (
    '"sources":["//["]', '"sources":["a.js"],"sourceRoot":"http://["', '"sources":["a.js","http://h:99999/x"]', '"sources":["http://"],"sourceRoot":"x"')] + [
    '{"version":4,"sources":["a.js"],"names":[],"mappings":"AAAA"}', '{"version":3,"names":[],"mappings":"AAAA"}',
    '{"version":3,"sections":[{"offset":{"line":5,"column":0},"map":{"version":3,"sources":[],"names":[],"mappings":""}},{"offset":{"line":0,"column":0},"map":{"version":3,"sources":[],"names":[],"mappings":""}}]}',
    '{"version":3,"sections":[{"offset":{"line":5,"column":0},"map":{"version":3,"sources":["//["],"names":[],"mappings":""}},{"offset":{"line":9,"column":0},"map":{"version":2,"sources":[],"names":[],"mappings":""}}]}', "{"]


def c29(r):
    source = {p: GENERATORS[p](r) for p in MIXED}
    while True:
        threads = r.random() < 0.5
        k = r.choice([2, 2, 3, 4, 8] if threads else [2, 2, 3])
        hs = []
        while len(hs) < k:
            if hs and r.random() < 0.5:
                p, base = r.choice(hs)
                hs.append((p, sibling(r, base) if r.random() < 0.8 else base))
            else:
                p = r.choice(MIXED)
                hs.append((p, next(source[p])[:r.choice([30, 60, 90])]))
        parts = [renamed(ops, "%s." % "abcdefgh"[n], p) for n, (p, ops) in enumerate(hs)]
        if r.random() < 0.3:                 # documents that are refused, with whatever was held meanwhile
            n = r.randrange(len(parts))
            for _ in range(r.choice([1, 3])):
                parts[n].insert(r.randrange(len(parts[n])), {"op": "new_raw", "h": "zz", "text": r.choice(REFUSED), "url": [], "want": "any", "p": "C25"})
        if threads:
            yield [dict(o, t=n) for n, ops in enumerate(parts) for o in ops]
            continue
        # one thread: any way of taking turns
        run = r.choice([1, 1, 3, 10])
        out = []
        while any(parts):
            n = r.choice([n for n, x in enumerate(parts) if x])
            take = r.randrange(1, run + 1)
            out += parts[n][:take]
            parts[n] = parts[n][take:]
        yield out


GENERATORS = {k.upper(): v for k, v in globals().items() if len(k) == 3 and k[0] == "c" and k[1:].isdigit()}


def huge_map(r, kind=None, n=5000):
    k = r.randrange(4) if kind is None else kind
    m = Map(r, src=["s%d.js" % i for i in range(1500 if k == 0 else 3)], size=0)
    m.names = ["n%d" % i for i in range(1500 if k == 1 else 20)]
    segs = {}
    for i in range(n):
        gl, gc = (1, 3 * i + r.randrange(2)) if k == 2 else (1 + i * 13, r.choice([0, 5])) if k == 3 else (1 + i // 40, 2 * (i % 40))
        segs[gl, gc] = (i % m.nsrc, 1 + (i * 7) % (3 * n), i % 5, None if i % 3 else i % len(m.names))
    m.segs = sorted((gl, gc, o) for (gl, gc), o in segs.items())
    m.text = text(m.segs)
    return m


def long_life(r, prop):
    """One small map asked very many times."""
    m = Map(r, nsrc=3, size=20, lines=3, ties=False)
    ops = [o_new("c", m.doc(contents=["c%d" % i for i in range(m.nsrc)]), ctor=plain_ctor(r))]
    while len(ops) < 1500:
        if prop == "C07":
            q = [o_orig("c", l, c, r.randrange(3)) for l, c in gen_queries(r, m.segs, 20)]
        elif prop == "C08":
            q = [o_gen("c", src_arg(r, s, m.nsrc, 0.3, m.sources), l, c, r.randrange(3)) for s, l, c in orig_queries(r, m.segs, m.nsrc, 20)]
        elif prop == "C09":
            q = [o_all("c", src_arg(r, s, m.nsrc, 0.3, m.sources), l, r.choice([None, c])) for s, l, c in orig_queries(r, m.segs, m.nsrc, 20)]
        elif prop == "C15":
            q = [dict({"op": "content", "h": "c", "panic": opt(r.choice([None, True, False]))}, **src_arg(r, r.randrange(m.nsrc), m.nsrc, 0.3, m.sources)) for _ in range(20)]
        else:
            q = [any_query(r, "c", m, 0.3) for _ in range(20)]
        ops += [dict(o, d="D") for o in q] if prop == "C12" else q
    if prop == "C12":
        ops[0]["d"] = "D"
    return ops


def huge(prop, r):
    """Histories of one huge map for the consumers' properties."""
    if prop == "C11":
        m = huge_map(r, 2, 2500)
        ops = [o_new("c", m.doc()), {"op": "spans", "h": "c"}]
        return [ops + [o_orig("c", l, c, r.randrange(3)) for l, c in gen_queries(r, m.segs, 12)]]
    if prop == "C19":
        out = []
        for bad in (False, True):
            n = 300
            secs = [section(k // 2, 7 * (k % 2), Map(r, src=["s%d.js" % k], size=0).doc()) for k in range(n)]
            if bad:
                k = r.randrange(255, n - 2)
                secs[k], secs[k + 2] = dict(secs[k], ol=secs[k + 2]["ol"]), dict(secs[k + 2], ol=secs[k]["ol"])
            out.append([{"op": "build", "doc": doc(sections=secs), "url": [], "ctor": "new", "threads": [1, 8], "reps": 3}])
        return out
    if prop not in ("C07", "C08", "C09", "C10", "C12", "C15", "C16", "C17"):
        return []
    out = []
    if prop in ("C16", "C17"):
        x = Indexed(r, n=3, plain=True)
        x.secs[1] = huge_map(r, r.choice([0, 1, 2]), 3000)
        ops = [o_new("c", x.doc(), ctor=r.choice(IDX_CTORS))]
        for _ in range(12):
            q = x.query(r, "c") if prop == "C17" else o_orig("c", *x.queries(r, 1)[0], r.randrange(3))
            if q["op"] == {"C16": "orig"}.get(prop, q["op"]) and q["op"] != "each":
                ops.append(q)
        return [ops]
    m = huge_map(r, 0 if prop in ("C08", "C15") else None)
    c = ["c%d" % i if i % 3 else None for i in range(m.nsrc)]
    ops = [o_new("c", m.doc(contents=c), ctor=plain_ctor(r))]
    for k in range(12):
        s, l, col = orig_queries(r, m.segs, m.nsrc, 1)[0]
        sa = {"src": m.sources[s]}
        ops.append({"C07": lambda: o_orig("c", *gen_queries(r, m.segs, 1)[0], r.randrange(3)),
                    "C08": lambda: o_gen("c", sa, l, col, r.randrange(3)),
                    "C09": lambda: o_all("c", sa, l, r.choice([None, col])),
                    "C10": lambda: o_each("c", "gen" if k % 2 else "orig"),
                    "C12": lambda: any_query(r, "c", m),
                    "C15": lambda: {"op": "content", "h": "c", "src": m.sources[r.randrange(m.nsrc)], "panic": []}}[prop]())
        if prop == "C10" and k >= 3:
            break
    if prop == "C12":
        ops += [o_new("f", ops[0]["doc"])] + [dict(o, h="f") for o in ops[1:]]
        ops = [dict(o, d="D") for o in ops]
    out.append(ops)
    if prop != "C10":
        out.append(long_life(r, prop))
    return out


def big(prop, r):
    """A few histories of a size that small counters do not survive."""
    fill = {"op": "gen_fill", "h": "g", "n": 2100, "per": r.choice([1, 3, 700, 3000]), "pool": r.choice([1100, 600, 2100]), "npool": r.choice([0, 1050, 520])}
    if prop in ("C01", "C04"):
        far = [g_new("g"), g_add("g", gmap(66000, 3, (70000, 1), "a", "n")), g_add("g", gmap(66000, 1)), g_json("g")]
        more = [[g_new("g"), {"op": "gen_fill", "h": "g", "n": 70000, "per": per, "pool": p, "npool": q}, g_json("g")]
                for per, p, q in ((700, 66000, 0), (70000, 3, 66000), (1, 3, 2))]
        return [[g_new("g", root=r.choice([None, "/root"])), fill, g_json("g")], far] + (more if prop == "C01" else [])
    if prop == "C02":
        ops = [g_new("g"), fill, {"op": "new_gen", "h": "c", "g": "g", "d": "g", "ctor": r.choice(["gen", "json"]), "url": []}]
        for k in [0, 1, 511, 512, 1023, 1024, 1025, 2099] + [r.randrange(2100) for _ in range(8)]:
            ops.append({"op": "orig", "h": "c", "d": "g", "line": 1 + k // fill["per"], "col": 3 * (k % fill["per"]), "bias": r.randrange(3)})
            ops.append({"op": "genpos", "h": "c", "d": "g", "src": "s%d" % (k % fill["pool"]), "line": 1 + k, "col": k % 7, "bias": r.randrange(3)})
        return [ops]
    if prop == "C21":
        ops = []
        for n, step, flat in ((5000, 3, 1), (70000, 2, 1), (66000, 1, 700)):
            hay = [step * (k // flat) for k in range(n)]
            for _ in range(4):
                k = r.choice([0, 1, n // 2, n - 1, 32768, 65535, 65536, r.randrange(n)]) % n
                ops.append({"op": "search", "hay": hay, "needle": hay[k] + r.choice([0, 0, 1, -1]), "bias": r.randrange(3)})
        return [ops]
    if prop == "C22":
        n = 70000
        ops = [{"op": "aset_new", "h": "s"}, {"op": "aset_add", "h": "s", "x": "a", "dup": False},
               {"op": "aset_fill", "h": "s", "x": "v", "n": n, "dup": r.random() < 0.5}]
        for k in [0, 254, 255, 32767, 65534, 65535, 65536, n - 1]:
            ops += [{"op": "aset_index", "h": "s", "x": "v%d" % k}, {"op": "aset_at", "h": "s", "idx": k + 1}]
        ops += [{"op": "aset_clone", "h": "s", "to": "t"}, {"op": "aset_add", "h": "t", "x": "v65535", "dup": False},
                {"op": "aset_add", "h": "t", "x": "z", "dup": False}]
        for h in "st":
            ops += [{"op": "aset_index", "h": h, "x": "z"}, {"op": "aset_has", "h": h, "x": "v%d" % n}, {"op": "aset_size", "h": h}]
        return [ops]
    return huge(prop, r)


def with_ends(r, ops):
    """Sometimes mappings that carry the end of a span, as a lookup's answer does."""
    if r.random() < 0.7:
        return ops
    p = r.choice([0.2, 1])
    end = lambda m: dict(m, e=[r.choice([m["gc"], m["gc"] + 1 if m["gc"] < MAXI else 0, 0, 7, MAXI, -1, -MAXI - 1])]) if r.random() < p else m
    return [dict(o, **{k: end(o[k]) for k in ks}) if (ks := {"gen_add": "m", "mlist_add": "m", "cmp": "ab"}.get(o["op"])) else o for o in ops]


def histories(prop, seed, count):
    r = random.Random("%s/%s" % (prop, seed))
    g = GENERATORS[prop](r)
    out = []
    for ops in g:
        out.append(ops)
        if len(out) >= count:
            break
    return [with_ends(r, ops) for ops in out] + big(prop, r)
