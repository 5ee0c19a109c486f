"""Which scenarios decide which property, and within what bounds."""
import fields

KIND_TEMPLATE, KIND_CUT, KIND_NAME, KIND_INDEX, KIND_SHOW, KIND_OPTION, KIND_APPEND, KIND_FILE = 0, 1, 2, 3, 4, 5, 6, 8
KIND_READS, KIND_PARSES = 9, 10
KIND_THREADS = (9, 10)
OFF = 0x100

THREADSAFE = (2, 17)
MAX_REPLAY = 1500

# failure codes of these properties are also failures of the property on the left, because
# they read the very data that it speaks about
RELATED = {
    2: (),
    4: (5, 7, 8, 11, 15),
    5: (4, 6, 7, 8, 9, 12, 13, 14),
    6: (4, 5, 7, 8, 9, 11, 12, 13, 14),
    7: (4, 5, 8, 12, 14),
    8: (4, 5, 7, 12, 13, 14),
    9: (5, 10, 12),
    10: (9, 12),
    11: (4, 9, 12, 13, 14),
    12: (5, 9, 10, 11),
    13: (5, 6, 7, 8, 11),
    14: (4, 5, 7, 8, 11, 15),
    15: (4, 5, 7, 8, 9, 11, 14),
    16: tuple(range(4, 17)),
    17: tuple(range(4, 18)),
    18: (),
}

TITLES = {
    1: "totality", 2: "shared reads", 3: "resources", 4: "header and members", 5: "constant pool", 6: "string decoding",
    7: "names", 8: "descriptors", 9: "bytecode", 10: "jump targets", 11: "attribute framing", 12: "code tables",
    13: "annotations", 14: "class attributes", 15: "class-level rules", 16: "bytecode option", 17: "threadsafe build",
    18: "borrowing",
}

ASSUMPTIONS = [
    "The subject is the LLVM IR rustc emits for /repo's current sources and their dependencies (release profile, overflow checks on), "
    "with the harness linked in; replays use ordinary debug and release builds.",
    "Formatted text (format!, Display) is replaced by an empty string except in the printing scenarios; error texts are not compared.",
    "Hash values of the standard hasher are replaced by a constant; allocation never fails below 32 MiB; larger requests end the path and are judged.",
    "Outside the windows that are symbolic, the bytes are those of the scenario's template.",
    "The reference reader in harness/src/{model,code,names}.rs states the expected result; inputs listed as lenient in DESIGN.md have no verdict on acceptance.",
]


def explain(code):
    if code == 301:
        return "memory still allocated after everything was dropped"
    if code == 30000:
        return "a well-formed input is rejected"
    if code == 30720:
        return "a well-formed name is rejected"
    if code >= 20000:
        return "a malformed input is accepted; rule %d: %s" % (code - 20000, TITLES.get((code - 20000) // 100, "?"))
    return "a result differs from the reference reader; check %d: %s" % (code, TITLES.get(code // 100, "?"))


def win(off, n):
    return off | n << 32 if n else 0


def job(name, kind, tpl=0, b=0, c=0, **kw):
    j = dict(name=name, a=kind | tpl << 16, b=b, c=c)
    j.update(kw)
    return j


class Unit:
    """bytes that become symbolic together: a field, one byte of a text, one byte of a marked region"""
    __slots__ = ("t", "off", "n", "name", "large")

    def __init__(self, t, off, n, name, large=False):
        self.t, self.off, self.n, self.name, self.large = t, off, n, name, large


WIDE = ("code-length", "attribute-length", "switch-count", "switch-low", "switch-high", "text-length")  # byte by byte
LATE = 1024  # templates from here on: 300 constants in front
KEYWORDS = 2048  # templates from here on: see keyword() in harness/src/build.rs
SMALL = 4500  # larger templates: marked regions only


def plain(T):
    return {k: t for k, t in T.items() if k < KEYWORDS}


def spaced(xs, most):
    """all of a short list; of a long one the ends and the places where a count changes its size"""
    n = len(xs)
    if n <= most:
        return xs
    keep = set(range(8)) | set(range(n - 8, n)) | {126, 127, 128, 129} | set(range(252, 260))
    return [x for i, x in enumerate(xs) if i in keep]


def units(T, props, most=40):
    """the units of the fields and regions that belong to these properties (None: to any)"""
    out = []
    # small templates first: there a field costs least
    for t in sorted(plain(T).values(), key=lambda t: (t["id"] >= LATE, len(t["bytes"]))):
        v, mine, covered = t["bytes"], [], set()
        if len(v) <= SMALL:
            if "fields" not in t:
                t["fields"] = fields.fields(v)
            groups, seen = {}, set()
            for f in t["fields"]:
                if (props is None or any(p in props for p in f.props)) and (f.off, f.n) not in seen:
                    seen.add((f.off, f.n))
                    groups.setdefault(f.name if f.n <= 8 else (f.name, f.off), []).append(f)
            for fs in groups.values():
                for f in spaced(fs, most):
                    if f.n <= 4 and f.name not in WIDE or f.name in ("number", "unknown-content") and f.n <= 8:
                        mine.append(Unit(t["id"], f.off, f.n, f.name))
                        covered.update(range(f.off, f.off + f.n))
                    else:
                        # a byte of a text is told by the roles of the text and by whether it is the first, second or last
                        tag = f.name + "-" + "-".join(map(str, f.props)) if f.name == "text" else f.name
                        for o in spaced(range(f.off, f.off + f.n), 80):
                            at = o - f.off if f.name in WIDE else {0: "first", 1: "second", f.n - 1: "last"}.get(o - f.off, "inside")
                            mine.append(Unit(t["id"], o, 1, "%s.%s" % (tag, at)))
                            covered.add(o)
        for m in t["marks"]:
            if props is None or m["prop"] in props:
                for o in range(m["start"], m["end"]):
                    if o not in covered:
                        covered.add(o)
                        mine.append(Unit(t["id"], o, 1, m["name"], len(v) > SMALL))
        mine.sort(key=lambda u: u.off)
        out.append(mine)
    return out


def diverse(items, key):
    """the same items, those whose key came up least often first"""
    n, ranked = {}, []
    for i, x in enumerate(items):
        k = key(x)
        n[k] = n.get(k, 0) + 1
        ranked.append((n[k], i, x))
    ranked.sort(key=lambda x: x[:2])
    return [x for _, _, x in ranked]


def singles(us, kind, secs):
    flat = diverse([u for t in us for u in t], lambda u: "large" if u.large else u.name)
    return [job("t%d.%s+%d" % (u.t, u.name, u.off), kind, u.t, win(u.off, u.n), 0, secs=secs) for u in flat]


def price(res):
    """paths and seconds per path of each unit that was decided"""
    n = {}
    for r in res:
        if r["args"][2] == 0 and r["complete"]:
            n[(r["args"][0], r["args"][1])] = (max(1, r["paths"]), r["secs"] / max(1, r["paths"]))
    return n


# not combined with other symbolic fields: too expensive there
THIN = ("late-constants",) + tuple("code-length.%d" % i for i in range(4))

# a change of these makes the bytes behind them something else
SHIFTING = ("opcode", "wide-opcode", "switch-count", "switch-high")


def priced(us, costs, kind):
    for t in us:
        yield [(u, costs.get((kind | u.t << 16, win(u.off, u.n)))) for u in t if u.name not in THIN]


def windows(us, costs, kind, cap, tcap, secs, width=10):
    """from each unit on the widest run of adjacent units whose estimated number of paths stays below cap"""
    out = []
    for t in priced(us, costs, kind):
        last = 0
        for i in range(len(t)):
            k, paths, per, end = i, 1, 0.0, t[i][0].off
            while k < len(t) and t[k][1] and t[k][0].off == end and end + t[k][0].n - t[i][0].off <= width:
                p2, per2 = paths * t[k][1][0], max(per, t[k][1][1])
                if k > i and any(x[0].name.startswith(SHIFTING) for x in t[i:k]):
                    p2 = max(p2, paths * 16)  # what follows may become an opcode itself
                if k > i and (p2 > cap or p2 * per2 > tcap):
                    break
                paths, per, end, k = p2, per2, end + t[k][0].n, k + 1
            if k < i + 2 or end <= last:
                continue
            last = end
            u = t[i][0]
            out.append((paths * per, tuple(x[0].name for x in t[i:k]),
                        job("t%d.%s+%d.%d" % (u.t, u.name, u.off, end - u.off), kind, u.t, win(u.off, end - u.off), 0, secs=secs)))
    return out


def pairs(us, costs, kind, cap, tcap, secs, reach=10, small=60, extra=()):
    """two units of one template at once: near each other, of the same name, next to version or flags, or any of a small template"""
    out = []
    for t in priced(us, costs, kind):
        t = [x for x in t if x[1]]
        idx = {}
        for i, (u, _) in enumerate(t):
            idx.setdefault(u.name, []).append(i)
        want = set()
        for i in range(len(t)):
            for k in range(i + 1, len(t) if len(t) <= small else min(len(t), i + reach)):
                want.add((i, k))
        for name, ii in idx.items():
            for a in range(len(ii)):
                for b in range(a + 1, min(len(ii), a + 4)):
                    want.add((ii[a], ii[b]))
            if name in ("major", "class-flags", "this", "super"):
                want |= {tuple(sorted((ii[0], k))) for k in range(len(t)) if k != ii[0]}
        for i, k in want:
            (x, cx), (y, cy) = t[i], t[k]
            p, per = cx[0] * cy[0], max(cx[1], cy[1])
            if x.name.startswith(SHIFTING) and k <= i + 3:
                p = max(p, cx[0] * 64)
            if p <= cap and p * per <= tcap and (x.n > 1 or y.n > 1 or y.off - x.off > 1):
                out.append((p * per, (x.name, y.name), job("t%d.%s+%d.%s+%d" % (x.t, x.name, x.off, y.name, y.off), kind, x.t,
                                                           win(x.off, x.n), win(y.off, y.n), secs=secs)))
    return out


def fit(cands, budget, threads=8):
    """each combination of names once before any comes twice, cheapest first, as far as the budget goes"""
    cands = diverse(sorted(cands, key=lambda x: x[0]), lambda x: x[1])
    tot, keep = 0.0, []
    for c, _, j in cands:
        if tot + c + 0.02 > budget * threads * 1.5:
            continue
        tot += c + 0.02
        keep.append(j)
    return keep, len(cands)


# regions that speak about a property
REGIONS = {3: (3, 5, 9, 12), 16: (9, 10, 12, 16), 17: None, 18: (6, 7, 8, 13, 14, 18)}


def passes(num, tier, T, ex):
    quick = tier != "thorough"
    if num == 1:
        yield from totality(T, quick, ex)
        return
    if num == 2:
        yield from threads(T, quick, ex)
        return
    if num == 3:
        yield from resources(T, quick, ex)
        return
    if num == 7:
        yield from names(quick)
    if num == 10:
        jobs = [job("index.%d" % n, KIND_INDEX, 0, n, 64) for n in range(0, 9 if quick else 17)]
        yield ("index lookup", jobs, 60, "every strictly increasing list of at most %d instruction offsets and every query, all 64-bit values" % (len(jobs) - 1))
    if num == 11:
        yield from framing(T, quick)
    kind = KIND_OPTION if num == 16 else KIND_TEMPLATE
    us = units(T, REGIONS.get(num, (num,)))
    if num != 10:
        yield keywords(T, kind)
    yield from sweep(num, us, kind, quick, ex)
    if num == 8:
        sregs = [[u for u in t if u.t in (13, 14, 15, 44)] for t in us]
        yield from sweep(num, sregs, KIND_SHOW, quick, ex, "printing, ", 0.5)
    if num == 16:
        yield from sweep(num, units(T, None, 12), KIND_TEMPLATE | OFF, quick, ex, "bytecode off, ", 0.4)


def keywords(T, kind):
    jobs = []
    for t in T.values():
        if t["id"] >= KEYWORDS:
            w = [win(m["start"], m["end"] - m["start"]) | 1 << 48 for m in t["marks"]]
            jobs.append(job("word.t%d" % t["id"], kind, t["id"], w[0], w[1] if len(w) > 1 else win(4, 4), secs=30))
    return ("words", jobs, 60, "every word of at most 38 letters as attribute name in each place and at any version, "
            "every word of at most 24 letters, alone or behind a package, as class, module, member and other name")


def sweep(num, us, kind, quick, ex, tag="", share=1.0):
    s1 = singles(us, kind, 20 if quick else 120)
    n = len({u.t for t in us for u in t})
    names_ = sorted({u.name.split(".")[0] for t in us for u in t})
    yield (tag + "fields", s1, (40 if quick else 900) * share,
           "each of %d fields and text bytes of %d templates alone takes every value: %s" % (len(s1), n, ", ".join(names_)))
    costs = price(ex.results)
    budget = (16 if quick else 1500) * share
    cap, tcap = (4000, 6.0) if quick else (200000, 120.0)
    w, nw = fit(windows(us, costs, kind, cap, tcap, 8 if quick else 300), budget)
    yield (tag + "adjacent fields", w, budget * 1.5,
           "runs of adjacent fields or bytes, up to 10 bytes, take every value at once; %d of %d runs estimated to fit" % (len(w), nw))
    p, np_ = fit(pairs(us, costs, kind, cap, tcap, 8 if quick else 300), budget)
    yield (tag + "two fields", p, budget * 1.5, "two fields of a template take every value at once; %d of %d pairs estimated to fit" % (len(p), np_))


def cuts(T, quick, ids=None, only_small=5000):
    out = []
    for t in sorted(plain(T).values(), key=lambda t: len(t["bytes"])):
        if ids and t["id"] not in ids:
            continue
        n = len(t["bytes"])
        if n > 65535 or n > only_small:
            continue
        step = 256
        for lo in range(0, n + 1, step):
            out.append(job("t%d.cut%d" % (t["id"], lo), KIND_CUT, t["id"], lo | min(n, lo + step - 1) << 32, 0, secs=60))
    return out


def totality(T, quick, ex):
    hi = 18 if quick else 24
    jobs = [job("file.%d" % n, KIND_FILE, 0, n, 0, secs=60 if quick else 900) for n in range(0, 11)]
    for n in range(11, hi + 1):
        jobs.append(job("file.%d" % n, KIND_FILE, 0, n, 60, secs=60 if quick else 900))
    jobs.reverse()
    yield ("whole files", jobs, 60 if quick else 1500,
           "every file of at most 10 bytes; every file of 11 to %d bytes that starts with a version 60 header" % hi)
    yield keywords(T, KIND_TEMPLATE)
    yield from sweep(1, units(T, None, 12), KIND_TEMPLATE, quick, ex)
    yield ("cut off files", cuts(T, quick), 25 if quick else 1500, "templates of at most 5000 bytes, small ones first, cut off at every position")


def resources(T, quick, ex):
    yield from sweep(3, units(T, (3,)), KIND_TEMPLATE, quick, ex, "deep structures, ", 0.5)
    yield from sweep(3, units(T, None, 12), KIND_TEMPLATE, quick, ex, "all, ", 0.8)
    yield ("cut off files", cuts(T, quick), 25 if quick else 900, "templates of at most 5000 bytes, small ones first, cut off at every position: nothing stays allocated")


def threads(T, quick, ex):
    """c: number of threads | preemptions << 8"""
    n2 = lambda bound: 2 | bound << 8
    T = plain(T)
    small = [t for t in T.values() if any(m["prop"] == 2 for m in t["marks"])]
    jobs = [job("parse.t%d" % t["id"], KIND_PARSES, t["id"], 0, n2(2), secs=60) for t in T.values() if len(t["bytes"]) < 4000]
    yield ("parsing in parallel", jobs, 60 if quick else 300,
           "two threads parse each template of at most 4000 bytes at the same time: every schedule with at most 2 preemptions at operations on shared memory")
    jobs = [job("read.t%d" % t["id"], KIND_READS, t["id"], 0, n2(2 if quick else 3), secs=60 if quick else 600) for t in small]
    jobs += [job("read3.t%d" % t["id"], KIND_READS, t["id"], 0, 3 | (1 if quick else 2) << 8, secs=60 if quick else 600) for t in small]
    jobs += [job("read.t%d" % t["id"], KIND_READS, t["id"], 0, n2(1 if quick else 2), secs=30 if quick else 900) for t in T.values()
             if t not in small and len(t["bytes"]) < 4000]
    yield ("reading in parallel", jobs, 120 if quick else 1500,
           "2 threads walk the constants of one class: every schedule with at most %s preemptions for the small pools, %s for the other templates; 3 threads with %s"
           % ((2, 1, 1) if quick else (3, 2, 2)))
    us = units(T, (2,))
    jobs = [dict(j, c=n2(1)) for j in singles(us, KIND_READS, 60)]
    yield ("symbolic pools", jobs, 100 if quick else 900,
           "2 threads, one preemption: each of %d bytes of the small pools takes every value" % len(jobs))
    if not quick:
        w = []
        for u in (u for t in us for u in t):
            w.append(job("t%d.%s+%d.2" % (u.t, u.name, u.off), KIND_READS, u.t, win(u.off, 2), n2(1), secs=300))
        yield ("wider symbolic pools", w, 1800, "2 threads, one preemption: each two adjacent bytes of the small pools take every value")


def names(quick):
    hi = 5 if quick else 7
    jobs = [job("name.%s%d" % (k, n), KIND_NAME | f, 0, n, 0, secs=60 if quick else 600) for n in range(hi, -1, -1) for k, f in (("borrowed", 0), ("owned", OFF))]
    yield ("class name constructor", jobs, 60 if quick else 900, "every text of at most %d bytes given to the public class name constructor, borrowed or owned" % hi)


def framing(T, quick):
    yield ("cut off files", cuts(T, quick, only_small=1000), 60 if quick else 900, "every template of at most 1000 bytes cut off at every position")
    jobs = [job("t%d.append%d" % (t["id"], n), KIND_APPEND, t["id"], n, 0) for t in plain(T).values() if len(t["bytes"]) < 5000 for n in (1, 2)]
    yield ("trailing bytes", jobs, 30, "one or two arbitrary bytes after the end of every template")
