"""The bounded models of the specification, and the behaviours they hand on to the code.

TLC evaluates the module Cases (boundary values of every type: bases, and edits of one part of them), checks on the
models MC_* what the specification claims of itself over these spaces, and serializes what the conformance runs need.
Nothing here decides anything about the code: the behaviours made here run like all others and are judged by Trace."""
import copy, glob, hashlib, json, os, random
from concurrent.futures import ThreadPoolExecutor
import gen, lib, plans
from gen import be, rev
from lib import ToolError
from plans import C1, TEXTS, hx, set_at

V2_TYPES = None
_cases = None


def spec_hash():
    h = hashlib.sha256()
    for p in sorted(glob.glob(lib.SPEC + "/*.tla") + glob.glob(lib.SPEC + "/java/*.java")):
        h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def run_forms(wanted, start, step, out=None, heap="3g", timeout=3000):
    d = lib.work_dir()
    p = os.path.join(d, "types-%d.json" % start)
    with open(p, "w") as f:
        json.dump(wanted, f)
    env = dict(TYPES=p, START=str(start), STEP=str(step))
    if out:
        env["OUT"] = out
    r = lib.tlc("MC_Forms", "MC_Forms.cfg", env=env, heap=heap, timeout=timeout)
    if not r.ok:
        raise ToolError("MC_Forms: " + r.out[-3000:])
    return r


def cases():
    """the table of boundary values: type -> list of {base, edits}"""
    global _cases
    if _cases is None:
        p = os.path.join(lib.BUILD, "cases-%s.json" % spec_hash())
        with lib.locked("cases"):
            if not os.path.exists(p):
                for q in glob.glob(os.path.join(lib.BUILD, "cases-*.json")):
                    os.remove(q)
                m = lib.model()
                pl = plans.Plan(1, m, 1)
                names = sorted(set(C1) | set(pl.c2) | set(pl.json_types))
                r = run_forms([["none", n] for n in names], 10 ** 8, 1, out=p + ".tmp")
                os.rename(p + ".tmp", p)
            _cases = json.load(open(p))[0]
    return _cases


FORMS = dict(C01=["v2"], C02=["v1"], C05=["json"], C07=["text"], C25=["v2", "json"])


def check_forms(pid, tier, seed):
    """what the specification claims of its forms, over the table (a part of it in the quick tier)"""
    m = lib.model()
    pl = plans.Plan(1, m, 1)
    types = dict(v1=C1, v2=pl.c2, json=pl.json_types, text=TEXTS)
    if pid == "C25":
        types = dict(v2=["ElementAccumulator", "State"], json=["ElementAccumulator", "State"])
    wanted = [[f, t] for f in FORMS[pid] for t in types[f]]
    n = lib.CPUS
    every = 1 if tier == "thorough" else dict(C01=3, C02=6, C05=30, C07=1, C25=1)[pid]
    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(lambda k: run_forms(wanted, k + 1 + n * (seed % every), n * every), range(n)))
    return dict(model="MC_Forms", forms=FORMS[pid], states=sum(r.distinct for r in rs), transitions=sum(r.generated for r in rs), every=every,
                claims="round trip, prefix freedom, injectivity (wire); value -> document -> value (JSON); value -> text -> value")


class Sys:
    """systematic behaviours from the table"""

    def __init__(self, seed, tier, pid):
        self.m = lib.model()
        self.tier, self.quick = tier, tier == "quick"
        self.r = random.Random(seed * 7919 + int(pid[1:]))
        # numbers that are in the code and not in these plans yet
        ints, words = gen.dictionary()
        self.extra = sorted({x for i in ints if i not in plans.BASE_INTS for x in (i - 1, i, i + 1) if x >= 0})
        self.p = plans.Plan(seed * 31 + 7, self.m, 1)
        self.g = self.p.g
        self.g.json = True
        self.c = cases()

    def values(self, t):
        """all values of the table for a type"""
        for c in self.c[t]:
            yield c["base"]
            for path, x in c["edits"]:
                yield set_at(c["base"], path, x)
            for path, x in self.more(t, c["base"]):
                yield set_at(c["base"], path, x)

    def more(self, t, base):
        """edits to the numbers, and to lengths, that the code mentions"""
        if not self.extra:
            return
        for path, d in plans.leaves(self.g, self.g.T(t), base):
            w = gen.WIDTH.get(d["k"])
            if d["k"] in ("u8", "u16", "u32", "u64", "usize", "cur", "work"):
                for i in self.extra[:24]:
                    if i < 1 << (8 * w):
                        yield path, be(i, w)
            elif d["k"] in ("vec", "bytes", "str"):
                for i in self.extra[:24]:
                    if d["k"] == "vec":
                        e = self.g.T(d["e"])
                        if 0 < i <= (1100 if e["k"] in gen.WIDTH else 40):
                            x = self.g.value(e)
                            yield path, [x] * i
                    elif i <= 5000:
                        yield path, "61" * i

    def bases(self, t):
        for c in self.c[t]:
            yield c["base"]

    def enc(self, ver, t, v):
        return "".join(h for _, h in self.g.enc(ver, t, v))

    def doc(self, t, v):
        """the document of a value that has one"""
        try:
            d = self.g.doc(t, v)
            plans.doc_json(d)
            return d
        except (UnicodeDecodeError, ValueError, OverflowError, KeyError):
            return None

    def chunks(self, cmds, n=24):
        return [cmds[i:i + n] for i in range(0, len(cmds), n)]

    def some(self, groups, budget):
        """as many of the groups of commands as fit in so many bytes of text (all of them in the thorough tier)"""
        sizes = [len(json.dumps(g)) for g in groups]
        total = sum(sizes)
        if not self.quick or total <= budget:
            return groups
        # what is small is never left out; the large ones take turns
        order = sorted(range(len(groups)), key=lambda i: sizes[i])
        keep, n = [], 0
        while order and n + sizes[order[0]] <= 0.65 * budget:
            n += sizes[order[0]]
            keep.append(order.pop(0))
        self.r.shuffle(order)
        for i in order:
            if n + sizes[i] <= budget:
                keep.append(i)
                n += sizes[i]
        return [groups[i] for i in sorted(keep)]

    # ------------------------------------------------------------------------------------------------ wire
    def wire(self, ver, types):
        segs = []
        for t in types:
            vals = list(self.values(t))
            a = dict(ver=ver, t=t)
            for i in range(0, len(vals), 6):
                s = []
                part = vals[i:i + 6]
                for v in part:
                    s.append(dict(a, op="enc", v=v))
                for v in part:
                    s.append(dict(a, op="dec", b=self.enc(ver, t, v) + "a5" * (i % 3)))
                for v in part[::2]:
                    s.append(dict(a, op="put", v=v))
                s += [dict(a, op="get") for _ in part[::2]]
                segs.append(s)
        return self.some(segs, 14_000_000)

    def bulk(self, ver):
        """lists of any number of elements: the counts where a width, a buffer or a limit would show"""
        segs = []
        counts = [0, 1, 2, 127, 128, 255, 256, 257, 1023, 1024, 1025, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 100_001, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 1 << 21, (1 << 22) + 1, (1 << 24) + 1]
        counts += [i for i in self.extra if i < 20_000_000]
        types = dict(u8=1, string=1, bool=1, u64=8, usize=8, Hash256=32, Currency=16, vec_u64=24, opt_u64=9, vec_string=20, SiacoinOutput=48, UnlockKey=60, bytes=12)
        types.update(dict(v2_Transaction=600, SpendPolicy=80, v2_Attestation=300, time=8) if ver == 2 else dict(v1_Transaction=600, v1_SiacoinInput=200, Block=200))
        g = self.g
        for t, size in types.items():
            s = []
            for n in sorted(set(counts)):
                if n * size > dict(u8=20_000_000, string=20_000_000, u64=20_000_000, Hash256=7_000_000).get(t, 1_100_000):
                    continue
                g.maxlist, g.fill = 1, 0.3
                v = "61" if t == "string" else g.value(g.T(t))
                u = 1 if t == "string" else len(self.enc(ver, t, v)) // 2
                s.append(dict(op="bulk", ver=ver, t=t, v=v, n=n, unit=u, **(dict(step=self.r.choice([1000, 4096, 70_000])) if n > 3 and self.r.random() < 0.3 else {})))
            segs.append(s)
        return segs

    def C01(self):
        return self.bulk(2) + self.wire(2, self.p.c2)

    def C02(self):
        return self.bulk(1) + self.wire(1, C1)

    ALTS = dict(
        time=[gen.TIME_MIN - 1, gen.TIME_MIN, gen.TIME_MAX, gen.TIME_MAX + 1, 1 << 62, -(1 << 63), (1 << 63) - 1, -1, -(1 << 62), 253402300800 + 86400, 1 << 38, 1 << 40, 0],
        dur=[1 << 63, (1 << 64) - 1, (1 << 63) - 1, (1 << 63) + 1, 1 << 62, 0, 3 << 62],
        small=[127, 128, 255, 256, 1 << 15, (1 << 15) - 1, 1 << 16, (1 << 16) - 1, (1 << 16) + 1, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 32) - 1, (1 << 32) + 1, 1 << 63, -1, -2, -(1 << 15),
               -(1 << 15) - 1, -(1 << 31), -(1 << 31) - 1, (1 << 48) + 5, (1 << 63) - 1, 1 << 24, 1 << 40, 1 << 56])
    BADUTF8 = ["ff", "c0af", "80", "e282", "eda080", "f4908080", "c1bf", "f8888080", "61c2", "f09f98", "f0808080", "efbfbf", "f48fbfbf", "61ff62", "e08080", "ed9fbf", "edbfbf", "f4", "c280", "e0a080",
               "fe", "f5808080", "6180", "c3a980", "00ff", "616161616161616161616161ff"]

    def alternatives(self, toks, i, seen):
        """what a hostile writer might put in place of token i: whole encodings"""
        k, h = toks[i]
        pre, post = "".join(x for _, x in toks[:i]), "".join(x for _, x in toks[i + 1:])
        n = int(rev(h), 16) if k in ("len", "curlen", "mask", "count") else 0
        often = seen.get(k, 0)
        seen[k] = often + 1
        if k in ("bool", "tag", "ver"):
            for v in (range(256) if often < 4 else [0, 1, 2, 3, 5, 8, 128, 129, 255]):
                yield pre + be(v, 1) + post
        elif k == "len":
            for v in [0, n - 1, n + 1, n + 2, 2 * n, 1 << 16, 1 << 24, 1 << 30, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 32) + n, 1 << 40, 1 << 48, (1 << 56) + n, 1 << 59, 1 << 60, (1 << 61) + n,
                      1 << 62, (1 << 63) - 1, 1 << 63, (1 << 63) + n, (1 << 64) - 8, (1 << 64) - 1][:24 if often < 12 else 8]:
                if v >= 0 and v != n:
                    yield pre + rev(be(v, 8)) + post
        elif k == "curlen":
            for v in (0, 15, 16, 17, 18, 24, 32, 33, 64):
                raw = "01" * v
                yield pre + rev(be(v, 8)) + raw + "".join(x for _, x in toks[i + 2:])
                yield pre + rev(be(v, 8)) + "00" * max(0, v - 16) + "01" * min(v, 16) + "".join(x for _, x in toks[i + 2:])
            for v in (1 << 32, (1 << 32) + n, 1 << 63, (1 << 64) - 1, (1 << 61) + n):
                yield pre + rev(be(v, 8)) + post
        elif k in ("time", "dur", "small") and often < 4:
            for v in self.ALTS[k]:
                yield pre + rev(be(v, 8)) + post
        elif k == "str" and often < 4:
            for bad in self.BADUTF8:
                yield "".join(x for _, x in toks[:i - 1]) + rev(be(len(bad) // 2, 8)) + bad + post
        elif k == "mask":
            for b in range(64):
                yield pre + rev(be(n ^ (1 << b), 8)) + post
            for v in (0, (1 << 64) - 1, n << 8, 1 << 10, 1 << 11):
                yield pre + rev(be(v, 8)) + post
        elif k == "count":
            for v in sorted({0, 1, 2, 3, n + 1, max(0, n - 1), 127, 128, 200, 254, 255}):
                yield pre + be(v, 1) + post
        elif k in ("int", "raw"):
            pass

    def C03(self):
        segs = []
        for ver, types in ((1, C1), (2, self.p.c2)):
            for t in types:
                bases = list(self.bases(t))
                if t in ("SpendPolicy",):
                    bases = bases[:6] + [b for b in bases if b["k"] == "thresh"][:10]
                elif t in ("State",):
                    bases = bases[:2] + bases[8:10]
                elif t == "ElementAccumulator":
                    bases = bases[:4]
                cmds = []
                for b in bases:
                    toks = self.g.enc(ver, t, b)
                    e = "".join(x for _, x in toks)
                    if len(e) > 9000:
                        continue
                    a = dict(op="dec", ver=ver, t=t)
                    seen = {}
                    for i in range(len(toks)):
                        cmds += [dict(a, b=x) for x in self.alternatives(toks, i, seen)]
                    n = len(e) // 2
                    cuts, at = {0, n - 1}, 0
                    for _, h in toks:
                        cuts |= {at, at + 1, at + len(h) // 2 - 1}
                        at += len(h) // 2
                    cmds += [dict(a, b=e[:2 * c]) for c in sorted(cuts) if 0 <= c < n]
                segs += self.chunks(cmds, 16)
        return self.some(segs, 9_000_000)

    def C04(self):
        segs = []
        r = self.r
        for ver, types in ((1, C1), (2, self.p.c2)):
            for t in types:
                bases = list(self.bases(t))
                if len(bases) > 16:
                    bases = bases[:6] + r.sample(bases[6:], 4 if self.quick else min(30, len(bases) - 6))
                for b in bases:
                    toks = self.g.enc(ver, t, b)
                    e = "".join(x for _, x in toks)
                    n = len(e) // 2
                    a = dict(ver=ver, t=t)
                    s = []
                    # something follows, in one piece and in several
                    for extra, step in (("a5" * 3, 0), ("00" * 40, 0), ("ff" * 40, 7), ("01" * 9, 1), ("02" * 300, 64)):
                        s.append(dict(a, op="decf", b=e + extra, **(dict(step=step) if step else {})))
                    s.append(dict(a, op="dec", b=e + "00" * 40))
                    edges, within, at = {0, n}, set(), 0
                    for _, h in toks:
                        edges.add(at)
                        within |= {at + 1, at + max(1, len(h) // 2 - 1)}
                        at += len(h) // 2
                    within = sorted(x for x in within - edges if x <= n)
                    edges = sorted(edges)
                    size = max(1, len(json.dumps(b)))
                    most = max(8, (60_000 if self.quick else 600_000) // size)
                    if len(edges) > most:
                        edges = sorted(r.sample(edges, most))
                    else:
                        edges = sorted(edges + r.sample(within, min(len(within), most - len(edges))))
                    for c in edges:
                        s.append(dict(a, op="encf", v=b, limit=c, step=r.choice([0, 1, 3, 7]), mode=r.choice(["zero", "full", "eof", "err"])))
                        s.append(dict(a, op="decf", b=e, fail=c, step=r.choice([0, 1, 3, 7]), mode=r.choice(["eof", "err", "wouldblock", "badeof"])))
                    segs += self.chunks(s, 30)
        return self.some(segs, 9_000_000)

    # ------------------------------------------------------------------------------------------------ JSON and text
    def json_values(self, types, budget):
        segs = []
        for t in types:
            vals = list(self.values(t))
            for i in range(0, len(vals), 4):
                s = []
                for v in vals[i:i + 4]:
                    d = self.doc(t, v)
                    s.append(dict(op="tojson", t=t, v=v))
                    if d is not None:
                        s.append(dict(op="fromjson", t=t, d=d, **self.p.via()))
                segs.append(s)
        return self.some(segs, budget)

    def C05(self):
        return self.json_values(self.p.json_types, 5_000_000)

    NUMBERS = ["-1", "0", "1", "127", "128", "254", "255", "256", "257", "511", "512", "65535", "65536", "2147483648", "4294967295", "4294967296", "4294967297", "9007199254740992", "9007199254740993",
               "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", "340282366920938463463374607431768211456", "0.0", "1.0", "1.5", "1e3",
               "1E0", "1e-1", "-1.0", "-9223372036854775808", "-9223372036854775809", "1e400"]

    def char_mutants(self, s, few=False):
        """a text with one character replaced, dropped, doubled or put in: as bytes lengths that stay and that change"""
        n = len(s)
        idx = range(n) if not few else sorted({0, 1, 2, n // 2, n - 2, n - 1, 31, 32, 63, 64, 65, 75} & set(range(n)))
        for i in idx:
            c = s[i]
            for d in ("0" if c != "0" else "1", "g", c.upper() if c.islower() else c.lower(), " ", "-", "+", "\0"):
                if d != c:
                    yield s[:i] + d + s[i + 1:]
            if i + 1 < n:
                yield s[:i] + "é" + s[i + 2:]                 # as many bytes as before
            if i + 2 < n:
                yield s[:i] + "€" + s[i + 3:]
            if i + 3 < n:
                yield s[:i] + "\U0001f600" + s[i + 4:]
            yield s[:i] + s[i + 1:]
            yield s[:i] + c + s[i:]
        yield from ("", s + "0", s + "00", s + " ", s + "\n", " " + s, "0x" + s, s[:-2], s + s, s[::-1], "é" * (n // 2), "€" * (n // 3) + "a" * (n % 3), s[:n // 2], s.upper(), s.title(), s.swapcase(),
                    ":" + s, s + ":", "h:" + s, "ed25519:" + s, s.replace(":", ""), s.replace(":", "::"), s.replace(":", ";"), s.replace("ed25519", "ED25519"), s.replace("ed25519", "ed25518"), s + "=")

    def doc_mutants(self, d, deep):
        g = self.g
        seen = {}
        for path in g.nodes(d):
            x = g.at(d, path)
            shape = (x["k"], tuple(p[0] for p in path)[-1:], len(x.get("v", "")) if x["k"] == "s" else 0)
            seen[shape] = seen.get(shape, 0) + 1
            first = seen[shape] <= (6 if deep else 2)
            alts, texts = [], []
            if x["k"] == "n":
                alts += [dict(k="n", v=v) for v in (self.NUMBERS if first else self.NUMBERS[:1] + ["256", "18446744073709551616", "1.0"])] + [dict(k="s", v=hx(x["v"]))]
            elif x["k"] == "s" and first:
                s = bytes.fromhex(x["v"]).decode()
                texts += [g.S(y) for y in self.char_mutants(s, few=not deep or len(s) > 80)]
                alts += [dict(k="n", v="1")]
            elif x["k"] == "a":
                e = x["e"]
                if len(e) == 11:
                    alts += [dict(k="a", e=(e * 8)[:n]) for n in (12, 13, 16, 22, 23, 33, 64)]
                alts += [dict(k="a", e=e[:-1]), dict(k="a", e=e + e[-1:]), dict(k="a", e=e + e), dict(k="a", e=e + [dict(k="z")]), dict(k="a", e=[dict(k="z")]), dict(k="a", e=[x])] + e[:1]
            elif x["k"] == "o" and first:
                for i, (n, y) in enumerate(x["m"]):
                    alts.append(dict(k="o", m=x["m"][:i] + x["m"][i + 1:]))
                    alts.append(dict(k="o", m=x["m"][:i] + [[n, dict(k="z")]] + x["m"][i + 1:]))
                    name = bytes.fromhex(n).decode()
                    for m in (name.upper(), name[:1].upper() + name[1:], gen.snake(name), name + "s", name[:-1]):
                        if m != name:
                            alts.append(dict(k="o", m=x["m"][:i] + [[hx(m), y]] + x["m"][i + 1:]))
                alts.append(dict(k="o", m=x["m"][::-1]))
            if len(path) < 3:
                alts += [dict(k="z"), dict(k="b", v=True), dict(k="n", v="0"), dict(k="s", v=""), dict(k="a", e=[]), dict(k="o", m=[]), dict(k="a", e=[x]), dict(k="s", v="30")]
            elif x["k"] in ("b", "z"):
                alts += [dict(k="n", v="0"), dict(k="n", v="1"), dict(k="s", v=hx("true")), dict(k="z")]
            for level, ys in ((min(2, len(path)), alts), (3, texts)):
                for y in ys:
                    if y != x:
                        yield level, g.replace(d, path, y)

    def policies(self):
        """policies that differ in kind"""
        ps = list(self.bases("SpendPolicy"))
        return ps[:6] + [p for p in ps if p["k"] == "thresh"][:14]

    def C06(self):
        segs = []
        small = {"SpendPolicy"}
        for t in self.p.json_types:
            bases = self.policies() if t == "SpendPolicy" else list(self.bases(t))[:2]
            if t == "v2_FileContractResolution":
                bases = list(self.bases(t))[:3]
            if t == "ElementAccumulator":
                bases = [b for b in self.bases(t) if 1 < len(b["trees"]) < 8][:2]
            for b in bases:
                d = self.doc(t, b)
                if d is None:
                    continue
                size = len(plans.doc_json(d))
                every = list(self.doc_mutants(d, size < 400))
                for level, budget in ((0, 200_000), (1, 1_100_000), (2, 150_000), (3, 100_000)):
                    cmds = [dict(op="fromjson", t=t, d=x, **self.p.via()) for f, x in every if f == level]
                    segs += self.some(self.chunks(cmds, 12), budget)
        for t in TEXTS:
            for b in list(self.values(t))[:1]:
                s = bytes.fromhex(self.p.text_of(t, b)).decode()
                cmds = [dict(op="parse", t=t, b=hx(x)) for x in self.char_mutants(s)]
                segs += self.chunks(cmds, 40)
        segs += self.amounts(40)
        return self.some(segs, 30_000_000)

    def C07(self):
        segs = []
        for t in TEXTS + ["ChainIndex", "Specifier", "Work", "Currency"]:
            vals = list(self.values(t))
            for i in range(0, len(vals), 12):
                s = []
                for v in vals[i:i + 12]:
                    s.append(dict(op="display", t=t, v=v))
                    if t in TEXTS:
                        try:
                            bytes.fromhex(self.p.text_of(t, v)).decode()
                        except UnicodeDecodeError:
                            continue
                        s.append(dict(op="parse", t=t, b=self.p.text_of(t, v)))
                segs.append(s)
            if t in TEXTS:
                for b in vals[:3]:
                    s = bytes.fromhex(self.p.text_of(t, b)).decode()
                    segs += self.chunks([dict(op="parse", t=t, b=hx(x)) for x in self.char_mutants(s)], 60)
                    # every character to every other digit
                    cmds = [dict(op="parse", t=t, b=hx(s[:i] + c + s[i + 1:])) for i in range(len(s)) for c in "05af" if s[i] != c]
                    segs += self.chunks(cmds, 60)
        return segs

    # ------------------------------------------------------------------------------------------------ transactions
    def part(self, v, path):
        for p in path:
            v = v[p] if isinstance(p, str) else v[p - 1]
        return v

    def edits(self, t, queries, budget, pre=()):
        """every edit of every base, in place: observe, undo, observe again"""
        segs = []
        for c in self.c[t]:
            base = c["base"]
            eds = c["edits"] + list(self.more(t, base))
            for i in range(0, max(1, len(eds)), 12):
                s = list(pre) + [dict(op="let", x="a", t=t, v=base)] + queries("a", base, [])
                for path, x in eds[i:i + 12]:
                    s.append(dict(op="set", x="a", path=path, v=x))
                    s += queries("a", set_at(base, path, x), path)
                    s.append(dict(op="set", x="a", path=path, v=self.part(base, path)))
                s += queries("a", base, [])
                segs.append(s)
        return self.some(segs, budget)

    def a_chain(self):
        cs = dict(network=self.m["networks"]["mainnet"], state=copy.deepcopy(self.c["State"][0]["base"]))
        return [dict(op="chain", cs=cs)]

    def C08(self):
        def q(x, v, path):
            s = [dict(op="id1", x=x)]
            if path[:1] == ["siacoinOutputs"] or path[:1] == ["siafundOutputs"] or path[:1] == ["fileContracts"] or not path:
                for kind in ("siacoin", "siafund", "contract"):
                    s.append(dict(op="child1", x=x, kind=kind, i=be(self.r.choice([0, 1, 7, 255, 256, 1 << 32]), 8)))
            return s
        segs = self.edits("v1_Transaction", q, 9_000_000)
        base = self.c["v1_Transaction"][0]["base"]
        for kind in ("siacoin", "siafund", "contract"):
            segs.append([dict(op="let", x="a", t="v1_Transaction", v=base)] +
                        [dict(op="child1", x="a", kind=kind, i=be(i, 8)) for i in self.int_edges(8)])
        return segs

    def int_edges(self, w):
        top = (1 << 8 * w) - 1
        return sorted({x for x in self.extra if x <= top} | {0, 1, 2, 3, 4, 127, 128, 255, 256, 257, top, top - 1} | {1 << k for k in range(8 * w)} | {(1 << k) - 1 for k in range(8, 8 * w, 8)} | {(1 << k) + 1 for k in range(8, 8 * w, 8)})

    def C09(self):
        return self.edits("v2_Transaction", lambda x, v, p: [dict(op="id2", x=x)], 9_000_000)

    def C10(self):
        segs = []
        h = self.c["Hash256"][0]["base"]
        ids = [v for v in self.values("Hash256")][:16]
        for k in sorted(self.m["derived"]):
            if k in self.m["indexed"]:
                segs.append([dict(op="derive", kind=k, id=h, i=be(i, 8)) for i in self.int_edges(8)])
                segs.append([dict(op="derive", kind=k, id=x, i=be(i, 8)) for x in ids for i in (0, 1)])
            else:
                segs.append([dict(op="derive", kind=k, id=x) for x in ids])
        # every bit of the parent counts
        for k in sorted(self.m["derived"]):
            s = []
            for b in range(0, 256, 5 if self.quick else 1):
                x = be(int(h, 16) ^ (1 << b), 32)
                s.append(dict(op="derive", kind=k, id=x, **(dict(i=be(3, 8)) if k in self.m["indexed"] else {})))
            segs.append(s)
        return segs

    def C11(self):
        h = self.c["Hash256"][0]["base"]

        def q(x, v, path):
            return [dict(op="whole", x=x, parent=h, key=be(1, 8), timelock=be(5, 8))]
        segs = self.edits("v1_Transaction", q, 9_000_000, pre=self.a_chain())
        base = self.c["v1_Transaction"][0]["base"]
        s = self.a_chain() + [dict(op="let", x="a", t="v1_Transaction", v=base)]
        for i in self.int_edges(8):
            s.append(dict(op="whole", x="a", parent=h, key=be(i, 8), timelock=be(5, 8)))
            s.append(dict(op="whole", x="a", parent=h, key=be(1, 8), timelock=be(i, 8)))
        for x in self.values("Hash256"):
            s.append(dict(op="whole", x="a", parent=x, key=be(1, 8), timelock=be(5, 8)))
        segs.append(s)
        return segs + self.at_heights(base, "v1_Transaction", [dict(op="whole", x="a", parent=h, key=be(1, 8), timelock=be(5, 8))])

    def at_heights(self, base, t, cmds):
        segs = []
        for n in sorted(self.m["networks"]):
            net = self.m["networks"][n]
            cs = dict(network=net, state=copy.deepcopy(self.c["State"][0]["base"]))
            s = [dict(op="chain", cs=cs)] + ([dict(op="let", x="a", t=t, v=base)] if t else [])
            hs = set()
            for h in self.p.heights(net) + [0, 11]:
                hs |= {h - 2, h - 1, h, h + 1}
            for h in sorted(x % (1 << 64) for x in hs):
                s += [dict(op="height", h=be(h, 8))] + cmds
            segs.append(s)
        return segs

    def C12(self):
        L = self.m["covered"]
        none = dict(wholeTransaction=False, **{l: [] for l in L})

        def q(x, v, path):
            full = dict(none, **{l: [be(i, 8) for i in range(len(v[l]))] for l in L})
            s = [dict(op="partial", x=x, covered=full)]
            if path and path[0] in L:
                s.append(dict(op="partial", x=x, covered=dict(none, **{path[0]: [be(0, 8)]})))
                s.append(dict(op="partial", x=x, covered=dict(full, **{path[0]: []})))
            else:
                s.append(dict(op="partial", x=x, covered=dict(none, wholeTransaction=True)))
            return s
        segs = self.edits("v1_Transaction", q, 9_000_000, pre=self.a_chain())
        # covered fields: every list alone, every index out of range, repeated and reversed
        base = copy.deepcopy(self.c["v1_Transaction"][0]["base"])
        for l in L:
            while len(base[l]) < 3:
                base[l] = base[l] + base[l][:1]
        for l in L:
            s = self.a_chain() + [dict(op="let", x="a", t="v1_Transaction", v=base)]
            n = len(base[l])
            for idx in ([0], [1], [n - 1], [n], [n + 1], [0, n], [n, 0], [0, 0], [1, 0], [0, 1], list(range(n)), list(range(n))[::-1], [0] * 5, [(1 << 64) - 1], [1 << 63], [1 << 32], [(1 << 32) + 1], [256], []):
                for whole in (False, True):
                    s.append(dict(op="partial", x="a", covered=dict(none, wholeTransaction=whole, **{l: [be(i, 8) for i in idx]})))
            for m in L:
                if m != l:
                    s.append(dict(op="partial", x="a", covered=dict(none, **{l: [be(0, 8)], m: [be(0, 8)]})))
            segs.append(s)
        full = dict(none, **{l: [be(i, 8) for i in range(len(base[l]))] for l in L})
        return segs + self.at_heights(base, "v1_Transaction", [dict(op="partial", x="a", covered=full)])

    def C13(self):
        segs = self.edits("v2_Transaction", lambda x, v, p: [dict(op="sig2", kind="input", x=x)], 5_000_000, pre=self.a_chain())
        more = []
        for kind, t in (("contract", "v2_FileContract"), ("renewal", "v2_FileContractRenewal"), ("attestation", "v2_Attestation")):
            cmds = [dict(op="sig2", kind=kind, v=v) for v in self.values(t)]
            more += [self.a_chain() + s for s in self.chunks(cmds, 16)]
        base = self.c["v2_Transaction"][0]["base"]
        q = [dict(op="sig2", kind="input", x="a")] + [dict(op="sig2", kind=k, v=self.c[t][0]["base"]) for k, t in
                                                     (("contract", "v2_FileContract"), ("renewal", "v2_FileContractRenewal"), ("attestation", "v2_Attestation"))]
        return segs + self.some(more, 5_000_000) + self.at_heights(base, "v2_Transaction", q)

    # ------------------------------------------------------------------------------------------------ addresses
    def C14(self):
        cmds = []
        for v in self.values("UnlockConditions"):
            cmds += [dict(op="ucaddr", v=v), dict(op="poladdr", v=dict(k="uc", v=v))]
        cmds += [dict(op="standard", v=v) for v in self.values("PublicKey")]
        # every number of keys, every length of a key
        key = dict(algorithm=hx("ed25519").ljust(32, "0"), key="ab" * 32)
        for n in range(0, 70 if self.quick else 300):
            ks = [dict(key, key=be(i + 1, 32)) for i in range(n)]
            cmds.append(dict(op="ucaddr", v=dict(timelock=be(0, 8), publicKeys=ks, signaturesRequired=be(n, 8))))
        for n in list(range(0, 140)) + [255, 256, 257, 1000]:
            cmds.append(dict(op="ucaddr", v=dict(timelock=be(n, 8), publicKeys=[dict(key, key=("%02x" % (n & 255)) * n)], signaturesRequired=be(1, 8))))
        # the standard form and everything next to it
        std = dict(timelock=be(0, 8), publicKeys=[key], signaturesRequired=be(1, 8))
        for w in (dict(std, timelock=be(1, 8)), dict(std, signaturesRequired=be(0, 8)), dict(std, signaturesRequired=be(2, 8)), dict(std, publicKeys=[key, key]), dict(std, publicKeys=[]),
                  dict(std, publicKeys=[dict(key, algorithm=hx("entropy").ljust(32, "0"))]), dict(std, publicKeys=[dict(key, key="ab" * 31)]), dict(std, publicKeys=[dict(key, key="ab" * 33)]), std):
            cmds += [dict(op="ucaddr", v=w), dict(op="poladdr", v=dict(k="uc", v=w))]
        return self.chunks(cmds, 30)

    def C15(self):
        cmds = []
        for p in self.bases("SpendPolicy"):
            cmds.append(dict(op="poladdr", v=p))
            if p["k"] == "thresh" and len(p["of"]) <= 6:
                n = len(p["of"])
                for mask in range(1, 1 << n):
                    if self.quick and n > 4 and self.r.random() < 0.5:
                        continue
                    of = [dict(k="opaque", v=plans.policy_address(self.g, q)) if mask >> i & 1 else q for i, q in enumerate(p["of"])]
                    cmds.append(dict(op="poladdr", v=dict(p, of=of)))
            elif p["k"] == "thresh":
                cmds.append(dict(op="poladdr", v=self.p.opaqued(p, True)))
            # within others
            cmds.append(dict(op="poladdr", v=dict(k="thresh", n="01", of=[p])))
            cmds.append(dict(op="poladdr", v=dict(k="opaque", v=plans.policy_address(self.g, p))))
        for n in range(256):
            cmds.append(dict(op="poladdr", v=dict(k="thresh", n=be(n, 1), of=[dict(k="above", v=be(n, 8))])))
        for n in range(0, 256, 5 if self.quick else 1):
            cmds.append(dict(op="poladdr", v=dict(k="thresh", n="01", of=[dict(k="above", v=be(i, 8)) for i in range(n)])))
        return self.some(self.chunks(cmds, 24), 9_000_000)

    def C16(self):
        n = 1 << 16
        segs = []
        places = sorted({0, n - 1} | {1 << k for k in range(16)} | {(1 << k) - 1 for k in range(1, 16)} | {n - (1 << k) for k in range(16)})
        if self.quick:
            places = self.r.sample(places, 10)
        for i in places:
            b = bytearray(64)
            b[i % 64] = 1 + i % 255
            segs.append([dict(op="sector", sector=dict(fill="const", v="00", edits=[[i, bytes(b).hex()]]), threads=[1, 3, 8, 16][i % 4], times=2, together=i % 2 == 0)])
        return segs

    # ------------------------------------------------------------------------------------------------ money
    def amounts_edges(self):
        s = set(self.int_edges(16)) | {10 ** k for k in range(0, 39, 3)} | {10 ** k - 1 for k in range(3, 39, 6)}
        return sorted(s)

    def C17(self):
        top = (1 << 128) - 1
        edge = [0, 1, 2, 3, 10, 25, 39, 1000, 255, 256, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, (1 << 65) - 1, 1 << 96, (1 << 127) - 1, 1 << 127, (1 << 127) + 1,
                top - 1, top, top // 3, top // 10, 10 ** 24, 10 ** 24 - 1, 3 * 10 ** 38, (1 << 64) * ((1 << 64) - 1), (1 << 64) * ((1 << 64) - 2), top - (1 << 64)]
        if not self.quick:
            edge = sorted(set(edge) | set(self.amounts_edges()))
        cmds = []
        for a in edge:
            for b in edge:
                A, B = be(a, 16), be(b, 16)
                for f in ("add", "sub", "mul", "div", "rem"):
                    if f != "rem":
                        cmds.append(dict(op="curop", f=f, form="checked", a=A, b=B))
                    if f == "rem" or (a + b) % 3 == 0 or b in (0, 1) or a == top:
                        cmds.append(dict(op="curop", f=f, form="op", a=A, b=B))
                cmds.append(dict(op="curcmp", a=A, b=B))
        for a in self.amounts_edges():
            cmds += [dict(op="tou64", a=be(a, 16)), dict(op="curval", a=be(a, 16)), dict(op="cursum", s=[be(a, 16), be(top - a, 16)]), dict(op="cursum", s=[be(a, 16), be(top - a, 16), be(1, 16)]),
                     dict(op="cursum", s=[be(top - a, 16), be(1, 16), be(a, 16)]), dict(op="cursum", s=[be(a, 16)])]
            if a <= (1 << 64) - 1:
                cmds.append(dict(op="siacoins", n=be(a, 8)))
        for n in (340282366920937, 340282366920938, 340282366920939, 340282366920940):
            cmds.append(dict(op="siacoins", n=be(n, 8)))
        for n in (0, 1, 2, 3, 15, 16, 17, 64, 100):
            cmds.append(dict(op="cursum", s=[be(1 << i % 100, 16) for i in range(n)]))
        return self.chunks(cmds, 120)

    UNITS = plans.Plan.UNITS

    def amounts(self, chunk):
        top = (1 << 128) - 1
        texts = []
        for u, p in self.UNITS:
            unit = 10 ** p
            w, f = divmod(top, unit)
            fs = str(f).rjust(p, "0") if p else ""
            if p:
                texts += ["%d.%s%s" % (w, fs, u), "%d.%s %s" % (w, fs, u), "%d.%s%s" % (w, str(f + 1).rjust(p, "0"), u), "%d.%s%s" % (w, fs + "0", u), "%d.%s%s" % (w, fs[:-1], u)]
            texts += ["%d%s" % (x, u) for x in (w - 1, w, w + 1, w * 10, 1 << 128, 0, 1, 7)]
            for k in list(range(1, p + 3)) if p else [1, 2]:
                texts += ["1." + "0" * (k - 1) + "1" + u, "0." + "9" * k + u, "%d.%s%s" % (w, "9" * k, u)] + (["3." + "0" * k + u] if k in (1, p) else [])
            for num in ("", ".", "1.", ".5", "1..2", "1.2.3", "1.2.", ".1.2", "1..", "..1", "..", "1.5.", "1.5..", "1.5.0", "-1", "+1", "1e3", "1_0", "1,5", "0x1", "01", "00.5", "1. 5", "1 .5", "1 1", "١", "½", "1.٥",
                        "∞", "NaN", "inf", "9" * 39, "9" * 40, "0" * 60 + "1"):
                texts += [num + u, num + " " + u]
            for v in {u.lower(), u.upper(), u.title(), u.swapcase(), u + "s", u + u, u[:1], u[::-1], u + ".", "." + u, u + "C", u + "1"}:
                texts += ["5" + v, "5 " + v]
            for sp in ("  ", "\t", "\n", "\r\n", "\u00a0", "\u2003", "\x0b", "\x0c", "\u200b", "\x00", "_", "-", "\u3000", "\u0085", "\ufeff"):
                texts += ["5" + sp + u, sp + "5" + u, "5" + u + sp]
        for c in range(1, 128):
            ch = chr(c)
            texts += [ch, ch + "5SC", "5" + ch + "5SC", "5" + ch + "SC", "5S" + ch + "C", "5SC" + ch, "5" + ch, "5.5" + ch]
        return self.chunks([dict(op="parse", t="Currency", b=hx(x)) for x in texts], chunk)

    def C18(self):
        segs = self.amounts(60)
        cmds = []
        for a in self.amounts_edges():
            cmds += [dict(op="tojson", t="Currency", v=be(a, 16)), dict(op="display", t="Currency", v=be(a, 16)), dict(op="parse", t="Currency", b=hx(str(a))),
                     dict(op="fromjson", t="Currency", d=self.g.S(str(a)), **self.p.via()), dict(op="fromjson", t="Currency", d=self.g.N(a), **self.p.via())]
        for n in self.NUMBERS:
            cmds += [dict(op="fromjson", t="Currency", d=dict(k="n", v=n), **self.p.via()), dict(op="fromjson", t="Currency", d=self.g.S(n), **self.p.via())]
        return segs + self.chunks(cmds, 60)

    # ------------------------------------------------------------------------------------------------ consensus
    def C19(self):
        segs = self.at_heights(None, None, [dict(op="params")])
        net = copy.deepcopy(self.m["networks"]["mainnet"])
        # rewards: around the height where the schedule ends, for several schedules
        for init, mini in ((300000, 30000), (300000, 299999), (300000, 300000), (10, 3), (5, 0), (0, 0), (1, 1), (2, 5)):
            n2 = copy.deepcopy(net)
            n2["initialCoinbase"], n2["minimumCoinbase"] = be(init * 10 ** 24, 16), be(mini * 10 ** 24, 16)
            s = [dict(op="chain", cs=dict(network=n2, state=copy.deepcopy(self.c["State"][0]["base"])))]
            turn = max(0, init - mini)
            for h in sorted({max(0, turn + d) for d in (-3, -2, -1, 0, 1, 2)} | {init - 2, init - 1, init, init + 1, 0, 1} | {(1 << k) + d for k in (32, 63) for d in (-2, -1, 0)} | {(1 << 64) - 2, (1 << 64) - 1}):
                if h >= 0:
                    s += [dict(op="height", h=be(h, 8)), dict(op="params")]
            segs.append(s)
        # each hardfork height moved alone
        for f in ("hardforkASIC", "hardforkFoundation", "hardforkV2"):
            for k in list(net[f]):
                if k.lower().endswith("height"):
                    for x in (0, 1, 2, 100, (1 << 32), (1 << 63), (1 << 64) - 1):
                        n2 = copy.deepcopy(net)
                        n2[f][k] = be(x, 8)
                        s = [dict(op="chain", cs=dict(network=n2, state=copy.deepcopy(self.c["State"][0]["base"])))]
                        for h in sorted({y for y in (x - 3, x - 2, x - 1, x, x + 1) if 0 <= y < 1 << 64} | {(1 << 64) - 1, 0}):
                            s += [dict(op="height", h=be(h, 8)), dict(op="params")]
                        segs.append(s)
        return segs

    def C20(self):
        segs = []
        secs = [1, 2, 7, 30, 59, 60, 61, 89, 90, 119, 121, 599, 600, 601, 900, 1799, 1801, 3600, 86400, 86401, 1314000, 1314001, 2627999, 2628000]
        ns = [s * 10 ** 9 for s in secs] + [1_500_000_000, 600_000_000_001, 599_999_999_999, 60_500_000_000, 1_000_000_001, 333_333_333_333]
        for i, iv in enumerate(ns):
            for f in ((0, 1, 30, 298000) if not self.quick else ((0, 1, 30, 298000)[i % 4], 5000)):
                n2 = copy.deepcopy(self.m["networks"]["mainnet"])
                n2["blockInterval"] = be(iv, 8)
                n2["hardforkFoundation"]["height"] = be(f, 8)
                s = [dict(op="chain", cs=dict(network=n2, state=copy.deepcopy(self.c["State"][0]["base"])))]
                month = (365 * 86400 * 10 ** 9 // iv) // 12
                m2 = 2628000 * 10 ** 9 // iv
                hs = {f - 2, f - 1, f, f + 1}
                for k in (1, 2, 3, 11, 12, 13, 24, 100):
                    for m in {month, m2}:
                        hs |= {f + k * m + d for d in (-2, -1, 0)}
                year = 365 * 86400 * 10 ** 9 // iv
                hs |= {f + year + d for d in (-2, -1, 0, 1)}
                for h in sorted(x for x in hs if x >= -1):
                    s += [dict(op="height", h=be(h, 8)), dict(op="subsidy")]
                segs.append(s)
        return segs

    def C21(self):
        top = (1 << 128) - 1
        cs = dict(network=self.m["networks"]["mainnet"], state=copy.deepcopy(self.c["State"][0]["base"]))
        h = int(cs["network"]["hardforkTax"]["height"], 16)
        fc1, fc2 = self.c["v1_FileContract"][0]["base"], self.c["v2_FileContract"][0]["base"]
        fc1 = dict(fc1, validProofOutputs=[], missedProofOutputs=[])
        pays = set(self.amounts_edges())
        # around whole numbers of siafunds
        for k in (1, 2, 3, 99, 10 ** 6, 10 ** 15, 10 ** 24, 10 ** 30):
            for d in (-1, 0, 1):
                pays |= {(10000 * k * 1000 + d) // 39 + e for e in (-1, 0, 1)} | {10000 * 1000 * k + d}
        pays |= {top // 39 + d for d in (-1, 0, 1)} | {top * 1000 // 39 % (top + 1)}
        segs = []
        ps = sorted(x for x in pays if 0 <= x <= top)
        for part in self.chunks(ps, 40):
            s = [dict(op="chain", cs=cs)]
            for ht in (h - 2, h - 1, h):
                s.append(dict(op="height", h=be(ht, 8)))
                s += [dict(op="tax1", v=dict(fc1, payout=be(p, 16))) for p in part]
            segs.append(s)
        cmds = []
        pairs = set()
        for k in (1, 2, 3, 40, 1000, 10 ** 10, 10 ** 20, 10 ** 27):
            s = 250000 * k
            for d in (-26, -25, -24, -1, 0, 1, 24, 25):
                for a in (0, 1, 7, 12, 24, 25, 26, 249999, s // 2, s // 3):
                    if s + d - a >= 0:
                        pairs |= {(a, s + d - a), (s + d - a, a)}
        for a in self.amounts_edges():
            pairs |= {(a, top - a), (top - a, a), (a, 0), (0, a), (a, 1)}
        for a, b in sorted(pairs):
            if a + b <= top:
                v = dict(fc2, renterOutput=dict(fc2["renterOutput"], value=be(a, 16)), hostOutput=dict(fc2["hostOutput"], value=be(b, 16)))
                cmds.append(dict(op="tax2", v=v))
        return segs + self.some([[dict(op="chain", cs=cs)] + c for c in self.chunks(cmds, 50)], 6_000_000)

    # ------------------------------------------------------------------------------------------------ keys
    def C22(self):
        words = self.m["words"]
        r = self.r
        segs = []
        # phrases that between them have every word of the list
        import hashlib
        order = list(range(2048))
        r.shuffle(order)
        for k in range(0, 2048, 11):
            idx = (order[k:k + 11] + order[:11])[:11]
            n = 0
            for i in idx:
                n = n << 11 | i
            n = (n << 7) | r.randrange(128)
            seed = n.to_bytes(16, "big")
            p = " ".join(self.p.words_of(seed))
            segs.append([dict(op="fromphrase", b=hx(p)), dict(op="seed", s="a", v=seed.hex()), dict(op="phrase", s="a")])
        for v in ("00" * 16, "ff" * 16, "80" + "00" * 15, "00" * 15 + "01", "7f" * 16, "80" * 16, "00" * 8 + "ff" * 8):
            p = self.p.words_of(bytes.fromhex(v))
            s = [dict(op="seed", s="a", v=v), dict(op="phrase", s="a"), dict(op="seedbytes", s="a"), dict(op="fromphrase", b=hx(" ".join(p)))]
            for i in self.int_edges(8)[::3 if self.quick else 1]:
                s.append(dict(op="derivekey", s="a", i=be(i, 8)))
            # the last word: all others (one in sixteen is as good)
            for w in r.sample(words, 40 if self.quick else 2048):
                s.append(dict(op="fromphrase", b=hx(" ".join(p[:11] + [w]))))
            for j in range(12):
                for w in (words[(words.index(p[j]) + 1) % 2048], words[words.index(p[j]) - 1], p[j][:-1], p[j] + "s", p[j].upper(), p[j].title(), "", "\u00e9", p[j][:3], p[j][:4]):
                    s.append(dict(op="fromphrase", b=hx(" ".join(p[:j] + [w] + p[j + 1:]))))
                s.append(dict(op="fromphrase", b=hx(" ".join(p[:j] + p[j + 1:]))))
                s.append(dict(op="fromphrase", b=hx(" ".join(p[:j] + [p[j]] + p[j:]))))
                if j:
                    q = list(p)
                    q[j - 1], q[j] = q[j], q[j - 1]
                    s.append(dict(op="fromphrase", b=hx(" ".join(q))))
            q = " ".join(p)
            for t in (" " + q, q + " ", q.replace(" ", "  "), q.replace(" ", "\t"), q.replace(" ", "\n"), "\n" + q, q + "\n", q.upper(), q.title(), q.replace(" ", ","), q.replace(" ", "\u3000"),
                      q.replace(" ", "\u00a0"), "", " ", "abandon", q.replace(" ", "", 1), q.replace(" ", "  ", 1), q.replace(" ", " \t", 1), "\ufeff" + q, q + "\0", q + "\u0301"):
                s.append(dict(op="fromphrase", b=hx(t)))
            segs += [s]
        # valid phrases of every other length
        s = []
        for n in (16, 20, 24, 28, 32, 4, 8, 12, 36, 40):
            for _ in range(6):
                ent = bytes(r.randrange(256) for _ in range(n))
                bits = 8 * n
                x = (int.from_bytes(ent, "big") << (bits // 32)) | (hashlib.sha256(ent).digest()[0] >> (8 - bits // 32) if bits // 32 <= 8 else int.from_bytes(hashlib.sha256(ent).digest()[:2], "big") >> (16 - bits // 32))
                total = bits + bits // 32
                q = " ".join(words[(x >> (11 * (total // 11 - 1 - i))) & 2047] for i in range(total // 11))
                s.append(dict(op="fromphrase", b=hx(q)))
        for n in range(0, 30):
            s.append(dict(op="fromphrase", b=hx(" ".join(["abandon"] * n))))
            s.append(dict(op="fromphrase", b=hx(" ".join(["abandon"] * n + ["about"]))))
        segs.append(s)
        return segs

    def C23(self):
        import edgen
        r = self.r
        sk, h = bytes(range(1, 33)), bytes(range(64, 96))
        pk, sig = edgen.public(sk), edgen.sign(sk, h)
        ok = dict(op="verify", pk=pk.hex(), h=h.hex(), sig=sig.hex())

        def flip(b, i):
            x = bytearray(b)
            x[i // 8] ^= 1 << (i % 8)
            return bytes(x).hex()
        step = 3 if self.quick else 1
        o = r.randrange(step)
        cmds = [dict(ok, sig=flip(sig, i)) for i in range(o, 512, step)] + [dict(ok, h=flip(h, i)) for i in range(o, 256, step)] + [dict(ok, pk=flip(pk, i)) for i in range(o, 256, step)]
        S = int.from_bytes(sig[32:], "little")
        L = plans.Plan.L
        for k in range(1, 16):
            x = S + k * L
            if x < 1 << 256:
                cmds.append(dict(ok, sig=(sig[:32] + x.to_bytes(32, "little")).hex()))
        for x in (0, 1, L - 1, L, L + 1, 2 * L, (1 << 252), (1 << 252) - 1, (1 << 253) - 1, (1 << 253), (1 << 255), (1 << 256) - 1):
            cmds.append(dict(ok, sig=(sig[:32] + x.to_bytes(32, "little")).hex()))
        segs = self.chunks(cmds, 40)
        for v in self.values("Hash256"):
            segs.append([dict(op="key", key="k", how="seed", v=v), dict(op="sign", key="k", h=h.hex()), dict(op="sign", key="k", h=v), dict(op="key", key="j", how="hash", v=v), dict(op="sign", key="j", h="00" * 32)])
        return segs

    # ------------------------------------------------------------------------------------------------ states
    def C25(self):
        return self.some(self.wire(2, ["ElementAccumulator", "State"]) + self.json_values(["ElementAccumulator", "State"], 9_000_000), 9_000_000)

    def C26(self):
        segs = []
        # every base against every one of its edits, and every edit against its own base's content and a copy of itself
        for t in sorted(set(self.p.json_types) | {"Specifier"}):
            cmds = []
            vals = list(self.values(t))
            for c in self.c[t]:
                for path, x in c["edits"]:
                    w = set_at(c["base"], path, x)
                    if len(json.dumps(w)) > 12000:
                        continue
                    a, b = (c["base"], w) if self.r.random() < 0.5 else (w, c["base"])
                    cmds.append(dict(op="same", t=t, a=a, b=b))
            for v in vals:
                if len(json.dumps(v)) <= 12000 and self.r.random() < (0.3 if self.quick else 1):
                    cmds.append(dict(op="same", t=t, a=v, b=v))
            for a, b in zip(vals, vals[1:]):
                if len(json.dumps([a, b])) <= 20000:
                    cmds.append(dict(op="same", t=t, a=a, b=b))
            segs += self.chunks(cmds, 12)
        for t, n in plans.CONVERTS.items():
            vals = ["00" * n, "ff" * n] + ["00" * i + "01" + "00" * (n - 1 - i) for i in range(n)] + ["ff" * i + "7f" + "ff" * (n - 1 - i) for i in range(n)] + [self.g.nbytes(n).hex() for _ in range(6)]
            segs.append([dict(op="convert", t=t, b=v) for v in vals])
        for v in self.bases("SpendPolicy"):
            segs.append([dict(op="make", v=v), dict(op="make", v=dict(k="thresh", n="01", of=[v]))])
        for n in range(256):
            segs.append([dict(op="make", v=dict(k="thresh", n=be(n, 1), of=[dict(k="above", v=be(n, 8)), dict(k="thresh", n=be(255 - n, 1), of=[])]))])
        # keys that differ in one bit
        s, base = [], self.g.nbytes(64).hex()
        for i in range(64):
            v = base[:2 * i] + be(int(base[2 * i:2 * i + 2], 16) ^ (1 << (i % 8)), 1) + base[2 * i + 2:]
            s += [dict(op="key", key="a", how="raw", v=base), dict(op="key", key="b", how="raw", v=v), dict(op="samekey", a="a", b="b"), dict(op="samekey", a="b", b="a"), dict(op="samekey", a="b", b="b")]
        segs.append(s)
        return self.some(segs, 22_000_000)


# -------------------------------------------------------------------------------------------------- bounded models
def model_runs(pid, tier, seed):
    """the bounded models behind a property: (module, environment, what TLC checks on it), in the quick or the thorough tier"""
    quick = tier == "quick"
    n = lib.CPUS

    def shards(module, every, claim, **env):
        # all cases in "every" runs; one run in n of them in the quick tier when there are more
        return [(module, dict(env, START=str(k + 1 + n * (seed % every)), STEP=str(n * every)), claim) for k in range(n)]
    streams = "what is read is what was written, first in first out, byte for byte, for every order of writes and reads"
    secrets = "a secret keeps its value until it is itself replaced or dropped"
    keys = "phrases lead back to their seeds, keys are determined by seed and index and differ, a signature is valid for its key and hash only"
    chains = "rewards, maturity, nonce factor, replay prefix, subsidies paid so far and taxes along a chain, for every order of the hardforks"
    hashes = "what is hashed changes exactly with what it commits to; contents of different purposes, eras and indices differ"
    if pid in ("C01", "C02"):
        return ([("MC_Streams", dict(DEPTH="2", EVERY="1", FIRST="0"), streams), ("MC_Streams", dict(DEPTH="3", EVERY="3", FIRST=str(seed % 3)), streams)] if quick else
                [("MC_Streams", dict(DEPTH="3", EVERY="1", FIRST="0"), streams), ("MC_Streams", dict(DEPTH="4", EVERY="3", FIRST=str(seed % 3)), streams)])
    if pid == "C24":
        return [("MC_Secrets", dict(DEPTH="4", HOWS="few" if quick else "all"), secrets)] + ([] if quick else [("MC_Secrets", dict(DEPTH="5", HOWS="few"), secrets)])
    if pid in ("C22", "C23"):
        return [("MC_Keys", dict(DEPTH="3" if quick else "4"), keys)]
    if pid in ("C19", "C20"):
        return [("MC_Chain", dict(TOP="2", BLOCKS="6") if quick else dict(TOP="4", BLOCKS="14"), chains)]
    if pid in ("C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15"):
        return (shards("MC_Hashes", 1, hashes, PID=pid)
                + ([("MC_Merkle", dict(LEAVES="8"), "forests of perfect trees have the roots of the definition")] if pid == "C14" else []))
    if pid == "C16":
        return [("MC_Merkle", dict(LEAVES="16" if quick else "32"), "tasks that share an array, in every interleaving, arrive at the root of the definition; every segment matters")]
    if pid == "C17":
        return shards("MC_Money", 4 if quick else 1, "laws of exact arithmetic over pairs of edges", PART="pairs")
    if pid == "C18":
        return shards("MC_Money", 1, "every amount is denoted by its text in every unit, and by no text with more or fewer digits", PART="text")
    if pid == "C21":
        return (shards("MC_Money", 4 if quick else 1, "taxes are whole shares, monotone, and within one share of the rate", PART="tax")
                + [("MC_Chain", dict(TOP="2", BLOCKS="6") if quick else dict(TOP="4", BLOCKS="14"), chains)])
    return []


def run_models(pid, tier, seed):
    """checks the bounded models of a property; (behaviours to replay in the code, what was explored)"""
    d = lib.work_dir()
    runs = model_runs(pid, tier, seed)

    def one(k):
        module, env, claim = runs[k]
        out = os.path.join(d, "mc-%d.json" % k)
        r = lib.tlc(module, "MC.cfg", env=dict(env, OUT=out), heap="3g" if tier == "quick" else "6g", timeout=700 if tier == "quick" else 3000)
        if not r.ok:
            raise ToolError("%s %s: the specification does not have its properties:\n%s" % (module, env, r.out[-3000:]))
        got = []
        if os.path.exists(out):
            with open(out) as f:
                got = json.load(f)
            os.remove(out)
        return module, env, claim, r, got
    with ThreadPoolExecutor(lib.CPUS) as ex:
        rs = list(ex.map(one, range(len(runs))))
    mc, behaviours = {}, []
    for module, env, claim, r, got in rs:
        m = mc.setdefault((module, claim), dict(model=module, claims=claim, bounds=[], states=0, transitions=0, behaviours=0))
        m["bounds"].append(" ".join("%s=%s" % x for x in sorted(env.items())))
        m["states"] += r.distinct
        m["transitions"] += r.generated
        m["behaviours"] += len(got)
        behaviours += got
    most = dict(C01=500, C02=500, C24=1800, C22=400, C23=400).get(pid, 400) * (1 if tier == "quick" else 10)
    if len(behaviours) > most:
        behaviours = random.Random(seed * 31 + int(pid[1:])).sample(behaviours, most)
    for m in mc.values():
        m["replayed_of_all"] = len(behaviours)
    return behaviours, list(mc.values())


def run(pid, tier, seed):
    """(segments of commands generated from the models, what was explored)"""
    behaviours, mc = run_models(pid, tier, seed)
    if pid in FORMS:
        mc.append(check_forms(pid, tier, seed))
    s = Sys(seed, tier, pid)
    segs = getattr(s, pid)() if hasattr(s, pid) else []
    return behaviours + segs, mc
