"""What each check makes the code do.  A plan is a list of segments; a segment is a list of commands that starts from
the initial state.  All segments of a plan run one after another in one process.  Nothing here decides anything."""
import copy, itertools, json, os, random
import gen
from gen import Gen, be, rev, addr_text, b2b

C1 = ("u8 bool u16 u32 u64 usize i16 i32 i64 string bytes arr5 arr32 arr64 opt_u64 vec_u64 vec_opt_u8 vec_string opt_vec_bool vec_vec_u16 vec_hash "
      "vec_currency opt_string derived_tuple derived_named Hash256 SiacoinOutputID AttestationID SiafundOutputID BlockID TransactionID FileContractID Address Leaf Currency Work "
      "Specifier SiacoinOutput SiafundOutput UnlockKey UnlockConditions Block v1_SiacoinInput v1_SiafundInput v1_FileContract "
      "v1_FileContractRevision v1_StorageProof v1_CoveredFields v1_TransactionSignature v1_Transaction").split()
NOT2 = ("Block", "Network", "ChainState")
HASHES = "Hash256 SiacoinOutputID AttestationID SiafundOutputID BlockID TransactionID FileContractID".split()
TEXTS = HASHES + ["Address", "PublicKey", "Signature", "Leaf", "UnlockKey"]
BIG = ("Block", "v1_Transaction", "v2_Transaction", "State", "SpendPolicy", "SatisfiedPolicy", "UnlockConditions", "ElementAccumulator", "v2_FileContractResolution",
       "v1_CoveredFields", "v2_FileContractRenewal", "v1_TransactionSignature", "v2_Attestation")
U64 = (1 << 64) - 1
U128 = (1 << 128) - 1
BASE_INTS = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 20, 22, 24, 25, 30, 32, 38, 39, 53, 64, 65, 72, 76, 128, 144, 256, 288, 365, 512, 1000, 1009, 1024, 2015,
             2016, 2023, 2024, 10000, 21000, 30000, 100000, 102000, 120000, 135000, 139000, 179000, 298000, 300000, 1000000, 1025000, 2000000, 4194304, 1433600000,
             1673600000, 1724284800, U64}


def hx(s):
    return (s if isinstance(s, bytes) else s.encode()).hex()


CONVERTS = dict({t: 32 for t in HASHES}, Address=32, PublicKey=32, Signature=64, Leaf=64, Specifier=16, Work=32, Currency=16, PrivateKey=64, Seed=16)


class Plan:
    def __init__(self, seed, model, scale):
        ints, words = gen.dictionary()
        ints = ints + [i for i in ints if i not in BASE_INTS] * 8
        self.r = random.Random(seed)
        self.g = Gen(self.r, model, ints, words)
        self.m = model
        self.scale = scale       # 1 for quick
        self.c2 = [t for t in sorted(model["types"]) if not t.startswith("v1_") and t not in NOT2 and not t.startswith("Hardfork")]
        self.json_types = sorted(model["json"])

    def n(self, k):
        return max(1, int(k * self.scale))

    def knobs(self, json=False):
        g, r = self.g, self.r
        g.json = json
        g.fill = r.choice([0.15, 0.5, 0.5, 0.8, 1.0])
        g.maxlist = r.choice([1, 2, 2, 3, 3, 4])
        g.maxlong = r.choice([17, 17, 17, 40])
        g.depth = r.choice([1, 2, 2, 3])

    def value(self, t, json=False, limit=6000):
        """a value whose text is of bounded size"""
        self.knobs(json)
        v = None
        for _ in range(20):
            v = self.g.value(t)
            if len(json_text(v)) < limit:
                break
            self.g.maxlist = max(1, self.g.maxlist - 1)
            self.g.maxlong = 4
            self.g.fill = min(self.g.fill, 0.5)
        return v

    def weight(self, t):
        return 3 if t in ("v1_Transaction", "v2_Transaction", "State") else 2 if t in BIG else 1

    # ------------------------------------------------------------------------------------------- wire
    def long_values(self, ver, t):
        """long lists, strings and numbers of elements, one at a time"""
        g, r = self.g, self.r
        d = g.T(t)
        k = d["k"]
        if k == "bytes":
            return [g.nbytes(g.size(r.choice([300, 5000, 20000]))).hex()]
        if k == "str":
            n = g.size(4000)
            return [("".join(r.choice("abc \u00e9\u20ac") for _ in range(n))).encode().hex()]
        if k == "vec":
            g.maxlist, g.fill = 1, 0.3
            e = [g.value(d["e"]) for _ in range(5)]
            n = g.size(max(5, min(1100, 12000 // (1 + len(json_text(e[0]))))))
            return [[copy.deepcopy(r.choice(e)) for _ in range(n)]]
        return []

    def with_long(self, t, v):
        """v with one of its lists or strings (possibly nested) replaced by a long one"""
        d = self.g.T(t)
        paths = [p for p in leaf_lists(self.g, d, v)]
        if not paths:
            return v
        path, lt = self.r.choice(paths)
        new = self.long_values(2, lt)
        return set_at(v, path, new[0]) if new else v

    def wire(self, ver, types, rounds):
        segs = []
        for t in types:
            for _ in range(self.n(rounds) * self.weight(t)):
                v = self.value(t)
                if self.r.random() < 0.2:
                    v = self.with_long(t, v)
                self.g.maxlist = 2
                w = self.g.mutate(t, v)
                u = self.value(t, limit=2000)
                e = "".join(h for _, h in self.g.enc(ver, t, v))
                a = dict(ver=ver, t=t)
                s = [dict(a, op="enc", v=v), dict(a, op="dec", b=e), dict(a, op="enc", v=w), dict(a, op="enc", v=u), dict(a, op="put", v=w),
                     dict(a, op="put", v=u)]
                other = self.r.choice(types)
                s += [dict(op="put", ver=ver, t=other, v=self.value(other, limit=1000)), dict(a, op="get"), dict(a, op="put", v=v), dict(a, op="get"),
                      dict(op="get", ver=ver, t=other), dict(a, op="get"), dict(a, op="dec", b=e + self.g.nbytes(self.r.randint(1, 9)).hex())]
                segs.append(s)
        self.r.shuffle(segs)
        return segs

    def C01(self):
        return self.wire(2, self.c2, 2)

    def C02(self):
        return self.wire(1, C1, 3)

    def C03(self):
        g, r = self.g, self.r
        segs = []
        for ver, types in ((1, C1), (2, self.c2)):
            for t in types:
                for _ in range(self.n(1) * self.weight(t)):
                    v = self.value(t, limit=1500)
                    tk = g.enc(ver, t, v)
                    e = "".join(h for _, h in tk)
                    a = dict(op="dec", ver=ver, t=t)
                    n = len(e) // 2
                    cuts = range(n) if n <= 12 else sorted({0, 1, n - 1, n // 2} | {r.randrange(n) for _ in range(4)})
                    s = [dict(a, b=e[:2 * c]) for c in cuts]
                    for _ in range(10):
                        s.append(dict(a, b=g.hostile(tk)))
                    for _ in range(2):
                        s.append(dict(a, b=g.nbytes(r.choice([0, 1, 8, 9, 16, 40, 100])).hex()))
                    r.shuffle(s)
                    s.append(dict(a, b=e))
                    segs.append(s)
        # deep and wide policies: deeper than any stack would bear if unbounded
        for _ in range(self.n(6)):
            s = []
            for d in r.sample([1, 2, 30, 127, 128, 200, 255, 256, 500, 1000, 1020, 1021, 1022, 1023, 1024, 1025, 3000, 20000, 60000], 5):
                leaf = "01" + rev(be(5, 8))
                s.append(dict(op="redec", ver=2, t="SpendPolicy", b="01" + "050101" * d + leaf))
                s.append(dict(op="redec", ver=2, t="SpendPolicy", b="01" + "050101" * d + r.choice(["", "0500", "08", "050102" + leaf, "050000"])))
            for w in r.sample([1, 100, 255, 254, 200], 2):
                leaf = "04" + g.nbytes(32).hex()
                s.append(dict(op="redec", ver=2, t="SpendPolicy", b="01" + "05%02x%02x" % (r.randrange(256), w) + leaf * w))
                s.append(dict(op="redec", ver=2, t="SpendPolicy", b="01" + "0503%02x" % w + ("05aa%02x" % min(255, 1024 // w + r.choice([0, 0, -1, 1])) + "0600" * 0 + leaf * (1024 // w)) * w))
            # binary trees of policies around the limit
            n = r.choice([9, 10])
            s.append(dict(op="redec", ver=2, t="SpendPolicy", b="01" + tree_of(n, "0502", "03" + "11" * 32)))
            segs.append(s)
        # a long input that ends early
        for _ in range(self.n(4)):
            t, ver = r.choice([("vec_u64", 2), ("vec_hash", 2), ("vec_opt_u8", 2), ("bytes", 1), ("string", 2), ("vec_vec_u16", 1), ("vec_string", 2), ("vec_currency", 1),
                               ("opt_vec_bool", 2)])
            n = r.choice([2000, 5000])
            body = "00" * n if r.random() < 0.5 else "01" * n
            s = []
            for ln in (n, n - 1, n + 1, n // 8, n // 32, 1 << 20, 1 << 35, (1 << 62) + 3, U64):
                p = "01" if t.startswith("opt") else ""
                s.append(dict(op="dec", ver=ver, t=t, b=p + rev(be(ln, 8)) + body))
            segs.append(s)
        r.shuffle(segs)
        return segs

    def C04(self):
        g, r = self.g, self.r
        segs = []
        for ver, types in ((1, C1), (2, self.c2)):
            for t in types:
                for _ in range(self.n(1)):
                    for _ in range(30):
                        v = self.value(t, limit=3000)
                        e = "".join(h for _, h in g.enc(ver, t, v))
                        if t in ("Block", "State", "v1_Transaction", "v2_Transaction") or len(e) < 1200:
                            break
                    n = len(e) // 2
                    a = dict(ver=ver, t=t)
                    k = 14 if t in BIG else 8
                    # every boundary between two parts of the encoding is a place to fail
                    edges, at = [], 0
                    for _, h in g.enc(ver, t, v):
                        edges.append(at)
                        at += len(h) // 2
                    cand = sorted({0, n - 1, n} | set(edges) | {x + 1 for x in edges})
                    cuts = [c for c in cand if 0 <= c <= n]
                    if len(cuts) > k:
                        cuts = sorted(r.sample(cuts, k - 3) + [0, max(0, n - 1), n])
                    s = [dict(a, op="encf", v=v, limit=c, step=r.choice([0, 0, 1, 3, 7]), mode=r.choice(["zero", "full", "eof", "err"])) for c in cuts]
                    s.append(dict(a, op="encf", v=v, step=r.choice([1, 2, 5, 9])))
                    s.append(dict(a, op="enc", v=v))
                    s += [dict(a, op="decf", b=e, fail=c, step=r.choice([0, 0, 1, 3, 7]), mode=r.choice(["eof", "err", "wouldblock", "badeof"])) for c in cuts]
                    s.append(dict(a, op="decf", b=e, step=r.choice([1, 2, 5, 9])))
                    s.append(dict(a, op="decf", b=e + "00" * 7, step=r.choice([1, 2, 5, 9])))
                    s.append(dict(a, op="dec", b=e))
                    segs.append(s)
        r.shuffle(segs)
        return segs

    # ------------------------------------------------------------------------------------------- JSON and text
    VIA = ["str", "slice", "reader", "value"]

    def via(self):
        return dict(via=self.r.choice(self.VIA), esc=self.r.random() < 0.3)

    def C05(self):
        segs = []
        for t in self.json_types:
            for _ in range(self.n(3) * self.weight(t)):
                v = self.value(t, json=True, limit=5000)
                if self.r.random() < 0.1:
                    v = self.with_long(t, v)
                w = self.g.mutate(t, v)
                d, e = self.g.doc(t, v), self.g.doc(t, w)
                s = [dict(op="tojson", t=t, v=v), dict(op="fromjson", t=t, d=d, **self.via()), dict(op="tojson", t=t, v=w),
                     dict(op="fromjson", t=t, d=e, **self.via()), dict(op="fromjson", t=t, d=self.shuffled(d), **self.via()), dict(op="tojson", t=t, v=v)]
                segs.append(s)
        # values with no JSON form at all
        for _ in range(self.n(3)):
            s = []
            for x in (-62167219201, gen.TIME_MIN, -62167219200):
                b = self.value("Block", limit=1000, json=True)
                b["timestamp"] = be(x, 8)
                s.append(dict(op="tojson", t="Block", v=b))
            for alg in (b"\xff" * 16, b"a\xc0", b"\xe2\x82"):
                s.append(dict(op="tojson", t="UnlockKey", v=dict(algorithm=alg.ljust(16, b"\0").hex(), key="aabb")))
            segs.append(s)
        self.r.shuffle(segs)
        return segs

    def shuffled(self, d):
        if d["k"] == "a":
            return dict(d, e=[self.shuffled(x) for x in d["e"]])
        if d["k"] == "o":
            m = [[k, self.shuffled(x)] for k, x in d["m"]]
            self.r.shuffle(m)
            return dict(d, m=m)
        return d

    def C06(self):
        g, r = self.g, self.r
        segs = []
        for t in self.json_types:
            for _ in range(self.n(2) * self.weight(t)):
                v = self.value(t, json=True, limit=2500)
                d = g.doc(t, v)
                s = []
                for _ in range(8):
                    b = g.bad_doc(d)
                    if r.random() < 0.15:
                        b = g.bad_doc(b)
                    if utf8_doc(b):
                        s.append(dict(op="fromjson", t=t, d=b, **self.via()))
                s.append(dict(op="fromjson", t=t, d=d, **self.via()))
                text = doc_json(d)
                for _ in range(3):
                    b, bad = self.bad_text(text)
                    s.append(dict(op="jsontext", t=t, b=hx(b), via=r.choice(["str", "slice", "reader"]), **(dict(bad=True) if bad else {})))
                segs.append(s)
        for t in TEXTS:
            for _ in range(self.n(2)):
                v = self.value(t, json=True)
                text = self.text_of(t, v)
                s = []
                for _ in range(14):
                    b = g.bad_string(text)
                    if utf8(b):
                        s.append(dict(op="parse", t=t, b=hx(b)))
                s.append(dict(op="parse", t=t, b=text))
                segs.append(s)
        segs += self.amount_texts(self.n(6), 20)
        # documents nested deeper than any value
        s = []
        for n in (50, 120, 126, 127, 128, 129, 200, 1000, 20000):
            s.append(dict(op="jsontext", t="SpendPolicy", b=hx('{"type":"thresh","policy":{"n":1,"of":[' * n), bad=True))
            s.append(dict(op="jsontext", t="v2_Transaction", b=hx("[" * n), bad=True))
            s.append(dict(op="jsontext", t="SpendPolicy", b=hx('{"type":"thresh","policy":{"n":1,"of":[' * n + '{"type":"above","policy":1}' + "]}}" * n)))
        segs.append(s)
        r.shuffle(segs)
        return segs

    def bad_text(self, text):
        r = self.r
        k = r.randrange(6)
        if k == 0:
            return text[:-1], len(text) > 1 and text[-1] in "]}\""
        if k == 1:
            return text + r.choice(["]", "}", "x", "1 1", "\0", "\"", ","]), True
        if k == 2:
            i = r.randrange(len(text))
            return text[:i] + r.choice(["\0", "\x01", "\n", ",", "{", "]", "\\u12", "NaN", "nul", "'", "\ufeff", "é"]) + text[i:], False
        if k == 3:
            i = r.randrange(len(text))
            return text[:i] + text[i + 1:], False
        if k == 4:
            return r.choice(["", " ", "nul", "{", "[", "\"", "+1", "01", "1.", ".5", "-", "truee", "[1,]", "{\"a\"}", "{,}", "\ufeff" + text, "/**/" + text]), True
        return text[:r.randrange(len(text))], False

    def text_of(self, t, v):
        if t == "Address":
            return hx(addr_text(v))
        if t == "PublicKey":
            return hx("ed25519:" + v)
        if t == "UnlockKey":
            return (bytes.fromhex(v["algorithm"]).rstrip(b"\0") + b":" + v["key"].encode()).hex()
        return hx(v)

    def C07(self):
        g, r = self.g, self.r
        texts = ["", "a", "\0", "a\0", "ed25519", "siacoin output", "sixteen bytes ok", "0" * 15, "0" * 16, "0" * 17, "0" * 40, "é" * 8, "é" * 9, "€" * 5, "€" * 6, " ", "\n"]
        texts += ["".join(r.choice("abc :-\0é€") for _ in range(r.randrange(12))) for _ in range(20)]
        segs = [[dict(op="literals")], [dict(op="specifier", b=hx(x)) for x in texts]]
        for t in TEXTS + ["ChainIndex", "Specifier", "Work", "Currency"]:
            for _ in range(self.n(10)):
                v = self.value(t, json=t != "Specifier")
                w = g.mutate(t, v)
                s = [dict(op="display", t=t, v=v)]
                if t in TEXTS:
                    a, b = self.text_of(t, v), self.text_of(t, w)
                    s += [dict(op="parse", t=t, b=a), dict(op="display", t=t, v=w), dict(op="parse", t=t, b=b), dict(op="parse", t=t, b=a)]
                    u = bytes.fromhex(a).decode()
                    s += [dict(op="parse", t=t, b=hx(x)) for x in {u.upper(), u.title(), u.swapcase()} if utf8(x)]
                    if t in HASHES:
                        for p in ("h:", "scoid:", ":", "a:b:", "x" * r.randrange(80) + ":"):
                            s.append(dict(op="parse", t=t, b=hx(p + u)))
                    for _ in range(6):
                        b = g.bad_string(a)
                        if utf8(b):
                            s.append(dict(op="parse", t=t, b=hx(b)))
                    if t in ("Address", "Signature", "Leaf") or t in HASHES:
                        i = r.randrange(len(u))
                        c = r.choice([x for x in "0123456789abcdef" if x != u[i]])
                        s.append(dict(op="parse", t=t, b=hx(u[:i] + c + u[i + 1:])))
                else:
                    s.append(dict(op="display", t=t, v=w))
                segs.append(s)
        r.shuffle(segs)
        return segs

    # ------------------------------------------------------------------------------------------- ids and signature hashes
    def path_to(self, t, v, deep=True):
        """a random path into v and the type there"""
        r = self.r
        path = []
        d = self.g.T(t)
        while True:
            k = d["k"]
            fs = None
            if k == "struct":
                fs = d["f"]
            elif k == "txn2":
                fs = self.m["txn2"]
            elif k == "sfo":
                fs = [["value", dict(k="u64"), "req"], ["address", dict(k="addr"), "req"]]
            elif k == "resolution" and v["type"] != "expiration" and r.random() < 0.6:
                res = dict(renewal="v2_FileContractRenewal", storageProof="v2_StorageProof")
                path.append("resolution")
                v = v["resolution"]
                d = self.g.T(res[path_type(path, v, res)])
                continue
            if fs is not None and (not path or r.random() < 0.92):
                f = r.choice(fs)
                path.append(f[0])
                v = v[f[0]]
                d = self.g.T(f[1])
                continue
            if k == "vec" and v and r.random() < 0.8:
                i = r.randrange(len(v))
                path.append(i + 1)
                v = v[i]
                d = self.g.T(d["e"])
                continue
            return path, d, v

    def edits(self, t, v, n):
        """successive in-place edits of the value: commands, and the final value"""
        out = []
        for _ in range(n):
            self.g.maxlist, self.g.depth, self.g.fill = 2, 1, 0.5
            path, d, x = self.path_to(t, v)
            y = self.g.mutate(d, x)
            v = set_at(v, path, y)
            out.append((path, y))
        return out, v

    def index(self, n=4):
        return be(self.r.choice([0, 0, 1, 1, 2, 3, n, 255, 256, 65536, 1 << 32, (1 << 32) - 1, (1 << 63), U64, self.g.uint(8)]), 8)

    def slots(self, t, rounds, edits, queries, limit=3500, chain=False):
        """transactions built and edited in place, observed after every edit"""
        r = self.r
        segs = []
        for _ in range(self.n(rounds)):
            s = []
            if chain:
                cs = self.chain()
                s += self.chain_cmds(cs)
            v = self.value(t, limit=limit)
            if r.random() < 0.15:
                v = self.with_long(t, v)
            s.append(dict(op="let", x="a", t=t, v=v))
            s += queries("a", v)
            es, w = self.edits(t, v, edits)
            for path, y in es:
                s.append(dict(op="set", x="a", path=path, v=y))
                if chain and r.random() < 0.5:
                    s.append(dict(op="height", h=self.a_height(cs)))
                v = set_at(v, path, y)
                s += queries("a", v)[:3]
            s.append(dict(op="let", x="b", t=t, v=self.value(t, limit=1500)))
            s += queries("b", w)[:2] + queries("a", v)[:2]
            segs.append(s)
        return segs

    def C08(self):
        def q(x, v):
            s = [dict(op="id1", x=x)]
            for kind in self.r.sample(["siacoin", "siafund", "contract"], 3):
                s.append(dict(op="child1", x=x, kind=kind, i=self.index()))
            return s + [dict(op="id1", x=x)] + ([dict(op="nosigs", x=x)] if self.r.random() < 0.4 else [])
        return self.slots("v1_Transaction", 60, 5, q)

    def C09(self):
        def q(x, v):
            return [dict(op="id2", x=x)]
        segs = self.slots("v2_Transaction", 100, 6, q)
        # witness data only
        for _ in range(self.n(30)):
            v = self.value("v2_Transaction", limit=3000)
            s = [dict(op="let", x="a", t="v2_Transaction", v=v), dict(op="id2", x="a")]
            for path, d in list(self.witness(v))[:8]:
                s += [dict(op="set", x="a", path=path, v=d), dict(op="id2", x="a")]
            segs.append(s)
        return segs

    def witness(self, v):
        """parts of a v2 transaction that authenticate rather than mean: new values for them"""
        g, r = self.g, self.r
        out = []
        for k in ("siacoinInputs", "siafundInputs"):
            for i in range(len(v[k])):
                out.append(([k, i + 1, "satisfiedPolicy"], g.value("SatisfiedPolicy")))
                out.append(([k, i + 1, "parent", "stateElement"], g.value("StateElement")))
                out.append(([k, i + 1, "parent", "id"], g.value("Hash256")))
        for i in range(len(v["fileContracts"])):
            out.append((["fileContracts", i + 1, r.choice(["renterSignature", "hostSignature"])], g.value("Signature")))
        for i in range(len(v["fileContractRevisions"])):
            out.append((["fileContractRevisions", i + 1, "revision", r.choice(["renterSignature", "hostSignature"])], g.value("Signature")))
            out.append((["fileContractRevisions", i + 1, "parent", "v2FileContract"], g.value("v2_FileContract")))
            out.append((["fileContractRevisions", i + 1, "parent", "stateElement"], g.value("StateElement")))
        for i, x in enumerate(v["fileContractResolutions"]):
            p = ["fileContractResolutions", i + 1]
            out.append((p + ["parent", "stateElement"], g.value("StateElement")))
            out.append((p + ["parent", "v2FileContract"], g.value("v2_FileContract")))
            if x["type"] == "renewal":
                out.append((p + ["resolution", r.choice(["renterSignature", "hostSignature"])], g.value("Signature")))
                out.append((p + ["resolution", r.choice(["finalRevision", "newContract"]), r.choice(["renterSignature", "hostSignature"])], g.value("Signature")))
            elif x["type"] == "storageProof":
                out.append((p + ["resolution", "proofIndex", "stateElement", "merkleProof"], g.value("vec_hash")))
                out.append((p + ["resolution", "proof"], g.value("vec_hash")))
        for i in range(len(v["attestations"])):
            out.append((["attestations", i + 1, "signature"], g.value("Signature")))
        r.shuffle(out)
        return out

    def C10(self):
        g, r = self.g, self.r
        segs = []
        kinds = sorted(self.m["derived"])
        for _ in range(self.n(40)):
            s = []
            for _ in range(3):
                i = g.nbytes(32).hex()
                for k in kinds:
                    c = dict(op="derive", kind=k, id=i)
                    if k in self.m["indexed"]:
                        a = self.index()
                        s.append(dict(c, i=a))
                        s.append(dict(c, i=r.choice([self.index(), be(int(a, 16) + 1, 8), be(int(a, 16) + 256, 8), be(int(a, 16) | 1 << 32, 8)])))
                    else:
                        s.append(c)
            r.shuffle(s)
            segs.append(s + s[:3])
        return segs

    # ------------------------------------------------------------------------------------------- chains
    def heights(self, net):
        hs = [int(net["hardfork" + k]["height"], 16) for k in ("DevAddr", "Tax", "StorageProof", "Oak", "ASIC", "Foundation")]
        hs += [int(net["hardforkOak"]["fixHeight"], 16), int(net["hardforkV2"]["allowHeight"], 16), int(net["hardforkV2"]["requireHeight"], 16)]
        return hs

    def a_height(self, cs, top=U64):
        """a height, most often near one where something changes"""
        r = self.r
        k = r.randrange(10)
        if k < 6:
            h = r.choice(self.heights(cs["network"])) + r.choice([-2, -1, -1, 0, 0, 1, 2])
        elif k == 6:
            h = r.choice([0, 1, 10, 11, U64, U64 - 1, 269999, 270000, 270001, 300000, 1 << 32, 1 << 63])
        elif k == 7:
            h = r.randrange(0, 1200000)
        elif k == 8:
            h = self.g.const()
        else:
            h = self.g.uint(8)
        h %= 1 << 64
        return be(h if h <= top or h == U64 else h % (top + 1), 8)

    def network(self, small=True):
        """a network: a built-in one, or one with random parameters"""
        g, r = self.g, self.r
        k = r.randrange(5)
        nets = self.m["networks"]
        if k < 2:
            return copy.deepcopy(nets[r.choice(sorted(nets))])
        if k == 2:
            n = copy.deepcopy(nets[r.choice(sorted(nets))])
            for f in ("Tax", "ASIC", "Foundation"):
                n["hardfork" + f]["height"] = be(r.choice([0, 1, 2, 50, 1000]), 8)
            n["hardforkV2"]["allowHeight"] = be(r.choice([0, 1, 2, 50, 1000]), 8)
            return n
        self.knobs(True)
        n = self.g.value("Network")
        for f in ("DevAddr", "Tax", "StorageProof", "Oak", "ASIC", "Foundation"):
            n["hardfork" + f]["height"] = be(r.choice([0, 1, 10, 100, 1000, r.randrange(10**6), U64, g.uint(8)]), 8)
        n["hardforkV2"]["allowHeight"] = be(r.choice([0, 5, 100, 2000, r.randrange(10**6), U64, g.uint(8)]), 8)
        n["blockInterval"] = be(r.choice([600, 1, 60, 30, 599, 601, 7, 3600, 2628000, 1314000, r.randint(1, 2628000)]) * 10**9 + r.choice([0, 0, 0, 1, 500000000]), 8)
        if int(n["blockInterval"], 16) > 2628000 * 10**9:
            n["blockInterval"] = be(2628000 * 10**9, 8)
        n["initialCoinbase"] = be(r.choice([300000 * 10**24, 0, 10**24, 10**24 - 1, 5 * 10**23, U128, g.uint(16)]), 16)
        n["minimumCoinbase"] = be(r.choice([30000 * 10**24, 300000 * 10**24, 0, 1, 10**24, U128, g.uint(16)]), 16)
        n["maturityDelay"] = be(r.choice([144, 0, 1, 10, 1 << 32, g.uint(7)]), 8)
        return n

    def chain(self):
        cs = dict(network=self.network(), state=None)
        self.g.json = False
        st = self.g.value("State")
        st["index"]["height"] = self.a_height(cs)
        cs["state"] = self.g.fix_state(st)
        return cs

    def chain_cmds(self, cs):
        return [dict(op="chain", cs=cs)]

    def C11(self):
        r, g = self.r, self.g

        def q(x, v):
            a = dict(op="whole", x=x, parent=g.nbytes(32).hex(), key=self.index(), timelock=self.index())
            return [a, dict(a, **r.choice([dict(key=self.index()), dict(timelock=self.index()), dict(parent=g.nbytes(32).hex())])), dict(a)]
        segs = self.slots("v1_Transaction", 45, 4, q, limit=3000, chain=True)
        for s in segs[::2]:      # the same call at several heights
            last = [c for c in s if c["op"] == "whole"][-1]
            cs = [c for c in s if c["op"] == "chain"][0]["cs"]
            for _ in range(5):
                s += [dict(op="height", h=self.a_height(cs)), last]
        return segs

    def covered(self, v):
        """covered fields of a transaction, most often all in range"""
        r = self.r
        c = dict(wholeTransaction=r.random() < 0.5)
        bad = r.random() < 0.2
        for l in self.m["covered"]:
            n = len(v[l])
            idx = [r.randrange(n) for _ in range(r.choice([0, 0, 1, 2, n, 3]))] if n else []
            if r.random() < 0.25:
                idx = list(range(n))
            if r.random() < 0.2:
                idx = list(range(n))[::-1]
            c[l] = [be(i, 8) for i in idx]
        if bad:
            l = r.choice(self.m["covered"])
            n = len(v[l])
            c[l].insert(r.randint(0, len(c[l])), be(r.choice([n, n, n + 1, U64, 1 << 32, (1 << 32) + n - 1 if n else 1 << 32, 1 << 63]), 8))
        return c

    def C12(self):
        r, g = self.r, self.g
        segs = []
        for _ in range(self.n(45)):
            cs = self.chain()
            s = self.chain_cmds(cs)
            self.knobs()
            g.fill = r.choice([0.5, 1.0])
            v = self.value("v1_Transaction", limit=3500)
            s.append(dict(op="let", x="a", t="v1_Transaction", v=v))
            c = self.covered(v)
            s.append(dict(op="partial", x="a", covered=c))
            for _ in range(4):
                es, w = self.edits("v1_Transaction", v, 1)
                path, y = es[0]
                v = w
                s += [dict(op="set", x="a", path=path, v=y), dict(op="partial", x="a", covered=c)]
            for _ in range(6):
                s.append(dict(op="partial", x="a", covered=self.covered(v)))
            one = dict(wholeTransaction=False, **{l: [] for l in self.m["covered"]})
            for l in r.sample(self.m["covered"], 4):
                s.append(dict(op="partial", x="a", covered=dict(one, **{l: [be(i, 8) for i in range(len(v[l]))]})))
                s.append(dict(op="partial", x="a", covered=dict(one, **{l: [be(len(v[l]), 8)]})))
            s.append(dict(op="partial", x="a", covered=dict(one, wholeTransaction=True)))
            s.append(dict(op="allfields"))
            for _ in range(3):
                s += [dict(op="height", h=self.a_height(cs)), dict(op="partial", x="a", covered=c)]
            segs.append(s)
        return segs

    def C13(self):
        r, g = self.r, self.g

        def q(x, v):
            return [dict(op="sig2", kind="input", x=x)]
        segs = self.slots("v2_Transaction", 50, 5, q, limit=3000, chain=True)
        for _ in range(self.n(50)):
            cs = self.chain()
            s = self.chain_cmds(cs)
            for kind, t, sigs in (("contract", "v2_FileContract", ["renterSignature", "hostSignature"]),
                                  ("renewal", "v2_FileContractRenewal", ["renterSignature", "hostSignature"]), ("attestation", "v2_Attestation", ["signature"])):
                v = self.value(t, limit=3000)
                s.append(dict(op="sig2", kind=kind, v=v))
                s.append(dict(op="sig2", kind=kind, v=g.mutate(t, v)))
                s.append(dict(op="sig2", kind=kind, v=dict(v, **{r.choice(sigs): g.nbytes(64).hex()})))
                if kind == "renewal":
                    part = r.choice(["finalRevision", "newContract"])
                    s.append(dict(op="sig2", kind=kind, v=dict(v, **{part: dict(v[part], renterSignature=g.nbytes(64).hex())})))
                    s.append(dict(op="sig2", kind=kind, v=dict(v, **{part: g.mutate("v2_FileContract", v[part])})))
                s += [dict(op="height", h=self.a_height(cs)), dict(op="sig2", kind=kind, v=v)]
            segs.append(s)
        return segs

    # ------------------------------------------------------------------------------------------- addresses
    def conditions(self, n=None):
        r, g = self.r, self.g
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 13, 15, 16, 17]) if n is None else n
        keys = [g.value("UnlockKey") for _ in range(min(n, 6))]
        while len(keys) < n:
            k = dict(r.choice(keys[:6]))
            k["key"] = g.nbytes(32).hex()
            keys.append(k)
        return dict(timelock=be(r.choice([0, 0, 1, g.uint(8)]), 8), publicKeys=keys, signaturesRequired=be(r.choice([0, 1, 2, n, g.uint(8)]), 8))

    def C14(self):
        r, g = self.r, self.g
        segs = []
        for i in range(self.n(70)):
            g.json = False
            n = None if r.random() < 0.9 else min(600, g.size(300))
            u = self.conditions(n)
            s = [dict(op="ucaddr", v=u), dict(op="poladdr", v=dict(k="uc", v=u))]
            for _ in range(4):
                w = g.mutate("UnlockConditions", u)
                s.append(dict(op="ucaddr", v=w))
                u = w if r.random() < 0.5 else u
            s += [dict(op="ucaddr", v=self.conditions()), dict(op="ucaddr", v=u), dict(op="standard", v=g.nbytes(32).hex())]
            segs.append(s)
        segs.append([dict(op="ucaddr", v=self.conditions(n)) for n in range(0, 36)])
        return segs

    def opaqued(self, p, every=False):
        """p with some of its sub-policies made opaque (by the address the specification gives)"""
        r = self.r
        if p["k"] != "thresh":
            return p
        return dict(p, of=[dict(k="opaque", v=policy_address(self.g, q)) if r.random() < (1 if every else 0.4) else self.opaqued(q) for q in p["of"]])

    def C15(self):
        r, g = self.r, self.g
        segs = []
        for _ in range(self.n(120)):
            self.knobs()
            g.depth = r.choice([1, 2, 3, 4])
            p = g.policy() if r.random() < 0.9 else self.wide_policy()
            while len(json_text(p)) > 6000:
                g.depth = 2
                p = g.policy()
            if r.random() < 0.5:
                for _ in range(r.choice([1, 2, 5, 20])):
                    p = dict(k="thresh", n=be(r.choice([0, 1, 255]), 1), of=[p] + ([dict(k="above", v=be(3, 8))] if r.random() < 0.3 else []))
            s = [dict(op="poladdr", v=p), dict(op="poladdr", v=self.opaqued(p)), dict(op="poladdr", v=self.opaqued(p, True))]
            for _ in range(4):
                s.append(dict(op="poladdr", v=g.mutate("SpendPolicy", p)))
            s.append(dict(op="poladdr", v=p))
            segs.append(s)
        return segs

    def wide_policy(self):
        r, g = self.r, self.g
        w = min(255, g.size(255))
        k = r.choice(["pk", "h", "opaque", "above"])
        return dict(k="thresh", n=be(r.choice([1, w]), 1), of=[dict(k=k, v=(be(i, 8) if k == "above" else g.nbytes(32).hex())) for i in range(w)])

    # ------------------------------------------------------------------------------------------- sectors
    def sector(self, kind):
        r, g = self.r, self.g
        n = 1 << 16
        if kind == "gen":
            return dict(fill="gen", v=g.nbytes(r.choice([1, 8, 32])).hex(), edits=[])
        places = [0, 1, 2, 3, 4, 5, 7, 8, n - 1, n - 2, n - 3, n - 4, n // 2, n // 2 - 1, n // 2 + 1, n // 4, 3 * n // 4, 255, 256, 1023, 4095, 32767, 16383, 49151]
        e = []
        for _ in range(r.choice([0, 1, 2, 3, 8, 20])):
            i = r.choice(places) if r.random() < 0.5 else r.randrange(n)
            b = bytearray(64)
            if r.random() < 0.6:
                b[r.choice([0, 1, 31, 32, 33, 62, 63, r.randrange(64)])] = r.choice([1, 128, 255])
            else:
                b = bytearray(g.nbytes(64))
            e.append([i, bytes(b).hex()])
        return dict(fill="const", v=be(r.choice([0, 0, 1, 255, r.randrange(256)]), 1), edits=e)

    def C16(self):
        r = self.r
        segs = []
        threads = [1, 2, 3, 4, 5, 7, 8, 13, 16, 32, 64]
        for i in range(self.n(40)):
            s = []
            sec = self.sector("const")
            for t in r.sample(threads, 2):
                s.append(dict(op="sector", sector=sec, threads=t, times=2, together=r.random() < 0.5))
            # one byte of it changed
            e = sec["edits"][:]
            b = bytearray(bytes.fromhex(sec["v"]) * 64)
            b[r.randrange(64)] ^= 1 << r.randrange(8)
            e.append([r.randrange(1 << 16), bytes(b).hex()])
            s.append(dict(op="sector", sector=dict(sec, edits=e), threads=r.choice(threads), times=1))
            segs.append(s)
        for i in range(max(1, int(6 * self.scale))):
            sec = self.sector("gen")
            segs.append([dict(op="sector", sector=sec, threads=t, times=2, together=t % 2 == 0) for t in r.sample(threads, 1)])
        r.shuffle(segs)
        return segs

    # ------------------------------------------------------------------------------------------- money
    def amount(self):
        r, g = self.r, self.g
        k = r.randrange(8)
        if k == 0:
            n = r.choice([0, 1, 2, 3, U64, U64 + 1, U64 - 1, U128, U128 - 1, 1 << 127, (1 << 127) - 1, (1 << 96), 10**24, 10**24 - 1])
        elif k == 1:
            n = U128 - g.uint(r.choice([1, 4, 8, 12, 15]))
        elif k == 2:
            n = (1 << r.randrange(128)) + r.choice([-1, 0, 1])
        elif k == 3:
            n = r.randrange(1 << r.randint(1, 128))
        elif k == 4:
            n = r.choice([39, 1000, 25, 10000, 12, 30000, 300000]) * 10 ** r.randrange(30)
        elif k == 5:
            n = g.const()
        elif k == 6:
            n = (g.uint(8) << 64) | r.choice([0, U64, g.uint(8)])
        else:
            n = g.uint(16)
        return n % (1 << 128)

    def pairs(self):
        """two amounts, often at an edge of representability"""
        r = self.r
        a, k = self.amount(), r.randrange(7)
        if k == 0:
            b = (U128 - a) + r.choice([-1, 0, 1])
        elif k == 1:
            b = a + r.choice([-1, 0, 1])
        elif k == 2:
            b = (U128 // a if a else 0) + r.choice([-1, 0, 1])
        elif k == 3 and a:
            b = (1 << 128) // a if r.random() < 0.5 else a
        elif k == 4:
            a, b = r.randrange(1 << r.choice([32, 63, 64, 65])), r.randrange(1 << r.choice([32, 63, 64, 65]))
        elif k == 5:
            b = r.choice([0, 1, 2, 3, 10, U64, U64 + 1])
        else:
            b = self.amount()
        return a, max(0, min(b, U128))

    def C17(self):
        r = self.r
        segs = []
        for _ in range(self.n(60)):
            s = []
            for _ in range(4):
                a, b = self.pairs()
                if r.random() < 0.3:
                    a, b = b, a
                A, B = be(a, 16), be(b, 16)
                for f in ("add", "sub", "mul", "div", "rem"):
                    for form in ("checked", "op"):
                        if not (f == "rem" and form == "checked"):
                            s.append(dict(op="curop", f=f, form=form, a=A, b=B))
                s.append(dict(op="curcmp", a=A, b=B))
                s.append(dict(op="tou64", a=A))
                s.append(dict(op="tou64", a=be(b >> r.choice([0, 1, 63, 64]), 16)))
                s.append(dict(op="siacoins", n=be(r.choice([b, U64, 0, 1, 340282366920938, 340282366920939, b >> 70]), 8)))
                s.append(dict(op="curval", a=A))
                n = r.choice([0, 1, 2, 3, 10])
                l = [self.amount() >> r.choice([0, 0, 3, 64]) for _ in range(n)]
                if n and r.random() < 0.5:      # up to the edge
                    l = [x >> 4 for x in l]
                    l.append(max(0, U128 - sum(l) + r.choice([-1, 0, 1])))
                    l = [min(x, U128) for x in l]
                    r.shuffle(l)
                s.append(dict(op="cursum", s=[be(x, 16) for x in l]))
            r.shuffle(s)
            segs.append(s)
        return segs

    UNITS = [("H", 0), ("", 0), ("pS", 12), ("nS", 15), ("uS", 18), ("mS", 21), ("SC", 24), ("KS", 27), ("MS", 30), ("GS", 33), ("TS", 36)]

    def amount_text(self):
        r = self.r
        u, p = r.choice(self.UNITS)
        sp = r.choice(["", " ", "", " ", "  ", "\t"])
        k = r.randrange(12)
        unit = 10 ** p
        if k == 0:
            num = str(self.amount() // unit)
        elif k in (1, 2) and p:
            a = self.amount()
            f = str(a % unit).rjust(p, "0")
            f = f[:r.choice([p, p, p - 1, 1, 2])] or "0"
            num = "%d.%s" % (a // unit, f)
        elif k == 3:    # around the largest amount
            a = U128 + r.choice([-1, 0, 1, 2, unit, -unit])
            num = str(a // unit) + ("." + str(a % unit).rjust(p, "0") if p else "")
        elif k == 4:    # too precise
            num = "%d.%s%s" % (r.randrange(1000), "0" * r.randrange(p + 1), r.choice(["1", "5", "9"]) * r.choice([1, p, p + 1]))
        elif k == 5:
            num = "0." + "0" * max(0, p - 1) + r.choice(["1", "01", "10", "0"])
        elif k == 6:
            num = r.choice(["", ".", "1..2", "1.2.3", "-1", "+1", "1e5", "0x10", "1_000", "1,5", " 1", "1 ", "00", "007", "000.5", "5.", ".5", "١", "１", "9" * 39, "9" * 200,
                            "0" * 50 + "1", "0." + "0" * 40, "1." + "9" * 60])
        elif k == 7:
            num = str(r.randrange(10**6))
            u = r.choice(["sc", "S", "C", "HS", "h", "XS", "SC SC", "KSC", "ks", "Ms", "ms", "us", "PS", "SCx", "S C", "µS", "Ｓ", "é", "HH", "H.", "1", ".5", "SC1", "\u00a0SC", "sC", "TSS", "T"])
        elif k == 8:
            num = "%d.%d" % (r.randrange(10**9), r.randrange(10**9))
        elif k == 9:
            num = str(self.amount())
        else:
            num = "%d.%s" % (r.randrange(340282366920939), "".join(r.choice("0123456789") for _ in range(r.randint(1, 24))))
        t = num + sp + u + r.choice(["", "", "", " ", "\n"])
        return r.choice([t, t, t, t, t, " " + t, "\t" + t]) if r.random() < 0.2 else t

    def amount_texts(self, n, k):
        return [[dict(op="parse", t="Currency", b=hx(self.amount_text())) for _ in range(k)] for _ in range(n)]

    def C18(self):
        r, g = self.r, self.g
        segs = self.amount_texts(self.n(130), 20)
        for _ in range(self.n(30)):
            s = []
            for _ in range(4):
                a = self.amount()
                s += [dict(op="tojson", t="Currency", v=be(a, 16)), dict(op="fromjson", t="Currency", d=g.S(str(a)), **self.via()), dict(op="display", t="Currency", v=be(a, 16)),
                      dict(op="parse", t="Currency", b=hx(str(a))), dict(op="fromjson", t="Currency", d=g.S(self.amount_text()), **self.via()),
                      dict(op="fromjson", t="Currency", d=g.N(g.bad_number(str(a >> r.choice([0, 64, 65, 100])))), **self.via()),
                      dict(op="fromjson", t="Currency", d=g.N(a >> r.choice([64, 65, 63, 100])), **self.via())]
            segs.append(s)
        return segs

    # ------------------------------------------------------------------------------------------- consensus
    def C19(self):
        r = self.r
        segs = []
        for n in sorted(self.m["networks"]):
            s = [dict(op="network", name=n)]
            cs = self.chain()
            cs["network"] = copy.deepcopy(self.m["networks"][n])
            s += self.chain_cmds(cs) + [dict(op="params")]
            hs = set()
            for h in self.heights(cs["network"]) + [270000, 0, 11, 300000, 144]:
                hs |= {h - 2, h - 1, h, h + 1}
            for h in sorted(x % (1 << 64) for x in hs):
                s += [dict(op="height", h=be(h, 8)), dict(op="params")]
            segs += [s] + [s[:2] + s[2:3]]
        for _ in range(self.n(90)):
            cs = self.chain()
            s = self.chain_cmds(cs) + [dict(op="params")]
            for _ in range(10):
                s += [dict(op="height", h=self.a_height(cs)), dict(op="params")]
            segs.append(s)
        r.shuffle(segs)
        return segs

    def C20(self):
        r, g = self.r, self.g
        segs = []
        for _ in range(self.n(110)):
            cs = self.chain()
            net = cs["network"]
            f = int(net["hardforkFoundation"]["height"], 16)
            if f > 1 << 62 and r.random() < 0.8:
                f = r.choice([0, 1, 30, 5000])
                net["hardforkFoundation"]["height"] = be(f, 8)
            per = 2628000 * 10**9 // max(1, int(net["blockInterval"], 16))
            s = self.chain_cmds(cs) + [dict(op="subsidy")]
            hs = []
            for _ in range(8):
                k = r.choice([0, 0, 1, 2, 3, 11, 12, 13, 24, r.randrange(1000), g.uint(3)])
                hs.append(f + k * per - 1 + r.choice([0, 0, 0, -1, 1, per // 2]))
            hs += [f - 2, f - 1, f, int(self.a_height(cs), 16)]
            r.shuffle(hs)
            for h in hs:
                s += [dict(op="height", h=be(max(-1, h), 8)), dict(op="subsidy")]
            cs2 = copy.deepcopy(cs)
            cs2["state"]["foundationPrimaryAddress"] = g.nbytes(32).hex()
            cs2["state"]["index"]["height"] = be(f - 1, 8)
            s += [dict(op="chain", cs=cs2), dict(op="subsidy")]
            segs.append(s)
        return segs

    def C21(self):
        r, g = self.r, self.g
        segs = []
        for _ in range(self.n(70)):
            cs = self.chain()
            s = self.chain_cmds(cs)
            h = int(cs["network"]["hardforkTax"]["height"], 16)
            for _ in range(5):
                self.g.json = False
                v = g.value("v1_FileContract")
                k = r.randrange(4)
                p = [self.amount(), self.amount(), r.randrange(10**30), 10000 * 1000 * r.randrange(10**24) // 39 + r.choice([-1, 0, 1])][k] % (1 << 128)
                v = dict(v, payout=be(p, 16), validProofOutputs=[], missedProofOutputs=[])
                for d in (-2, -1, 0):
                    s += [dict(op="height", h=be(max(-1, h + d), 8)), dict(op="tax1", v=v)]
                s += [dict(op="height", h=self.a_height(cs)), dict(op="tax1", v=v)]
                w = g.value("v2_FileContract")
                a = self.amount()
                b = r.choice([self.amount(), U128 - a, max(0, U128 - a - 1), 0, r.randrange(10**28), r.randrange(250000) + (-a) % 250000])
                w["renterOutput"]["value"] = be(a, 16)
                w["hostOutput"]["value"] = be(min(b, U128), 16)
                s.append(dict(op="tax2", v=w))
                w2 = copy.deepcopy(w)
                w2["renterOutput"]["value"], w2["hostOutput"]["value"] = w["hostOutput"]["value"], w["renterOutput"]["value"]
                s.append(dict(op="tax2", v=w2))
            segs.append(s)
        return segs

    # ------------------------------------------------------------------------------------------- keys
    def words_of(self, seed):
        import hashlib
        n = int.from_bytes(seed + hashlib.sha256(seed).digest()[:1], "big") >> 4
        return [self.m["words"][(n >> (11 * (11 - i))) & 2047] for i in range(12)]

    def C22(self):
        r, g = self.r, self.g
        segs = []
        for _ in range(self.n(45)):
            b = g.nbytes(16)
            w = self.words_of(b)
            p = " ".join(w)
            s = [dict(op="seed", s="a", v=b.hex()), dict(op="phrase", s="a"), dict(op="seedbytes", s="a"), dict(op="fromphrase", b=hx(p))]
            b2 = bytearray(b)
            b2[r.randrange(16)] ^= 1 << r.randrange(8)
            i = self.index()
            s += [dict(op="derivekey", s="a", i=i), dict(op="seed", s="b", v=bytes(b2).hex()), dict(op="derivekey", s="b", i=i),
                  dict(op="derivekey", s="a", i=r.choice([self.index(), be(int(i, 16) ^ (1 << r.randrange(64)), 8)])), dict(op="phrase", s="b"),
                  dict(op="derivekey", s="a", i=i)]
            for _ in range(7):
                q = list(w)
                k = r.randrange(10)
                j = r.randrange(12)
                if k == 0:
                    q[j] = r.choice(self.m["words"])
                elif k == 1:
                    q[11] = r.choice(self.m["words"])
                elif k == 2:
                    q[j] = q[j][:4] if len(q[j]) > 4 else q[j] + "x"
                elif k == 3:
                    del q[j]
                elif k == 4:
                    q.insert(j, r.choice(self.m["words"]))
                elif k == 5:
                    q[j], q[(j + 1) % 12] = q[(j + 1) % 12], q[j]
                elif k == 6:
                    q[j] = r.choice([q[j].upper(), q[j].title(), "", "zzz", "abandon", q[j] + "\u0301", "é"])
                elif k == 7:
                    q = r.choice([q + q, q[:6], q * 2 + q[:3], [], q[:11], ["abandon"] * 11 + ["about"], ["abandon"] * 12, ["zoo"] * 12, ["zoo"] * 11 + ["wrong"], q + w[:3], q + w[:6]])
                elif k == 8:
                    q = r.choice([[" " + q[0]] + q[1:], q[:-1] + [q[-1] + " "], q[:3] + [""] + q[3:], ["\t".join(q)], ["\n".join(q)], [",".join(q)], q[:-1] + [q[-1] + "\n"]])
                s.append(dict(op="fromphrase", b=hx(" ".join(q))))
            segs.append(s)
        return segs

    L = (1 << 252) + 27742317777372353535851937790883648493

    def C23(self):
        import edgen
        r, g = self.r, self.g
        segs = []
        for _ in range(self.n(40)):
            sk = g.nbytes(32)
            h = g.nbytes(32)
            how = r.choice(["seed", "seed", "hash", "raw"])
            pk = edgen.public(sk)
            s = [dict(op="key", key="k", how=how, v=(sk + pk if how == "raw" else sk).hex()), dict(op="sign", key="k", h=h.hex())]
            sig = edgen.sign(sk, h)
            ok = dict(op="verify", pk=pk.hex(), h=h.hex(), sig=sig.hex())
            s.append(ok)
            S = int.from_bytes(sig[32:], "little")
            bad = [dict(ok, sig=g.flip(ok["sig"])), dict(ok, h=g.flip(ok["h"])), dict(ok, pk=g.flip(ok["pk"])),
                   dict(ok, sig=(sig[:32] + (S + self.L).to_bytes(32, "little")).hex()), dict(ok, sig=(sig[:32] + ((S + 2 * self.L) % (1 << 256)).to_bytes(32, "little")).hex()),
                   dict(ok, sig=(sig[:32] + (self.L - S).to_bytes(32, "little")).hex()), dict(ok, sig="00" * 64), dict(ok, sig="ff" * 64),
                   dict(ok, sig=sig[32:].hex() + sig[:32].hex()), dict(ok, sig=(bytes(32) + sig[32:]).hex()), dict(ok, sig=(sig[:32] + bytes(32)).hex()),
                   dict(ok, pk=g.nbytes(32).hex()), dict(ok, pk=g.nbytes(32).hex(), sig=g.nbytes(64).hex()), dict(ok, pk=h.hex(), h=pk.hex()),
                   dict(ok, sig=edgen.sign(sk, h[::-1]).hex()), dict(ok, sig=edgen.sign(h, h).hex()), dict(ok, sig=(sig[:31] + bytes([sig[31] ^ 0x80]) + sig[32:]).hex()),
                   dict(ok, sig=(sig[:63] + bytes([sig[63] | r.choice([0x20, 0x40, 0x80])])).hex()), dict(ok, pk=(pk[:31] + bytes([pk[31] ^ 0x80])).hex())]
            s += r.sample(bad, 10)
            h2 = g.nbytes(32).hex()
            s += [dict(op="sign", key="k", h=h2), ok, dict(ok, h=h2)]
            segs.append(s)
        return segs

    # ------------------------------------------------------------------------------------------- secrets
    SCOPES = ["stack", "copy", "array", "early", "box", "vec", "slice", "closure", "dyn", "map", "arc", "truncate", "clear", "option", "unwind", "stack-unwind", "thread"]

    def C24(self):
        r, g = self.r, self.g
        segs = []

        def secret(n):
            return bytes(r.randint(1, 255) for _ in range(n)).hex()
        forms = self.SCOPES
        for kind in ("seed", "key"):
            for f in forms:
                segs.append([dict(op="s_scope", kind=kind, form=f, v=secret(16 if kind == "seed" else 64)) for _ in range(2)])
        for _ in range(self.n(25)):
            live, s, i = {}, [], 0
            for _ in range(14):
                k = r.choice(["new", "new", "clone", "derive", "move", "use", "drop", "drop", "scope"])
                if not live:
                    k = "new"
                if k == "new":
                    to = "x%d" % i
                    how = r.choice(["seed", "phrase", "raw", "fromseed", "hash"])
                    kind = "seed" if how in ("seed", "phrase") else "key"
                    v = secret(dict(seed=16, phrase=16, raw=64, fromseed=32, hash=32)[how])
                    s.append(dict(op="s_new", to=to, how=how, v=v))
                    live[to] = kind
                    i += 1
                elif k == "scope":
                    kind = r.choice(["seed", "key"])
                    s.append(dict(op="s_scope", kind=kind, form=r.choice(forms), v=secret(16 if kind == "seed" else 64)))
                else:
                    fr = r.choice(sorted(live))
                    if k == "clone":
                        live["x%d" % i] = live[fr]
                        s.append(dict(op="s_clone", **{"from": fr}, to="x%d" % i))
                        i += 1
                    elif k == "derive":
                        if live[fr] == "seed":
                            live["x%d" % i] = "key"
                            s.append(dict(op="s_derive", **{"from": fr}, to="x%d" % i, i=self.index()))
                            i += 1
                    elif k == "move":
                        live["x%d" % i] = live.pop(fr)
                        s.append(dict(op="s_move", **{"from": fr}, to="x%d" % i))
                        i += 1
                    elif k == "use":
                        s.append(dict(op="s_use", **{"from": fr}))
                    else:
                        live.pop(fr)
                        s.append(dict(op="s_drop", **{"from": fr}))
            for fr in sorted(live):
                s.append(dict(op="s_drop", **{"from": fr}))
            segs.append(s)
        return segs

    def C26(self):
        """values against values that are the same, nearly the same, and different"""
        g, r = self.g, self.r
        segs = []
        for t in sorted(set(self.json_types) | {"Specifier"}):
            for _ in range(self.n(2) * self.weight(t)):
                v = self.value(t, limit=4000)
                s = []
                for _ in range(4):
                    w = g.mutate(t, v)
                    s.append(dict(op="same", t=t, a=v, b=w))
                    if r.random() < 0.5:
                        v = w
                s += [dict(op="same", t=t, a=v, b=copy.deepcopy(v)), dict(op="same", t=t, a=self.value(t, limit=3000), b=v)]
                segs.append(s)
        for _ in range(self.n(60)):
            self.knobs()
            g.depth = r.choice([1, 2, 3])
            segs.append([dict(op="make", v=g.policy()) for _ in range(3)])
        for _ in range(self.n(10)):
            segs.append([dict(op="convert", t=t, b=g.nbytes(n).hex()) for t, n in CONVERTS.items()])
            k = g.nbytes(64).hex()
            i = r.randrange(128)
            l = k[:i] + "%x" % (int(k[i], 16) ^ (1 << r.randrange(4))) + k[i + 1:]
            segs.append([dict(op="key", key="a", how="raw", v=k), dict(op="key", key="b", how=r.choice(["seed", "hash"]), v=k[:64]), dict(op="samekey", a="a", b="b"), dict(op="key", key="c", how="raw", v=l),
                         dict(op="samekey", a="a", b="c"), dict(op="samekey", a="c", b="c"), dict(op="key", key="b", how="raw", v=k), dict(op="samekey", a="b", b="a")])
        r.shuffle(segs)
        return segs

    def C25(self):
        g, r = self.g, self.r
        segs = []
        for _ in range(self.n(60)):
            for t in ("ElementAccumulator", "State", "ElementAccumulator"):
                v = self.value(t, json=True)
                if t == "ElementAccumulator" and r.random() < 0.5:
                    n = g.uint(8)
                    v = dict(numLeaves=be(n, 8), trees=[g.nbytes(32).hex() for _ in range(bin(n).count("1"))])
                w = g.mutate(t, v)
                a = dict(ver=2, t=t)
                tk = g.enc(2, t, v)
                e = "".join(h for _, h in tk)
                d = g.doc(t, v)
                s = [dict(a, op="enc", v=v), dict(a, op="dec", b=e), dict(op="tojson", t=t, v=v), dict(op="fromjson", t=t, d=d, **self.via()), dict(a, op="enc", v=w),
                     dict(op="tojson", t=t, v=w), dict(a, op="put", v=v), dict(a, op="put", v=w), dict(a, op="get"), dict(a, op="get"), dict(a, op="dec", b=e[:-2])]
                for _ in range(3):
                    s.append(dict(op="fromjson", t=t, d=self.wrong_count(t, d), **self.via()))
                s.append(dict(op="semantics", v=self.value("v2_ChainIndexElement")))
                segs.append(s)
        # every height of a young chain, and the pre-genesis one
        s = []
        for h in list(range(0, 14)) + [U64]:
            v = self.value("State", json=True)
            v["index"]["height"] = be(h, 8)
            v["prevTimestamps"] = []
            v = g.fix_state(v)
            s += [dict(op="enc", ver=2, t="State", v=v), dict(op="dec", ver=2, t="State", b="".join(x for _, x in g.enc(2, "State", v))), dict(op="tojson", t="State", v=v)]
        segs.append(s)
        # every single tree
        s = []
        for b in range(64):
            v = dict(numLeaves=be(1 << b, 8), trees=[g.nbytes(32).hex()])
            s += [dict(op="enc", ver=2, t="ElementAccumulator", v=v), dict(op="dec", ver=2, t="ElementAccumulator", b="".join(x for _, x in g.enc(2, "ElementAccumulator", v))),
                  dict(op="tojson", t="ElementAccumulator", v=v), dict(op="fromjson", t="ElementAccumulator", d=g.doc("ElementAccumulator", v), **self.via())]
        segs.append(s)
        return segs

    def wrong_count(self, t, d):
        """the document with a root or timestamp too many or too few, or otherwise damaged"""
        g, r = self.g, self.r
        m = {bytes.fromhex(k).decode(): x for k, x in d["m"]}
        if t == "State":
            l = m["prevTimestamps"]["e"]
            k = r.randrange(4)
            if k == 0:
                m["prevTimestamps"] = dict(k="a", e=l + [l[-1]])
            elif k == 1:
                m["prevTimestamps"] = dict(k="a", e=l + l)
            elif k == 2:
                m["elements"] = self.wrong_count("ElementAccumulator", m["elements"])
            else:
                return g.bad_doc(d)
        else:
            l = m["trees"]["e"]
            k = r.randrange(4)
            if k == 0:
                m["trees"] = dict(k="a", e=l + [g.S(g.nbytes(32).hex())])
            elif k == 1:
                m["trees"] = dict(k="a", e=l[:-1])
            elif k == 2:
                m["numLeaves"] = g.N(int(m["numLeaves"]["v"]) ^ (1 << r.randrange(64)))
            else:
                m["trees"] = dict(k="a", e=l[::-1])
        return dict(k="o", m=[[hx(k), x] for k, x in m.items()])


# ------------------------------------------------------------------------------------------------------------ helpers
def json_text(v):
    return json.dumps(v, separators=(",", ":"))


def utf8(s):
    try:
        s.encode()
        return True
    except UnicodeEncodeError:
        return False


def utf8_doc(d):
    return True


def set_at(v, path, new):
    """v with the part at a path of names and 1-based positions replaced"""
    if not path:
        return new
    h = path[0]
    if isinstance(h, str):
        return dict(v, **{h: set_at(v[h], path[1:], new)})
    return v[:h - 1] + [set_at(v[h - 1], path[1:], new)] + v[h:]


def path_type(path, v, res):
    return "renewal" if "finalRevision" in v else "storageProof"


def leaf_lists(g, d, v, path=()):
    """paths of the lists and strings within a value, with their types"""
    d = g.T(d)
    k = d["k"]
    if k in ("bytes", "str"):
        yield list(path), d
    elif k == "vec":
        yield list(path), d
        for i, x in enumerate(v):
            yield from leaf_lists(g, d["e"], x, path + (i + 1,))
    elif k in ("struct", "txn2", "state"):
        for f in (d["f"] if k == "struct" else g.m[k]):
            if f[0] != "prevTimestamps":
                yield from leaf_lists(g, f[1], v[f[0]], path + (f[0],))
    elif k == "ukey":
        yield list(path) + ["key"], dict(k="bytes")


def leaves(g, d, v, path=()):
    """paths of the numbers, lists and strings within a value, with their types"""
    d = g.T(d)
    k = d["k"]
    if k in ("vec", "opt"):
        if k == "vec":
            yield list(path), d
        for i, x in enumerate(v[:1]):
            yield from leaves(g, d["e"], x, path + (i + 1,))
    elif k in ("struct", "txn2", "state"):
        for f in (d["f"] if k == "struct" else g.m[k]):
            if f[0] not in ("prevTimestamps", "index"):
                yield from leaves(g, f[1], v[f[0]], path + (f[0],))
    elif k == "ukey":
        yield list(path) + ["key"], dict(k="bytes")
    elif k == "sfo":
        yield list(path) + ["value"], dict(k="u64")
    elif k == "resolution":
        yield from leaves(g, "v2_FileContractElement", v["parent"], path + ("parent",))
        res = dict(renewal="v2_FileContractRenewal", storageProof="v2_StorageProof")
        if v["type"] in res:
            yield from leaves(g, res[v["type"]], v["resolution"], path + ("resolution",))
    elif k not in ("policy", "accum", "bool"):
        yield list(path), d


def doc_json(d):
    k = d["k"]
    if k == "z":
        return "null"
    if k == "b":
        return "true" if d["v"] else "false"
    if k == "n":
        return d["v"]
    if k == "s":
        return json.dumps(bytes.fromhex(d["v"]).decode(), ensure_ascii=False)
    if k == "a":
        return "[" + ",".join(doc_json(x) for x in d["e"]) + "]"
    return "{" + ",".join(json.dumps(bytes.fromhex(n).decode(), ensure_ascii=False) + ":" + doc_json(x) for n, x in d["m"]) + "}"


def tree_of(n, head, leaf):
    """a binary tree of policies of depth n"""
    return leaf if n == 0 else head + "02" + tree_of(n - 1, head, leaf) * 2


def policy_address(g, p):
    """only used to make inputs: the expected addresses come from the specification"""
    if p["k"] == "opaque":
        return p["v"]
    if p["k"] == "uc":
        u = p["v"]
        leaves = [bytes.fromhex(rev(u["timelock"]))] + [bytes.fromhex(k["algorithm"]) + bytes.fromhex(rev(be(len(k["key"]) // 2, 8))) + bytes.fromhex(k["key"])
                                                       for k in u["publicKeys"]] + [bytes.fromhex(rev(u["signaturesRequired"]))]

        def root(l):
            if len(l) == 1:
                return l[0]
            k = 1
            while 2 * k < len(l):
                k *= 2
            return b2b(b"\x01" + root(l[:k]) + root(l[k:]))
        return root([b2b(b"\0" + x) for x in leaves]).hex()
    q = p
    if p["k"] == "thresh":
        q = dict(p, of=[dict(k="opaque", v=policy_address(g, x)) for x in p["of"]])
    return b2b(b"sia/address|" + bytes.fromhex("".join(h for _, h in g.enc(2, "SpendPolicy", q)))).hex()
