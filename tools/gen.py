"""Random abstract values, encodings and documents, driven by the type table of the specification.

Nothing here decides anything: it only produces commands.  What a command must result in is decided by the TLA+
specification (spec/Sia.tla) when the recorded execution is validated."""
import base64, copy, datetime, hashlib

WIDTH = dict(u8=1, u16=2, u32=4, u64=8, usize=8, i16=2, i32=4, i64=8, time=8, dur=8, hash=32, addr=32, pk=32, work=32,
             sig=64, leaf=64, cur=16, spec=16)
TIME_MIN, TIME_MAX = -377705116800, 253402300799
JSON_TIME_MIN = -62167219200


def be(n, w):
    return (n % (1 << (8 * w))).to_bytes(w, "big").hex()


def rev(h):
    return bytes.fromhex(h)[::-1].hex()


def b2b(b):
    return hashlib.blake2b(b, digest_size=32).digest()


def F(n, t):
    return [n, t, "req"]


class Gen:
    def __init__(self, rng, model, magic=(), words=()):
        self.r = rng
        self.m = model
        self.magic = list(magic)     # integers worth trying: see dictionary()
        self.words = list(words)     # texts worth trying
        self.types = model["types"]
        self.fill = 0.6          # how likely an optional part is present
        self.json = False        # restrict to values with a JSON form
        self.maxlist = 3
        self.maxlong = 17
        self.depth = 3           # of policies

    def T(self, t):
        if isinstance(t, str):
            t = self.types[t]
        while t["k"] == "ref":
            t = self.types[t["n"]]
        return t

    # ------------------------------------------------------------------ numbers and bytes
    def uint(self, w):
        r = self.r
        bits = 8 * w
        k = r.randrange(11)
        if k == 10:
            n = self.const()
        elif k == 0:
            n = r.choice([0, 1, 2, 9, 10, 127, 128, 255])
        elif k == 1:
            n = (1 << r.randrange(bits)) + r.choice([-1, 0, 1])
        elif k == 2:
            n = (1 << bits) - 1 - r.choice([0, 0, 1, 2])
        elif k == 3:
            n = int.from_bytes(bytes(range(1, w + 1)), "big")
        elif k == 4:
            n = r.randrange(1 << (8 * r.randint(1, w)))
        elif k == 5:
            n = (1 << (8 * r.randrange(w))) * r.randrange(256)
        elif k == 6:
            n = 10 ** r.randrange(int(bits * 0.30103) + 1) + r.choice([-1, 0, 1])
        else:
            n = r.getrandbits(bits)
        return n % (1 << bits)

    def const(self):
        """an integer of the sources, or one near or made from it"""
        r = self.r
        n = r.choice(self.magic) if self.magic else r.randrange(256)
        return max(0, n + r.choice([0, 0, 0, 1, -1])) * r.choice([1, 1, 1, 1, 1, 1, 10**24, 10**9]) << r.choice([0, 0, 0, 0, 0, 0, 0, 8, 64])

    def size(self, limit):
        """a length up to the limit, often at an edge"""
        r = self.r
        n = r.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 511, 512, 513, 1000,
                      1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537]
                     + [m + d for m in self.magic for d in (-1, 0, 1)])
        return n if 0 <= n <= limit else r.randint(0, limit)

    def nbytes(self, n):
        r = self.r
        k = r.randrange(9 if n in (16, 32) and self.words else 8)
        if k == 8:
            return r.choice(self.words).encode()[:n].ljust(n, b"\0")
        if k == 0:
            return bytes(n)
        if k == 1:
            return b"\xff" * n
        if k == 2 and n:
            i = r.randrange(n)
            return bytes(i) + bytes([1 << r.randrange(8)]) + bytes(n - 1 - i)
        if k == 3:
            return bytes((i * 7 + 1) % 256 for i in range(n))
        b = bytearray(r.getrandbits(8) for _ in range(n))
        if k == 4 and n:
            b[0] = 0
        if k == 5 and n:
            b[-1] = 0
        return bytes(b)

    def length(self, big=True):
        r = self.r
        k = r.randrange(40)
        if k < 12:
            return 0
        if k < 38 or not big:
            return r.randint(1, self.maxlist)
        return self.size(self.maxlong)

    def blen(self):
        k = self.r.randrange(60)
        if k < 10:
            return 0
        if k < 55:
            return self.r.randint(1, 40)
        return self.size(16 * self.maxlong)

    def text(self):
        r = self.r
        k = r.randrange(9 if self.words else 8)
        if k == 8:
            return r.choice(self.words) + r.choice(["", "", "x", " "])
        n = r.choice([0, 1, 2, 3, 5, 12])
        if k == 0:
            return ""
        pool = ["abcXYZ019", "a\"\\/\b\f\n\r\t\x00\x1f\x7f", "äöü€\u2028\u2029\ufeff\uffff", "\U0001F600\U0010FFFFz", "host announcement:"]
        p = r.choice(pool)
        return "".join(r.choice(p) for _ in range(n))

    def time(self):
        r = self.r
        lo = JSON_TIME_MIN if self.json else TIME_MIN
        k = r.randrange(7)
        if k == 6:
            return max(lo, min(TIME_MAX, self.const()))
        if k == 0:
            return r.choice([lo, TIME_MAX, 0, -1, 1, JSON_TIME_MIN, -86400, 86399, 86400, 951782400, 951868799, 951868800,
                             4107542399, 4107542400, 1 << 31, (1 << 31) - 1, -(1 << 31), 1 << 32, 1433600000])
        if k == 1:
            return r.randint(lo, TIME_MAX)
        if k == 2:   # around year and leap boundaries
            y = r.choice([1, 4, 100, 400, 1600, 1900, 1970, 1999, 2000, 2004, 2023, 2024, 2100, 9999, r.randint(1, 9999)])
            mo, d = r.choice([(1, 1), (2, 28), (3, 1), (12, 31), (r.randint(1, 12), r.randint(1, 28))])
            days = datetime.date(y, mo, d).toordinal() - datetime.date(1970, 1, 1).toordinal()
            return max(lo, min(TIME_MAX, days * 86400 + r.choice([0, -1, 86399, 86400, r.randrange(86400)])))
        return r.randint(0, 2000000000)

    def dur(self):
        r = self.r
        return r.choice([min((1 << 63) - 1, self.const()), 0, 1, 999, 10**9 - 1, 10**9, 600 * 10**9, (1 << 63) - 1, (1 << 62), 1 << 32, r.getrandbits(63),
                         r.randrange(10**12)])

    def specifier(self):
        r = self.r
        k = r.randrange(6)
        if k == 0:
            return bytes(16)
        if k == 1 and not self.json:
            return self.nbytes(16)
        names = [b"ed25519", b"entropy", b"a", b"sixteen bytes!!!", b"with:colon", b"two:co:lons", "é".encode(), b"x y", b":",
                 b"a\x00b", b"\x00z"]
        return r.choice(names).ljust(16, b"\0")

    def policy(self, depth=None):
        r = self.r
        depth = self.depth if depth is None else depth
        k = r.choice(["above", "after", "pk", "h", "opaque", "uc", "thresh", "thresh"])
        if k == "thresh" and depth == 0:
            k = r.choice(["above", "pk", "h", "opaque"])
        if k == "above":
            v = be(self.uint(8), 8)
        elif k == "after":
            v = be(self.time(), 8)
        elif k in ("pk", "h", "opaque"):
            v = self.nbytes(32).hex()
        elif k == "uc":
            v = self.value("UnlockConditions")
        else:
            n = r.choice([0, 1, 2, 2, 3, 4])
            return dict(k=k, n=be(r.choice([0, 1, 2, 3, 127, 128, 255]), 1), of=[self.policy(depth - 1) for _ in range(n)])
        return dict(k=k, v=v)

    # ------------------------------------------------------------------ values
    def fields(self, fs):
        return {f[0]: self.value(f[1]) for f in fs}

    def optional(self, f):
        t = self.T(f[1])
        if self.r.random() < self.fill:
            v = self.value(f[1])
            for _ in range(3):
                if v in ([], ""):
                    v = self.value(f[1])
            return v
        return "" if t["k"] == "bytes" else []

    def value(self, t):
        r = self.r
        t = self.T(t)
        k = t["k"]
        if k in ("u8", "u16", "u32", "u64", "usize", "i16", "i32", "i64", "cur", "work"):
            return be(self.uint(WIDTH[k]), WIDTH[k])
        if k in ("hash", "addr", "pk", "sig", "leaf"):
            return self.nbytes(WIDTH[k]).hex()
        if k == "fix":
            return self.nbytes(t["n"]).hex()
        if k == "spec":
            return self.specifier().hex()
        if k == "bool":
            return r.random() < 0.5
        if k == "bytes":
            return self.nbytes(self.blen()).hex()
        if k == "str":
            return self.text().encode().hex()
        if k == "time":
            return be(self.time(), 8)
        if k == "dur":
            return be(self.dur(), 8)
        if k == "vec":
            return [self.value(t["e"]) for _ in range(self.length())]
        if k == "opt":
            return [self.value(t["e"])] if r.random() < self.fill else []
        if k == "struct":
            return {f[0]: (self.optional(f) if f[2] == "omit" else self.value(f[1])) for f in t["f"]}
        if k == "ukey":
            alg = self.specifier()
            if self.json:   # only a UTF-8 name without an inner NUL tail ambiguity has a text form
                while True:
                    try:
                        alg.rstrip(b"\0").decode()
                        break
                    except UnicodeDecodeError:
                        alg = self.specifier()
            return dict(algorithm=alg.hex(), key=self.nbytes(r.choice([32, 32, 0, 1, 31, 33, 64, 100])).hex())
        if k == "sfo":
            return dict(value=be(self.uint(8), 8), address=self.nbytes(32).hex())
        if k == "policy":
            return self.policy()
        if k == "resolution":
            ty = r.choice(["renewal", "storageProof", "expiration"])
            res = dict(renewal="v2_FileContractRenewal", storageProof="v2_StorageProof")
            return dict(parent=self.value("v2_FileContractElement"), type=ty,
                        resolution=self.value(res[ty]) if ty in res else [])
        if k == "txn2":
            x = {f[0]: (self.optional(f) if f[2] == "omit" else self.value(f[1])) for f in self.m["txn2"]}
            if r.random() > self.fill:
                x["minerFee"] = be(0, 16)
            return x
        if k == "accum":
            n = self.r.choice([self.uint(8), 0, 1, 2, 3, 5, (1 << 63), (1 << 64) - 1, (1 << 63) | 1, 1 << 32, 0xAAAA, 1 << r.randrange(64)])
            return dict(numLeaves=be(n, 8), trees=[self.nbytes(32).hex() for _ in range(bin(n).count("1"))])
        if k == "state":
            x = {f[0]: self.value(f[1]) for f in self.m["state"] if f[0] != "prevTimestamps"}
            h = r.choice([(1 << 64) - 1, 0, 1, 2, 5, 8, 9, 10, 11, 12, 255, 256, 1 << 32, (1 << 64) - 2, self.uint(8)])
            x["index"]["height"] = be(h, 8)
            return self.fix_state(x)
        raise KeyError(k)

    def fix_state(self, x):
        h = int(x["index"]["height"], 16)
        n = min(11, (h + 1) % (1 << 64))
        old = x.get("prevTimestamps", [])
        x["prevTimestamps"] = [(old[i] if i < len(old) and old[i] != be(0, 8) else be(self.time(), 8)) if i < n else be(0, 8)
                               for i in range(11)]
        return x

    # ------------------------------------------------------------------ a value that differs in one place
    def flip(self, h, lo=0):
        b = bytearray.fromhex(h)
        i = self.r.randrange(lo, len(b))
        b[i] ^= 1 << self.r.randrange(8)
        return b.hex()

    def mutate(self, t, x):
        """another value of the type, usually different in one leaf, element or length"""
        r = self.r
        t = self.T(t)
        k = t["k"]
        if k in ("cur", "work", "hash", "addr", "pk", "sig", "leaf", "fix", "u8", "u16", "u32", "u64", "usize", "i16", "i32", "i64"):
            return self.flip(x)
        if k == "spec":
            return self.specifier().hex()
        if k == "bool":
            return not x
        if k in ("time", "dur"):
            return self.value(t)
        if k == "bytes":
            b = bytearray.fromhex(x)
            c = r.randrange(3)
            if c == 0 or not b:
                b.insert(r.randint(0, len(b)), r.randrange(256))
            elif c == 1:
                del b[r.randrange(len(b))]
            else:
                b[r.randrange(len(b))] ^= 1 << r.randrange(8)
            return b.hex()
        if k == "str":
            return self.text().encode().hex()
        if k == "vec":
            s = list(x)
            c = r.randrange(4)
            if c == 0 or not s:
                s.insert(r.randint(0, len(s)), self.value(t["e"]))
            elif c == 1:
                del s[r.randrange(len(s))]
            elif c == 2 and len(s) > 1:
                i = r.randrange(len(s) - 1)
                s[i], s[i + 1] = s[i + 1], s[i]
            else:
                i = r.randrange(len(s))
                s[i] = self.mutate(t["e"], s[i])
            return s
        if k == "opt":
            return [] if x and r.random() < 0.4 else [self.value(t["e"])] if not x else [self.mutate(t["e"], x[0])]
        if k in ("struct", "sfo", "ukey", "txn2"):
            fs = dict(struct=lambda: t["f"], sfo=lambda: [F("value", dict(k="u64")), F("address", dict(k="addr"))],
                      ukey=lambda: [F("algorithm", dict(k="spec")), F("key", dict(k="bytes"))], txn2=lambda: self.m["txn2"])[k]()
            f = r.choice(fs)
            y = dict(x)
            y[f[0]] = self.mutate(f[1], x[f[0]])
            if k == "ukey" and f[0] == "algorithm" and self.json:
                y[f[0]] = r.choice([b"ed25519", b"ed25518", b"entropy", b"e"]).ljust(16, b"\0").hex()
            return y
        if k == "policy":
            if x["k"] == "thresh":
                c = r.randrange(4)
                y = dict(x)
                if c == 0:
                    y["n"] = self.flip(x["n"])
                elif c == 1 or not x["of"]:
                    s = list(x["of"])
                    s.insert(r.randint(0, len(s)), self.policy(0))
                    y["of"] = s
                else:
                    i = r.randrange(len(x["of"]))
                    y["of"] = x["of"][:i] + [self.mutate(t, x["of"][i])] + x["of"][i + 1:]
                return y
            c = r.randrange(3)
            if c == 0 and x["k"] in ("pk", "h", "opaque"):   # same bytes, other kind
                return dict(k=r.choice([q for q in ("pk", "h", "opaque") if q != x["k"]]), v=x["v"])
            if x["k"] == "uc":
                return dict(k="uc", v=self.mutate("UnlockConditions", x["v"]))
            if x["k"] == "after":
                return dict(k="after", v=be(self.time(), 8))
            return dict(k=x["k"], v=self.flip(x["v"]))
        if k == "resolution":
            y = copy.deepcopy(x)
            if r.random() < 0.5:
                y["parent"] = self.mutate("v2_FileContractElement", x["parent"])
            elif x["type"] == "expiration":
                return self.value(t)
            else:
                res = dict(renewal="v2_FileContractRenewal", storageProof="v2_StorageProof")
                y["resolution"] = self.mutate(res[x["type"]], x["resolution"])
            return y
        if k == "accum":
            n = int(x["numLeaves"], 16) ^ (1 << r.randrange(64))
            if r.random() < 0.5 and x["trees"]:
                i = r.randrange(len(x["trees"]))
                return dict(x, trees=x["trees"][:i] + [self.flip(x["trees"][i])] + x["trees"][i + 1:])
            trees = (x["trees"] + [self.nbytes(32).hex()])[:bin(n).count("1")]
            return dict(numLeaves=be(n, 8), trees=trees)
        if k == "state":
            y = copy.deepcopy(x)
            f = r.choice(self.m["state"])
            if f[0] != "prevTimestamps":
                y[f[0]] = self.mutate(f[1], x[f[0]])
            return self.fix_state(y)
        raise KeyError(k)

    # ------------------------------------------------------------------ encodings, as tokens (kind, hex)
    def enc(self, ver, t, x):
        out = []
        self._enc(ver, self.T(t), x, out)
        return out

    def _len(self, n, out):
        out.append(("len", rev(be(n, 8))))

    def _enc(self, ver, t, x, out):
        t = self.T(t)
        k = t["k"]
        if k in ("hash", "addr", "pk", "sig", "leaf", "fix", "work", "u8", "spec"):
            out.append(("raw", x))
        elif k == "struct":
            for f in t["f"]:
                self._enc(ver, f[1], x[f[0]], out)
        elif k == "vec":
            self._len(len(x), out)
            for e in x:
                self._enc(ver, t["e"], e, out)
        elif k in ("u64", "usize", "i64"):
            out.append(("int", rev(x)))
        elif k in ("time", "dur"):
            out.append((k, rev(x)))
        elif k in ("u16", "u32"):
            out.append(("small", rev(x.rjust(16, "0"))))
        elif k in ("i16", "i32"):
            n = int(x, 16)
            w = 8 * WIDTH[k]
            out.append(("small", rev(be(n - (1 << w) if n >> (w - 1) else n, 8))))
        elif k == "bool":
            out.append(("bool", "01" if x else "00"))
        elif k == "cur":
            if ver == 2:
                out.append(("int", rev(x)))
            else:
                b = bytes.fromhex(x).lstrip(b"\0")
                out.append(("curlen", rev(be(len(b), 8))))
                out.append(("raw", b.hex()))
        elif k in ("bytes", "str"):
            self._len(len(x) // 2, out)
            out.append(("str" if k == "str" else "raw", x))
        elif k == "opt":
            out.append(("bool", "01" if x else "00"))
            if x:
                self._enc(ver, t["e"], x[0], out)
        elif k == "ukey":
            out.append(("raw", x["algorithm"]))
            self._len(len(x["key"]) // 2, out)
            out.append(("raw", x["key"]))
        elif k == "sfo":
            if ver == 2:
                out.append(("int", rev(x["value"])))
                out.append(("raw", x["address"]))
            else:
                self._enc(1, dict(k="cur"), be(0, 8) + x["value"], out)
                out.append(("raw", x["address"]))
                self._enc(1, dict(k="cur"), be(0, 16), out)
        elif k == "policy":
            out.append(("ver", "01"))
            self._pol(x, out)
        elif k == "resolution":
            self._enc(2, "v2_FileContractElement", x["parent"], out)
            out.append(("tag", dict(renewal="00", storageProof="01", expiration="02")[x["type"]]))
            res = dict(renewal="v2_FileContractRenewal", storageProof="v2_StorageProof")
            if x["type"] in res:
                self._enc(2, res[x["type"]], x["resolution"], out)
        elif k == "txn2":
            out.append(("ver", "02"))
            mask = sum(1 << i for i, f in enumerate(self.m["txn2"]) if x[f[0]] not in ([], "", be(0, 16)))
            out.append(("mask", rev(be(mask, 8))))
            for i, f in enumerate(self.m["txn2"]):
                if mask >> i & 1:
                    if f[0] == "newFoundationAddress":
                        out.append(("raw", x[f[0]][0]))
                    else:
                        self._enc(2, f[1], x[f[0]], out)
        elif k == "accum":
            out.append(("int", rev(x["numLeaves"])))
            for h in x["trees"]:
                out.append(("raw", h))
        elif k == "state":
            h = int(x["index"]["height"], 16)
            for f in self.m["state"]:
                if f[0] == "prevTimestamps":
                    for i in range(min(11, (h + 1) % (1 << 64))):
                        out.append(("time", rev(x[f[0]][i])))
                else:
                    self._enc(2, f[1], x[f[0]], out)
        else:
            raise KeyError(k)

    def _pol(self, x, out):
        tags = dict(above="01", after="02", pk="03", h="04", thresh="05", opaque="06", uc="07")
        out.append(("tag", tags[x["k"]]))
        if x["k"] == "thresh":
            out.append(("raw", x["n"]))
            out.append(("count", be(len(x["of"]), 1)))
            for p in x["of"]:
                self._pol(p, out)
        elif x["k"] == "uc":
            self._enc(2, "UnlockConditions", x["v"], out)
        elif x["k"] == "after":
            out.append(("time", rev(x["v"])))
        elif x["k"] == "above":
            out.append(("int", rev(x["v"])))
        else:
            out.append(("raw", x["v"]))

    def hostile(self, toks):
        """an encoding with one token replaced by something hostile to its kind (or any bytes changed)"""
        r = self.r
        toks = list(toks)
        special = [i for i, (k, h) in enumerate(toks) if k in ("len", "curlen", "bool", "tag", "ver", "time", "dur", "small", "str", "mask", "count") and h]
        if special and r.random() < 0.75:
            i = r.choice(special)
            k, h = toks[i]
            if k in ("len", "curlen"):
                n = int(rev(h), 16)
                opts = [n + 1, max(0, n - 1), 1 << 16, 1 << 24, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 32) + n, (1 << 40), 1 << 60, (1 << 61) + n, (1 << 63) - 1, 1 << 63, (1 << 64) - 1,
                        (1 << 64) - 8, (1 << 56) + n]
                if k == "curlen":
                    opts += [16, 17, 18, 24, 32]
                v = r.choice(opts)
                h = rev(be(v, 8))
                if k == "curlen" and 16 < v < 100:
                    # as many bytes as announced, so that only the length is wrong
                    toks[i + 1] = ("raw", r.choice([self.nbytes(v).hex(), bytes(v).hex(), ("00" * (v - 16) + "01" * 16)]))
                elif k == "curlen" and v == 16 and i + 1 < len(toks):
                    toks[i + 1] = ("raw", toks[i + 1][1].rjust(32, "0"))
            elif k in ("bool", "tag", "ver"):
                h = be(r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 127, 128, 129, 254, 255, int(h, 16) | 0x80, int(h, 16) + 16]), 1)
            elif k == "count":
                h = be(r.choice([0, 1, 2, 127, 254, 255, int(h, 16) + 1]), 1)
            elif k == "time":
                h = rev(be(r.choice([TIME_MIN - 1, TIME_MIN, TIME_MAX, TIME_MAX + 1, 1 << 62, -(1 << 63), (1 << 63) - 1, -1, -(1 << 62), 253402300800 + 86400, 1 << 38, 1 << 40]), 8))
            elif k == "dur":
                h = rev(be(r.choice([1 << 63, (1 << 64) - 1, (1 << 63) - 1, (1 << 63) + 1, 1 << 62]), 8))
            elif k == "small":
                h = rev(be(r.choice([1 << 8, 1 << 15, (1 << 15) - 1, 1 << 16, (1 << 16) - 1, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 32) - 1, 1 << 63, -1, -(1 << 15), -(1 << 15) - 1,
                                     -(1 << 31), -(1 << 31) - 1, (1 << 48) + 5]), 8))
            elif k == "str":
                bad = r.choice(["ff", "c0af", "80", "e282", "eda080", "f4908080", "c1bf", "f8888080", "61c2", "f09f98", "f0808080", "efbfbf", "f48fbfbf"])
                return "".join(x for _, x in toks[:i - 1]) + rev(be(len(bad) // 2, 8)) + bad + "".join(x for _, x in toks[i + 1:])
            elif k == "mask":
                n = int(rev(h), 16)
                h = rev(be(r.choice([0, n ^ (1 << r.randrange(11)), n | (1 << r.randrange(11, 64)), (1 << 64) - 1, n << 8, n | 1 << 63]), 8))
            toks[i] = (k, h)
            return "".join(x for _, x in toks)
        b = bytearray.fromhex("".join(x for _, x in toks))
        k = r.randrange(4)
        if k == 0 or not b:
            b += self.nbytes(r.randint(1, 9))
        elif k == 1:
            b = b[:r.randrange(len(b))]
        elif k == 2:
            b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        else:
            i = r.randrange(len(b))
            b[i:i + 8] = self.nbytes(8)
        return bytes(b).hex()

    # ------------------------------------------------------------------ documents
    def S(self, s):
        return dict(k="s", v=(s if isinstance(s, bytes) else s.encode()).hex())

    def N(self, n):
        return dict(k="n", v=str(n))

    def doc(self, t, x):
        t = self.T(t)
        k = t["k"]
        if k in ("hash", "sig", "leaf"):
            return self.S(x)
        if k == "addr":
            return self.S(addr_text(x))
        if k == "pk":
            return self.S("ed25519:" + x)
        if k == "struct":
            return self.obj(t["f"], x)
        if k == "sfo":
            return self.obj([F("value", dict(k="u64")), F("address", dict(k="addr"))], x)
        if k == "vec":
            return dict(k="a", e=[self.doc(t["e"], e) for e in x])
        if k in ("u8", "u64", "usize", "dur"):
            return self.N(int(x, 16))
        if k == "bool":
            return dict(k="b", v=x)
        if k in ("cur", "work"):
            return self.S(str(int(x, 16)))
        if k == "bytes":
            return self.S(base64.b64encode(bytes.fromhex(x)))
        if k == "str":
            return self.S(bytes.fromhex(x))
        if k == "time":
            return self.S(time_text(x))
        if k == "opt":
            return self.doc(t["e"], x[0]) if x else dict(k="z")
        if k == "ukey":
            return self.S(bytes.fromhex(x["algorithm"]).rstrip(b"\0") + b":" + x["key"].encode())
        if k == "txn2":
            return self.obj(self.m["txn2"], x)
        if k == "accum":
            return self.obj(self.m["accum"], x)
        if k == "state":
            return self.obj(self.m["state"], x)
        if k == "policy":
            ty = x["k"]
            if ty == "thresh":
                p = dict(k="o", m=[self.M("n", self.N(int(x["n"], 16))), self.M("of", dict(k="a", e=[self.doc(t, q) for q in x["of"]]))])
            elif ty == "uc":
                p = self.doc("UnlockConditions", x["v"])
            elif ty in ("above", "after"):
                p = self.N(int(x["v"], 16))
            else:
                p = self.doc(dict(pk=dict(k="pk"), h=dict(k="hash"), opaque=dict(k="addr"))[ty], x["v"])
            return dict(k="o", m=[self.M("type", self.S(ty)), self.M("policy", p)])
        if k == "resolution":
            res = dict(renewal="v2_FileContractRenewal", storageProof="v2_StorageProof")
            d = self.doc(res[x["type"]], x["resolution"]) if x["type"] in res else dict(k="o", m=[])
            return dict(k="o", m=[self.M("parent", self.doc("v2_FileContractElement", x["parent"])), self.M("type", self.S(x["type"])),
                                  self.M("resolution", d)])
        raise KeyError(k)

    def M(self, n, d):
        return [n.encode().hex(), d]

    def obj(self, fs, x):
        return dict(k="o", m=[self.M(f[0], self.doc(f[1], x[f[0]])) for f in fs if f[2] == "req" or x[f[0]] not in ([], "")])

    def nodes(self, d, path=()):
        out = [path]
        if d["k"] == "a":
            for i, e in enumerate(d["e"]):
                out += self.nodes(e, path + (("e", i),))
        elif d["k"] == "o":
            for i, m in enumerate(d["m"]):
                out += self.nodes(m[1], path + (("m", i),))
        return out

    def at(self, d, path):
        for k, i in path:
            d = d["e"][i] if k == "e" else d["m"][i][1]
        return d

    def replace(self, d, path, new):
        if not path:
            return new
        (k, i), rest = path[0], path[1:]
        d = copy.copy(d)
        if k == "e":
            d["e"] = d["e"][:i] + [self.replace(d["e"][i], rest, new)] + d["e"][i + 1:]
        else:
            d["m"] = d["m"][:i] + [[d["m"][i][0], self.replace(d["m"][i][1], rest, new)]] + d["m"][i + 1:]
        return d

    def bad_string(self, h):
        """a string near the given one"""
        r = self.r
        try:
            s = bytes.fromhex(h).decode()
        except UnicodeDecodeError:
            s = ""
        k = r.randrange(17)
        i = r.randrange(len(s)) if s else 0
        if k == 0:
            return s[:-1]
        if k == 1:
            return s + r.choice(["0", "a", " ", "\n", "=", "\0", "00", "é"])
        if k == 2:
            return s[:i] + r.choice("gG/:@`zZ _-+=\0é€") + s[i + 1:]
        if k == 3:
            return s.upper()
        if k == 4:
            return ""
        if k == 5:
            return r.choice([" " + s, s + " ", "0x" + s, "h:" + s, "ed25519:" + s, ":" + s, "a:b:" + s])
        if k == 6 and s:
            return s[:i] + s[i + 1:]
        if k == 7 and s:
            c = s[i]
            return s[:i] + (c.upper() if c.islower() else c.lower()) + s[i + 1:]
        if k == 8:
            return s * 2
        if k == 9:
            return r.choice(["null", "é" * 32, "€" * 25 + "a", "0" * 63 + "é", "é" * 38, "ed25519:" + "é" * 32, "0" * 75 + "é", "340282366920938463463374607431768211456", "-1", "1.5", "1e3"])
        if k == 10 and ":" in s:
            return s.replace(":", r.choice(["", "::", ";", " :"]), 1)
        if k == 11 and len(s) > 1:
            return s[:i] + r.choice("0123456789abcdefABCDEF") + s[i + 1:]
        if k == 12 and len(s) > 2:
            return s[:-2]
        if k == 13 and "T" in s and s.endswith("Z"):   # a time
            return r.choice([s[:-1], s[:-1] + "z", s[:-1] + "+00:00", s.replace("T", " "), s.replace("T", "t"), s[:-1] + ".5Z", s[:-1] + "+01:00", s[:5] + "13" + s[7:],
                             s[:8] + "31" + s[10:], s[:5] + "02-30" + s[10:], s[:8] + "00" + s[10:], s[:11] + "24" + s[13:], s[:14] + "60" + s[16:], s[:17] + "60Z", s[:17] + "61Z", s[:5] + "00" + s[7:],
                             s[1:], "1" + s, "-" + s[1:], "+" + s[1:], s[:4] + "-02-29" + s[10:]])
        if k == 14 and s.endswith("="):
            return r.choice([s[:-1], s.rstrip("="), s.replace("=", "A"), s[:-2] + "B" + "=" if s[-2:] != "==" else s[:-3] + "B==", s.replace("+", "-").replace("/", "_")])
        if k == 15 and s.isdigit():
            return r.choice([s + ".0", s + " H", s + " SC", "0" + s, s + "SC", s + "KS", s + "mS", "-" + s, "+" + s, s + ".5", "." + s, s + ".", s + "e3", s + "_0", s + " XS", "0x" + s,
                             str(1 << 128), str((1 << 128) - 1), str(1 << 256), str((1 << 256) - 1), "340282366920938463463374607431768211455H", "3402823669209384.7 TS", "9" * 60])
        return s[::-1]

    def bad_number(self, v):
        r = self.r
        n = int(v) if v.lstrip("-").isdigit() else 0
        return r.choice(["-1", "-0", "0.5", "1e3", "1.0", str(n + 1), "256", "255", "65536", str(1 << 32), str((1 << 63) - 1), str(1 << 63), str((1 << 64) - 1), str(1 << 64), str(1 << 65),
                         str(n or 1) + "00000000000000000000", "-" + str(n or 1), str(1 << 128), "1E400", "-9223372036854775808", str(n) + ".0", str(n) + "e0"])

    def bad_doc(self, d):
        """a document with one node changed"""
        r = self.r
        path = r.choice(self.nodes(d))
        x = self.at(d, path)
        k = r.randrange(4)
        if x["k"] == "s" and k < 3:
            return self.replace(d, path, self.S(self.bad_string(x["v"]).encode()))
        if x["k"] == "n" and k < 3:
            return self.replace(d, path, dict(k="n", v=self.bad_number(x["v"])))
        if x["k"] == "o" and k < 3 and x["m"]:
            i = r.randrange(len(x["m"]))
            c = r.randrange(5)
            m = list(x["m"])
            if c == 0:
                del m[i]
            elif c == 1:
                m.insert(i, self.M(r.choice(["extra", "Type", "", "value2"]), dict(k="n", v="1")))
            elif c == 2:
                n = bytes.fromhex(m[i][0]).decode()
                m[i] = [r.choice([n.upper(), n + "s", n[:-1], n.capitalize(), snake(n), n[::-1]]).encode().hex(), m[i][1]]
            elif c == 3:
                r.shuffle(m)
            else:
                j = r.randrange(len(m))
                m[i], m[j] = [m[i][0], m[j][1]], [m[j][0], m[i][1]]
            return self.replace(d, path, dict(k="o", m=m))
        if x["k"] == "a" and k < 3 and x["e"]:
            i = r.randrange(len(x["e"]))
            e = list(x["e"])
            c = r.randrange(3)
            if c == 0:
                del e[i]
            elif c == 1:
                e.append(e[i])
            else:
                r.shuffle(e)
            return self.replace(d, path, dict(k="a", e=e))
        other = [dict(k="z"), dict(k="b", v=True), dict(k="n", v="0"), dict(k="n", v="-1"), dict(k="s", v=""), dict(k="a", e=[]), dict(k="o", m=[]),
                 dict(k="s", v="30"), dict(k="a", e=[x]), dict(k="n", v="1.5"), dict(k="b", v=False), dict(k="a", e=[dict(k="n", v="1"), dict(k="n", v="2")])]
        return self.replace(d, path, r.choice(other))


def snake(n):
    return "".join("_" + c.lower() if c.isupper() else c for c in n)


def addr_text(x):
    return x + b2b(bytes.fromhex(x))[:6].hex()


def time_text(h):
    n = int(h, 16)
    n = n - (1 << 64) if n >> 63 else n
    days, s = divmod(n, 86400)
    era_days = days + 719468
    era, doe = divmod(era_days, 146097)
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    y = yoe + era * 400 + (1 if m <= 2 else 0)
    return "%04d-%02d-%02dT%02d:%02d:%02dZ" % (y, m, d, s // 3600, s // 60 % 60, s % 60)


# ---------------------------------------------------------------------------------------------------- constants of the code
def _sources(repo):
    import os
    for top in ("sia/src", "sia_derive/src"):
        for d, ds, fs in os.walk(os.path.join(repo, top)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(".rs"):
                    s = open(os.path.join(d, f), encoding="utf-8", errors="replace").read()
                    yield s.split("#[cfg(test)]\nmod ")[0]


def dictionary(repo="/repo"):
    """integers and texts that occur in the sources: candidates for boundaries, as a fuzzer's dictionary is"""
    import re
    ints, words = set(), set()
    for s in _sources(repo):
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)(?:u8|u16|u32|u64|u128|usize|i32|i64|i128)?(?![\w.])", s):
            try:
                ints.add(int(m.group(1).replace("_", ""), 0))
            except ValueError:
                ints.add(int(m.group(1).replace("_", "")))
        for m in re.finditer(r"(\d+)(?:u\d+|usize)?\s*<<\s*(\d+)", s):
            if int(m.group(2)) < 300:
                ints.add(int(m.group(1)) << int(m.group(2)))
        for m in re.finditer(r"(?:u|i)(8|16|32|64)::MAX", s):
            ints.add((1 << int(m.group(1))) - 1)
        for m in re.finditer(r'"((?:[^"\\\n]){1,40})"', s):
            words.add(m.group(1))
        for m in re.finditer(r"b'(.)'|'(.)'", s):
            words.add(m.group(1) or m.group(2))
    ints.discard(0)
    return sorted(ints), sorted(w for w in words if "{" not in w and not re.fullmatch(r"[0-9a-f]{64,}", w))
