#!/usr/bin/env python3
"""selftest.py [ID...]: is the specification sharp?  Executes some behaviours of each property on the code, changes each observed result in one place
at a time, and asks TLC (SelfTest) whether the changed results would be accepted.  Prints what goes unnoticed; exit 1 if that is more than what is listed in EXPECTED."""
import copy, json, os, random, re, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib, plans

# what is left open on purpose: (op, path of the changed part) -> why
EXPECTED = [
    (r"(dec|decf|redec)", r"peak", "memory is bounded, not prescribed"),
    (r"bulk", r"n|dec\.peak", "memory is bounded, not prescribed; the count is the command's"),
    (r"jsontext", r"r.*", "a text that is not known to be malformed: only panics are excluded"),
    (r"tojson", r".*m\.swap", "members of an object in another order"),
    (r"literals", r"b", "the macro for addresses does not verify their checksums"),
    (r"verify", r"v|r:.*", "keys and signatures outside of RFC 8032's clear cases"),
    (r"decf?", r"used", "when it is an error: what a decoder has consumed by then"),
    (r"tax2", r".*", "outputs whose sum is no amount"),
    (r"params", r".*", "heights whose maturity is no height"),
    (r"fromphrase", r"r:.*", "phrases with white space at their ends"),
    (r"parse", r"r:.*|v.*", "texts that may be refused (see Maybe and Open in Text and Money)"),
    (r"fromjson", r"r:.*|.*all.*", "documents that may be refused: members that are unknown or occur twice"),
]


def mutants(r, x, path=()):
    """results that differ from x in one place"""
    if isinstance(x, dict) and x.get("k") == "n" and isinstance(x.get("v"), str):
        v = x["v"]
        for i in {0, len(v) - 1}:
            if v[i].isdigit():
                d = str((int(v[i]) + r.randrange(1, 9)) % 10)
                if v[:i] + d + v[i + 1:] != v and not (i == 0 and d == "0"):
                    yield path, dict(x, v=v[:i] + d + v[i + 1:])
    elif isinstance(x, dict):
        for k, y in x.items():
            if k == "k":
                continue
            if k == "r" and y in ("ok", "err", "none", "panic"):
                for z in ("err", "panic", "ok" if len(x) > 1 else "panic"):
                    if z != y:
                        yield path + ("r:" + z,), dict(x, r=z)
            else:
                for p, z in mutants(r, y, path + (k,)):
                    yield p, dict(x, **{k: z})
    elif isinstance(x, list):
        for i, y in enumerate(x):
            for p, z in mutants(r, y, path + (i,)):
                yield p, x[:i] + [z] + x[i + 1:]
        if path[:1] == ("live",) or len(x) == 2 and isinstance(x[0], str) and isinstance(x[1], dict):
            return                # a set of <<place, bytes>>; <<member name, document>>
        if len(x) > 1 and x[0] != x[1]:
            yield path + ("swap",), [x[1], x[0]] + x[2:]
        if x:
            yield path + ("drop",), x[:-1]
            yield path + ("twice",), x + [x[-1]]
    elif isinstance(x, bool):
        yield path, not x
    elif isinstance(x, int):
        yield path, x + 1
        if x > 0:
            yield path, x - 1
    elif isinstance(x, str) and re.fullmatch("(?:[0-9a-f]{2})+", x):
        for i in {0, len(x) - 1, r.randrange(len(x))}:
            yield path, x[:i] + "%x" % (int(x[i], 16) ^ (1 << r.randrange(4))) + x[i + 1:]


def one(pid, seed):
    r = random.Random(seed)
    plan = plans.Plan(seed * 77 + int(pid[1:]), lib.model(), 1)
    segs = getattr(plan, pid)()
    r.shuffle(segs)
    keep, n = [], 0
    for s in segs:
        s = s[:40]
        size = len(json.dumps(s))
        if size < 30000 and not any(c["op"] == "bulk" and c["n"] > 10000 for c in s) and n + size < 250000:
            keep.append(s)
            n += size
    binary = "wipe" if pid == "C24" else "interp"
    lib.build_harness("debug", (binary,))
    ev = [[json.loads(e) for e in s] for s in lib.execute(keep, "debug", binary, name=pid)]
    flat, total = [], 0
    for s in ev:
        for e in s:
            ms = list(mutants(r, e["res"]))
            if len(ms) > 12:
                ms = r.sample(ms, 12)
            e["muts"] = [m for _, m in ms]
            e["mutpaths"] = [".".join(str(q) for q in p if not isinstance(q, int)) for p, _ in ms]
            total += len(ms)
            flat.append(e)
    p = os.path.join(lib.work_dir(), "self-%s.ndjson" % pid)
    with open(p, "w") as f:
        for e in flat:
            f.write(json.dumps(e) + "\n")
    t = lib.tlc("SelfTest", "SelfTest.cfg", env=dict(TRACE=p), heap="3g", timeout=1500)
    if not t.ok:
        return pid, total, None, t.out[:300] + t.out[-2500:]
    un = []
    for a, b in re.findall(r'<<"UNNOTICED", (\d+), (\d+)>>', t.out):
        e = flat[int(a) - 1]
        un.append((e["op"], e["mutpaths"][int(b) - 1], e, e["muts"][int(b) - 1]))
    return pid, total, un, ""


def main():
    ids = sys.argv[1:] or ["C%02d" % i for i in range(1, 27)]
    lib.model()
    bad = 0
    with ThreadPoolExecutor(4) as ex:
        for pid, total, un, why in ex.map(lambda p: one(p, int(os.environ.get("VERIF_SEED", "1"))), ids):
            if un is None:
                print(pid, "failed:", why)
                bad += 1
                continue
            more = [u for u in un if not any(re.fullmatch(a, u[0]) and re.fullmatch(b, u[1]) for a, b, _ in EXPECTED)]
            print(pid, "changed results: %d, unnoticed: %d, of these not expected: %d" % (total, len(un), len(more)))
            kinds = {}
            for u in more:
                kinds.setdefault(u[:2], []).append(u)
            for k, us in sorted(kinds.items()):
                e = dict(us[0][2])
                e.pop("muts"), e.pop("mutpaths")
                print("   ", k, len(us), json.dumps(e)[:400], "->", json.dumps(us[0][3])[:200])
            bad += bool(more)
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
