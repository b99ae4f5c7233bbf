#!/usr/bin/env python3
"""check.py ID: decides one property (see DESIGN.md).  Exit 0: held; 1: VIOLATION; 2: the check itself failed."""
import json, os, re, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib, plans, models
from lib import ToolError, log

KNOWN = os.path.join(lib.VERIF, "known-findings.txt")
PEAK = re.compile(r'"peak":(\d+)')


def plain(e):
    """the event without how much memory was used, where that is below every bound"""
    return PEAK.sub(lambda m: '"peak":0' if int(m.group(1)) <= 65536 else m.group(0), e)


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.mc, self.modes, self.samples, self.ops = [], {}, [], {}
        self.rejections = []

    def note(self, mode, segs):
        m = self.modes.setdefault(mode, dict(segments=0, events=0))
        m["segments"] += len(segs)
        m["events"] += sum(map(len, segs))

    def validate(self, segs, mode, binary, profile, source=None):
        rej, st, tr = lib.validate(segs)
        self.states += st
        self.transitions += tr
        self.traces += len(segs)
        self.events += sum(map(len, segs))
        for r in rej:
            self.rejections.append((mode, binary, profile, r))
        return not rej

    def run(self, segs, binary, release, parallel):
        accepted = None
        lib.build_harness("debug", (binary,))
        if release:
            lib.build_harness("release", (binary,))
        ev = lib.execute(segs, "debug", binary)
        self.note("debug", ev)
        for s in ev:
            for e in s:
                op = re.match(r'\{"op":"([^"]+)"', e)
                if op:
                    self.ops[op.group(1)] = self.ops.get(op.group(1), 0) + 1
        if not self.samples:
            some = sorted((e for s in ev[:40] for e in s if len(e) < 1500), key=len)
            self.samples = [json.loads(e) for e in some[-4:]]
        if not self.validate(ev, "debug", binary, "debug"):
            return False
        accepted = [[plain(e) for e in s] for s in ev]
        # other ways to run the same behaviours: what is new in them is validated too
        ways = ([("release", dict(profile="release"))] if release else []) + ([("parallel", dict(profile="debug", parallel=8))] if parallel else [])
        ways += [("release-parallel", dict(profile="release", parallel=8))] if parallel and release and self.tier == "thorough" else []
        for mode, kw in ways:
            ev2 = lib.execute(segs, binary=binary, **kw)
            self.note(mode, ev2)
            new = [s for i, s in enumerate(ev2) if i >= len(accepted) or [plain(e) for e in s] != accepted[i]]
            self.modes[mode]["differing"] = self.modes[mode].get("differing", 0) + len(new)
            if new and not self.validate(new, mode, binary, kw["profile"]):
                return False
        return True

    def go(self):
        pid = self.pid
        binary = "wipe" if pid == "C24" else "interp"
        segs, mc = models.run(pid, self.tier, self.seed)
        for m in mc:
            self.mc.append(m)
            self.states += m["states"]
            self.transitions += m["transitions"]
        model = lib.model()
        quick = self.tier == "quick"
        rounds = 1 if quick else 1000
        budget = 840 if quick else int(os.environ.get("VERIF_BUDGET", "600"))
        k = 0
        while k < rounds and (k == 0 or time.time() - self.t0 < budget):
            plan = plans.Plan(self.seed * 1000003 + k * 101 + int(pid[1:]), model, 1 if quick else 4)
            got = getattr(plan, pid)()
            if not self.run(segs + got, binary, True, binary == "interp" and pid != "C16"):
                break
            segs = []
            k += 1
        self.rounds = k
        return self.finish()

    def finish(self):
        pid = self.pid
        known = known_findings(pid)
        shown, bad = set(), []
        for mode, binary, profile, r in self.rejections:
            hit = [t for rx, t in known if rx.search(r.event)]
            if hit:
                shown.add(hit[0])
            else:
                bad.append((mode, binary, profile, r))
        for t in sorted(shown):
            print("KNOWN-FINDING: property=%s %s" % (pid, t))
        paths = []
        d = os.path.join(lib.BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        for i, (mode, binary, profile, r) in enumerate(bad[:3]):
            p = os.path.join(d, "%s-%s-%d-%d.json" % (pid, self.tier, self.seed, i))
            with open(p, "w") as f:
                json.dump(dict(property=pid, mode=mode, binary=binary, profile=profile, rejected_at=r.index, why=r.why, event=r.event, segment=r.segment[:r.index + 1]), f, indent=1)
            paths.append(p)
            log("rejected (%s): %s %s" % (mode, r.event[:700], r.why))
        coverage = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces, events_validated=self.events, events_by_kind=self.ops,
                        executions=self.modes, models=self.mc, rounds=getattr(self, "rounds", 0), samples=self.samples)
        ev = dict(property=pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=coverage, wall_s=round(time.time() - self.t0, 1), violations=len(bad),
                  assumptions=["the specification says what the protocol says; BLAKE2b, SHA-256 and Ed25519 are computed for it by Java overrides written from their standards",
                               "the code is decided on the executions of this run (behaviours generated from the models, and seeded random behaviours), not on all executions"])
        os.makedirs(os.path.join(lib.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(lib.VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for p in paths:
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1 if bad else 0


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    try:
        rc = Check(pid, tier, seed).go()
    except ToolError as e:
        log("tool error: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
