"""P08..P11: memory controllers."""
import collections
from dst import core, gen
from dst.props.common import *

MASK = ~(0xffff << 32)


class MemHist:
    """Operations of a history against memories."""

    def __init__(self, plan, h):
        self.ops = {}
        for e in plan["evts"]:
            w = e.split()
            if w[0] == "op":
                self.ops[int(w[3])] = dict(n=int(w[3]), ini=w[2], kind=w[4], tgt=w[7], off=int(w[8]),
                                            len=int(w[16]) - 1 if len(w) > 16 else int(w[9]))
        self.uid = {int(l[3]) & 0xff: l[2] for l in h.kind("U")}
        self.init = {}
        for l in h.kind("I"):
            self.init[("%s.mem_channel_%s" % (l[2], l[3]), int(l[4]))] = l[5]
        self.word = {}
        for l in h.kind("M"):
            for c in range(int(l[3])):
                self.word["%s.mem_channel_%d" % (l[2], c)] = int(l[4])
        port = plan["meta"].get("port") or {}
        for o in self.ops.values():
            if o["tgt"] == "-":
                o["tgt"] = "mem%d.mem_channel_%d" % tuple(port[o["ini"]])
            o["word"] = self.word.get(o["tgt"], 64)
        self.issue = collections.defaultdict(list)    # (ini, ch) -> [(t, op, beat, dh)]
        self.back = collections.defaultdict(list)     # (ini, ch) -> [(t, user, dh, last)]
        for l in h.lines:
            if l[0] == ">" and l[4] in ("AR", "AW", "W"):
                self.issue[(l[3], l[4])].append((int(l[1]), int(l[5]), int(l[6]), l[8]))
            elif l[0] == "<" and l[4] in ("R", "B"):
                self.back[(l[3], l[4])].append((int(l[1]), int(l[5], 16), l[7], int(l[8])))

    def framing(self, finished):
        """Responses per request: who, how many, in what order, last flags."""
        out = []
        base = {}
        for u, p in self.uid.items():
            base[p] = u
        for (ini, ch), xs in sorted(self.back.items()):
            tgts = {o["tgt"] for o in self.ops.values() if o["ini"] == ini}
            for tgt in sorted(tgts):
                mine = []
                for x in xs:
                    o = self.ops.get(x[1] & 0xffffff)
                    if o is None or (x[1] >> 24) & 0xff != base.get(ini):
                        if tgt == min(tgts):
                            out.append(("foreign", "%d ps: %s received a %s response with user tag %x, which is not one of its requests" % (x[0], ini, ch, x[1])))
                        continue
                    if (o["kind"] == "R") != (ch == "R"):
                        if tgt == min(tgts):
                            out.append(("foreign", "%d ps: %s received a %s response tagged for operation %d, a %s" % (x[0], ini, ch, o["n"], "read" if o["kind"] == "R" else "write")))
                        continue
                    if o["tgt"] == tgt:
                        mine.append((x, o))
                if ch == "R":
                    want = []
                    for t, n, b, dh in self.issue[(ini, "AR")]:
                        if self.ops[n]["tgt"] == tgt:
                            want += [(n, j == self.ops[n]["len"], t) for j in range(self.ops[n]["len"] + 1)]
                else:
                    want = [(n, True, t) for t, n, b, dh in self.issue[(ini, "W")]
                            if self.ops[n]["tgt"] == tgt and b == self.ops[n]["len"]]
                for k, (x, o) in enumerate(mine):
                    if k >= len(want):
                        out.append(("extra", "%d ps: %s received one %s response of operation %d more than its requests ask for" % (x[0], ini, ch, o["n"])))
                        break
                    n, last, t = want[k]
                    if x[0] < t:
                        out.append(("early", "%s response of operation %d before the request" % (ch, n)))
                        break
                    if o["n"] != n:
                        out.append(("order", "%d ps: %s %s response number %d belongs to operation %d, expected operation %d" % (x[0], ini, ch, k, o["n"], n)))
                        break
                    if ch == "R" and x[3] != last:
                        out.append(("last", "%d ps: %s read beat number %d of operation %d has last=%d" % (x[0], ini, k, n, x[3])))
                        break
                else:
                    if finished and len(mine) < len(want):
                        out.append(("missing", "%s got %d of %d %s responses from %s" % (ini, len(mine), len(want), ch, tgt)))
        return out

    def values(self):
        """Every read beat against the history of its word."""
        out = []
        acks = {}
        for (ini, ch), xs in self.back.items():
            if ch == "B":
                for t, u, dh, last in xs:
                    acks.setdefault((ini, u & 0xffffff), t)
        wr = collections.defaultdict(list)            # (tgt, addr) -> [(t, op, dh, ack)]
        known = collections.defaultdict(set)          # value -> places
        for (ini, ch), xs in self.issue.items():
            if ch == "W":
                for t, n, b, dh in xs:
                    o = self.ops[n]
                    a = o["off"] + b * o["word"]
                    wr[(o["tgt"], a)].append((t, n, dh, acks.get((ini, n))))
                    known[dh].add((o["tgt"], a))
        for k in wr:
            wr[k].sort(key=lambda w: w[0])
        for k, v in self.init.items():
            known[v].add(k)
        for (ini, ch), xs in self.back.items():
            if ch != "R":
                continue
            issued = {n: t for t, n, b, dh in self.issue[(ini, "AR")]}
            cnt = collections.Counter()
            for t, u, dh, last in xs:
                n = u & 0xffffff
                o = self.ops.get(n)
                if o is None or n not in issued:
                    continue
                j = cnt[n]
                cnt[n] += 1
                if j > o["len"]:
                    continue
                key = (o["tgt"], o["off"] + j * o["word"])
                ws = wr.get(key, [])
                lo = -1
                for i, w in enumerate(ws):
                    if w[3] is not None and w[3] <= issued[n]:
                        lo = i
                allowed = {w[2] for w in ws[max(lo, 0):] if w[0] < t}
                if lo < 0:
                    if key in self.init:
                        allowed.add(self.init[key])
                    elif dh not in allowed:
                        # never-written content is unspecified, but must not be someone else's data
                        if dh in known and (key not in known[dh] or all(w[0] >= t for w in ws if w[2] == dh)):
                            out.append(("alien", "%d ps: read %d beat %d of %s+%x returned data of %s, where nothing was ever written" % (
                                t, n, j, key[0], key[1], sorted(known[dh])[0])))
                        continue
                if dh not in allowed:
                    what = "unknown data"
                    if dh in known:
                        p = sorted(known[dh])[0]
                        what = "an overwritten value" if key in known[dh] else "data of %s+%x" % p
                    elif key not in self.init and not ws:
                        continue
                    out.append(("stale", "%d ps: read %d beat %d of %s+%x returned %s" % (t, n, j, key[0], key[1], what)))
        return out

    def open_ops(self):
        got = collections.Counter()
        for (ini, ch), xs in self.back.items():
            for t, u, dh, last in xs:
                got[(u & 0xffffff, ch)] += 1
        return [o for n, o in sorted(self.ops.items())
                if got[(n, "R" if o["kind"] == "R" else "B")] < (o["len"] + 1 if o["kind"] == "R" else 1)]


REAL = ["mem_controller", "DRAMsim3 (memory system, controller, command queues, refresh, timing, address mapping)", "config.py", "SystemC kernel"]
STUB = ["initiators (plan-driven, one-cycle request pulses as the network adapters make them)", "order of coincident clock edges (seeded scheduler)"]


class MemProp(core.Prop):
    bins = ["sys_a"]
    real = REAL
    stub = STUB
    quick_n = 1500
    assumptions = ["accesses are as wide as a memory word, aligned, incrementing and within the memory's capacity",
                   "request queues hold more than the 16 requests the controller reserves",
                   "controller width and clock match the memory's burst (the controller refuses others)"]
    nontrivial = ("one run = one or two controllers over a shipped DRAM configuration (half of them with other policies), random "
                  "bursts over colliding words, response stalls and dependences between operations; non-trivial when data came "
                  "back and reads and writes overlapped or responses were stalled")

    def stats(self, plan, h):
        c = base_counters(h)
        n = collections.Counter((l[0] + l[4]) for l in h.lines if l[0] in "<>")
        c["read_beats"] += n["<R"]
        c["write_beats"] += n[">W"]
        c["write_acks"] += n["<B"]
        c["stall_windows_planned"] += sum(1 for e in plan["evts"] if e.startswith(("stall", "duty")))
        for d in plan["meta"]["dram"]:
            c["dram_variant" if d[0] == "V" else "dram_shipped"] += 1
        nt = n["<R"] + n["<B"] > 0 and (n["<R"] * n["<B"] > 0 or c["mm_R_stalled_cycles"] + c["mm_B_stalled_cycles"] > 0)
        return c, sched_sig(h), nt, h.sim_ps * 1e-12


class P08(MemProp):
    id = "P08"

    def gen(self, r, tier):
        return gen.memory_system(r, heavy=r.random() < 0.3, wide=r.choice([0, 0, 0, 0.2])).plan()

    def check(self, plan, h):
        return MemHist(plan, h).values() + crashed(h)


class P09(MemProp):
    id = "P09"

    def gen(self, r, tier):
        return gen.memory_system(r, heavy=True, wide=r.choice([0, 0, 0.3])).plan()

    def check(self, plan, h):
        return MemHist(plan, h).framing(h.end in ("done", "quiet")) + crashed(h)


class P10(MemProp):
    id = "P10"

    def gen(self, r, tier):
        return gen.memory_system(r, heavy=True, big=r.random() < 0.5, stream=0.5, nops=(30, 120)).plan()

    def check(self, plan, h):
        v = crashed(h)
        left = MemHist(plan, h).open_ops()
        if h.end in ("quiet", "max") and left:
            for o in left[:3]:
                v.append(("stuck" if h.end == "quiet" else "slow", "operation %d (%s %d beats, %s -> %s) is not complete although "
                          "responses are accepted; %d operations open" % (o["n"], o["kind"], o["len"] + 1, o["ini"], o["tgt"], len(left))))
        return v


class P11(MemProp):
    id = "P11"
    quick_n = 900
    bins = ["sys_a", "sys_d", "sys_e"]
    real = REAL + ["AXI-MM adapters", "Booksim network", "RADSimDesignContext"]
    stub = ["initiators (plan-driven)", "order of coincident clock edges (seeded scheduler)"]
    assumptions = MemProp.assumptions + ["each memory channel is written by one initiator (several: known finding KF2)"]

    def gen(self, r, tier):
        many = r.random() < 0.04
        return gen.memory_noc_system(r, heavy=r.random() < 0.5, writers="many" if many else "one").plan()

    def check(self, plan, h):
        m = MemHist(plan, h)
        fin = h.end in ("done", "quiet")
        v = crashed(h) + m.values() + m.framing(fin)
        left = m.open_ops()
        if h.end in ("quiet", "max") and left:
            for o in left[:3]:
                v.append(("stuck" if h.end == "quiet" else "slow", "operation %d (%s %d beats, %s -> %s) is not complete although "
                          "responses are accepted; %d operations open" % (o["n"], o["kind"], o["len"] + 1, o["ini"], o["tgt"], len(left))))
        if plan["meta"]["writers"] == "many":
            v = [(k if k == "crash" else "multiwriter", "%s (%s)" % (t, k)) for k, t in v]
        return v


PROPS = [P08(), P09(), P10(), P11()]
