"""P05..P07: memory-mapped traffic over the network."""
import collections
from dst import core, gen
from dst.props.common import *

REAL = ["AXI-MM adapters (aximm_slave_adapter, aximm_master_adapter)", "radsim_noc", "Booksim network",
        "RADSimDesignContext (address map, placement, clocks)", "config.py", "SystemC kernel"]
STUB = ["user modules (plan-driven AXI-MM initiators and targets)", "order of coincident clock edges (seeded scheduler)"]
ASSUME = ["one memory-mapped port per network node, and an adapter clock faster than the module's",
          "adapter FIFOs and virtual-channel buffers hold at least one packet",
          "a target absorbs the beat already on its way when it lowers ready",
          "initiator and target declare the same data width; responses carry the request's user field"]


class Mm:
    def __init__(self, plan, h):
        self.ops = {}
        for e in plan["evts"]:
            w = e.split()
            if w[0] == "op":
                self.ops[int(w[3])] = dict(ini=w[2], kind=w[4], tgt=w[7], len=int(w[9]))
        self.uid = {}
        for l in h.kind("U"):
            self.uid[int(l[3]) & 0xff] = l[2]
        self.req, self.got, self.rsp, self.back = [], [], [], []
        for l in h.lines:
            if l[0] == ">":
                if l[4] in ("R", "B"):
                    u = int(l[5], 16)
                    self.rsp.append(dict(t=int(l[1]), port=l[3], ch=l[4], beat=int(l[6]), h=l[7], last=int(l[9]), u=u))
                else:
                    self.req.append(dict(t=int(l[1]), port=l[3], ch=l[4], op=int(l[5]), beat=int(l[6]), h=l[7], last=int(l[9])))
            elif l[0] == "<":
                u = int(l[5], 16)
                d = dict(t=int(l[1]), port=l[3], ch=l[4], h=l[6], last=int(l[8]), u=u)
                (self.back if l[4] in ("R", "B") else self.got).append(d)

    @staticmethod
    def op_of(u):
        return u & 0xffffff

    @staticmethod
    def beat_of(u):
        return (u >> 32) & 0xffff

    def requests(self, finished):
        """Every accepted request reaches the target its address names, once,
        intact and in the order of issue of its initiator on its channel."""
        out = []
        want = collections.defaultdict(list)     # (ini, tgt, ch) -> issued
        issue = {}
        for q in self.req:
            tgt = self.ops[q["op"]]["tgt"]
            k = (q["port"], tgt, q["ch"])
            issue[(q["ch"], q["op"], q["beat"])] = (k, len(want[k]), q)
            want[k].append(q)
        seen = set()
        last = {}
        for g in self.got:
            key = (g["ch"], self.op_of(g["u"]), self.beat_of(g["u"]) if g["ch"] == "W" else 0)
            e = issue.get(key)
            if e is None:
                out.append(("invented", "%d ps: %s received %s of operation %d (beat %d) that was not issued" % (
                    g["t"], g["port"], key[0], key[1], key[2])))
                continue
            k, pos, q = e
            name = "%s of operation %d beat %d (%s -> %s)" % (key[0], key[1], key[2], k[0], k[1])
            if g["t"] <= q["t"]:
                out.append(("invented", "%s arrived before it was issued" % name))
            if g["port"] != k[1]:
                out.append(("misdelivered", "%s arrived at %s" % (name, g["port"])))
                continue
            if g["h"] != q["h"]:
                out.append(("corrupted", "%s changed on the way" % name))
            if key in seen:
                out.append(("duplicated", "%s delivered again at %d ps" % (name, g["t"])))
                continue
            seen.add(key)
            if pos < last.get(k, -1):
                out.append(("reordered", "%s overtaken" % name))
            last[k] = max(pos, last.get(k, -1))
        if finished:
            for key, (k, pos, q) in issue.items():
                if key not in seen:
                    out.append(("lost", "%s of operation %d beat %d (%s -> %s) accepted at %d ps never arrived" % (
                        key[0], key[1], key[2], k[0], k[1], q["t"])))
        return out

    def responses(self, finished):
        """Every response beat returns to the initiator of its request, once,
        intact, in the order the target issued it."""
        out = []
        q = collections.defaultdict(list)
        for x in self.rsp:
            ini = self.uid.get((x["u"] >> 24) & 0xff)
            q[(x["port"], ini, x["ch"])].append(x)
        pos = collections.Counter()
        index = {}
        for k, xs in q.items():
            for n, x in enumerate(xs):
                index.setdefault((k[1], x["ch"], x["h"]), []).append((k, n, x))
        used = collections.Counter()
        last = {}
        for g in self.back:
            op = self.ops.get(self.op_of(g["u"]))
            e = index.get((g["port"], g["ch"], g["h"]))
            what = "%s response of operation %d" % (g["ch"], self.op_of(g["u"]))
            if not e:
                other = [k for (p, c, hh), v in index.items() if hh == g["h"] and c == g["ch"] for k, _, _ in v]
                if other:
                    out.append(("misdelivered", "%s for %s arrived at %s" % (what, other[0][1], g["port"])))
                else:
                    out.append(("corrupted", "%d ps: %s got a %s that no target sent like that" % (g["t"], g["port"], what)))
                continue
            n = used[(g["port"], g["ch"], g["h"])]
            used[(g["port"], g["ch"], g["h"])] += 1
            if n >= len(e):
                out.append(("duplicated", "%s delivered again to %s at %d ps" % (what, g["port"], g["t"])))
                continue
            k, p, x = e[n]
            if g["t"] <= x["t"]:
                out.append(("invented", "%s arrived before it was sent" % what))
            if p < last.get(k, -1):
                out.append(("reordered", "%s from %s to %s overtaken" % (what, k[0], k[1])))
            last[k] = max(p, last.get(k, -1))
        if finished:
            for (ini, ch, hh), v in index.items():
                miss = len(v) - used[(ini, ch, hh)]
                if miss > 0:
                    x = v[-1][2]
                    out.append(("lost", "%s response of operation %d accepted from %s at %d ps never reached %s" % (
                        ch, self.op_of(x["u"]), x["port"], x["t"], ini)))
        return out

    def expected(self):
        """Operations that did not get their full answer."""
        c = collections.Counter((self.op_of(g["u"]), g["ch"]) for g in self.back)
        out = []
        for n, o in self.ops.items():
            need = o["len"] + 1 if o["kind"] == "R" else 1
            if c[(n, "R" if o["kind"] == "R" else "B")] < need:
                out.append((n, o))
        return out


class MmProp(core.Prop):
    bins = ["sys_a", "sys_c", "sys_d", "sys_e"]
    real = REAL
    stub = STUB
    assumptions = ASSUME
    quick_n = 2000
    nontrivial = ("one run = one random system of initiators and targets (topology, clocks and ratios, FIFO and VC sizes, placement), "
                  "workload, response delays and per-channel stall pattern drawn from the seed; non-trivial when responses "
                  "came back and some channel was stalled or several clocks coincided")

    def stats(self, plan, h):
        c = base_counters(h)
        n = collections.Counter((l[0] + l[4]) for l in h.lines if l[0] in "<>")
        c["requests_accepted"] += n[">AR"] + n[">AW"] + n[">W"]
        c["responses_delivered"] += n["<R"] + n["<B"]
        c["stall_windows_planned"] += sum(1 for e in plan["evts"] if e.startswith(("stall", "duty")))
        nt = n["<R"] + n["<B"] > 0 and (any(v for k, v in c.items() if k.endswith("stalled_cycles")) or c["coincident_edge_groups"] > 0)
        return c, sched_sig(h), nt, h.sim_ps * 1e-12


class P05(MmProp):
    id = "P05"

    def gen(self, r, tier):
        return gen.aximm_system(r, heavy=r.random() < 0.4).plan()

    def check(self, plan, h):
        return Mm(plan, h).requests(h.end in ("done", "quiet")) + crashed(h)


class P06(MmProp):
    id = "P06"

    def gen(self, r, tier):
        return gen.aximm_system(r, heavy=r.random() < 0.4).plan()

    def check(self, plan, h):
        return Mm(plan, h).responses(h.end in ("done", "quiet")) + crashed(h)


class P07(MmProp):
    id = "P07"

    def gen(self, r, tier):
        return gen.aximm_system(r, heavy=True, nops=(30, 150)).plan()

    def check(self, plan, h):
        v = crashed(h)
        m = Mm(plan, h)
        left = m.expected()
        if h.end in ("quiet", "max") and left:
            for n, o in left[:3]:
                v.append(("stuck" if h.end == "quiet" else "slow", "operation %d (%s %s -> %s, %d beats) is not answered although all "
                          "stalls ended; %d operations open" % (n, o["kind"], o["ini"], o["tgt"], o["len"] + 1, len(left))))
        return v


PROPS = [P05(), P06(), P07()]
