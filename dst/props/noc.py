"""P21, P22, P28: the network fabric driven through its injection and ejection channels."""
import collections, itertools
from dst import core, gen
from dst.props.common import *

REAL = ["Booksim network, routers, allocators, arbiters, buffers, channels, routing functions", "config.py (network configuration file)"]
STUB = ["terminals (plan-driven injection with credits, consumption with stalls and late credits)", "order of terminals within a cycle (seeded)"]


class Fab:
    """What the terminals saw."""

    def __init__(self, plan, h):
        self.pk = {}
        for e in plan["evts"]:
            w = e.split()
            if w[0] == "p":
                self.pk[int(w[7])] = dict(at=int(w[1]), src=int(w[2]), dst=int(w[3]), type=int(w[4]), vc=int(w[5]), len=int(w[6]), tag=int(w[7]))
        self.inj = collections.defaultdict(list)
        self.ej = collections.defaultdict(list)
        self.order = []
        self.ends = []
        for l in h.lines:
            if l[0] == "I":
                self.inj[int(l[3])].append((int(l[1]), int(l[4]), l[5], int(l[6]), int(l[2])))
            elif l[0] == "E":
                x = dict(t=int(l[1]), node=int(l[2]), pid=int(l[3]), h=l[4], head=l[5] == "1", tail=l[6] == "1", vc=int(l[7]), type=int(l[8]),
                         src=int(l[9]), dest=int(l[10]), iface=int(l[11]), hops=int(l[12]))
                self.ej[x["pid"]].append(x)
                self.order.append(x)
        self.bad = [l for l in h.lines if l[0] == "X"]
        self.open = [l for l in h.lines if l[0] == "O"]
        g = h.kind("G")
        self.range = [tuple(map(int, a.split("-"))) for a in g[0][4:]] if g else []

    def ordered(self, inf, p):
        """Every packet of this source, destination and class takes the same channels and virtual channels."""
        if not inf["det"]:
            return False
        if inf["topo"] == "torus":
            if inf["per"] != 2:
                return False
            k, a, b = inf["dim"], p["src"], p["dst"]
            return all(2 * (abs(x - y)) != k for x, y in ((a % k, b % k), (a // k, b // k)))
        return inf["per"] == 1


class FabProp(core.Prop):
    bins = ["nocdrv"]
    real, stub = REAL, STUB
    sig_rule = "hash of the complete history of flits in and out"
    assumptions = ["terminals keep to credit-based flow control and inject the flits of one packet on one virtual channel of its class without "
                   "interleaving other packets on it", "routing functions get the number of virtual channels they need"]

    def stats(self, plan, h):
        c = base_counters(h)
        inf = plan["meta"]["inf"]
        for k in ("topo", "rf", "vca", "swa"):
            c["%s_%s" % (k, inf[k])] += 1
        c["pattern_" + plan["meta"]["pat"]] += 1
        for e in plan["evts"]:
            w = e.split()[0]
            if w != "p":
                c["fault_" + {"stall": "terminal_stops_consuming", "duty": "terminal_slow", "cstall": "credits_late",
                              "istall": "injection_paused"}[w]] += 1
        n = sum(1 for l in h.lines if l[0] == "E" and l[6] == "1")
        c["packets_delivered"] += n
        return c, h.sha, n > 0, h.sim_ps * 1e-9


class P21(FabProp):
    id = "P21"
    quick_n = 2500
    nontrivial = ("one run = one random network with 30-400 packets, terminals that stop, slow down or return credits late, run until drained; "
                  "non-trivial when packets were delivered")

    def gen(self, r, tier):
        if r.random() < 0.12:
            s = gen.fabric_knot(r)
            s.head = [l for l in s.head if not l.startswith("cycles")]
        else:
            s = gen.fabric_system(r, (30, 400) if tier == "quick" or r.random() < 0.6 else (300, 2000))
        p = s.plan()
        p["bin"] = "nocdrv"
        p["head"] = [l for l in p["head"] if not l.startswith("rads")] + ["cycles 60000"]
        return p

    def check(self, plan, h):
        v = crashed(h)
        if not h.kind("G"):
            return v
        x = Fab(plan, h)
        inf = plan["meta"]["inf"]
        for l in x.bad:
            v.append((l[1], "cycle %s node %s virtual channel %s: %s" % (l[2], l[3], l[4], {
                "badcredit": "a credit for no virtual channel", "extracredit": "more credits than slots came back",
                "badvc": "a flit on no virtual channel", "overrun": "more flits than slots in the terminal"}.get(l[1], l[1]))))
        run = {}
        for e in x.order:
            p = x.pk.get(e["pid"])
            if p is None:
                v.append(("invented", "cycle %d node %d: flit of unknown packet %d" % (e["t"], e["node"], e["pid"])))
                continue
            if e["node"] != p["dst"]:
                v.append(("misrouted", "packet %d to node %d left at node %d in cycle %d" % (e["pid"], p["dst"], e["node"], e["t"])))
            if e["type"] != p["type"] or e["src"] != p["src"] or e["dest"] != p["dst"] or e["iface"] != e["pid"] % 7:
                v.append(("altered", "packet %d: header fields changed" % e["pid"]))
            b, t = x.range[p["type"]]
            if not b <= e["vc"] <= t:
                v.append(("class", "packet %d of class %d left on virtual channel %d" % (e["pid"], p["type"], e["vc"])))
            # one packet at a time on a virtual channel
            k = (e["node"], e["vc"])
            if e["head"]:
                if k in run:
                    v.append(("interleaved", "packet %d begins on node %d VC %d within packet %d" % (e["pid"], k[0], k[1], run[k])))
                run[k] = e["pid"]
            elif run.get(k) != e["pid"]:
                v.append(("interleaved", "flit of packet %d on node %d VC %d within packet %s" % (e["pid"], k[0], k[1], run.get(k))))
            if e["tail"]:
                run.pop(k, None)
        last = {}
        for pid, i in x.inj.items():
            p, e = x.pk[pid], x.ej.get(pid, [])
            want = [a[2] for a in i]
            got = [a["h"] for a in e]
            if got != want[:len(got)]:
                v.append(("content", "packet %d: flits %s left, %s were sent" % (pid, got[:5], want[:5])))
                continue
            for j, a in enumerate(e):
                if a["head"] != (j == 0) or a["tail"] != (j == p["len"] - 1):
                    v.append(("altered", "packet %d flit %d: head %d tail %d" % (pid, j, a["head"], a["tail"])))
            if h.end in ("done", "quiet") and len(got) < len(want):
                v.append(("lost", "packet %d from node %d to %d: %d of %d flits left the network" % (pid, p["src"], p["dst"], len(got), len(want))))
        if not v:
            # injection order
            exp = collections.defaultdict(list)
            for pid in sorted(x.inj, key=lambda q: x.inj[q][0][0]):
                p = x.pk[pid]
                exp[(p["src"], p["dst"], p["type"])].append(pid)
            got = collections.defaultdict(list)
            for e in x.order:
                if e["tail"]:
                    p = x.pk[e["pid"]]
                    got[(p["src"], p["dst"], p["type"])].append(e["pid"])
            for k, g in got.items():
                if x.ordered(inf, dict(src=k[0], dst=k[1])) and g != exp[k][:len(g)]:
                    v.append(("order", "from node %d to %d class %d: left %s, sent %s" % (k[0], k[1], k[2], g[:8], exp[k][:8])))
        if h.end == "done" and not v:
            for l in x.open:
                v.append(("credit", "node %s virtual channel %s: %s credits never came back" % (l[1], l[2], l[3])))
        return v


class P22(FabProp):
    id = "P22"
    quick_n = 2500
    nontrivial = ("one run = one random network under load (short bursts up to saturation, with terminals that stop for a while), run until "
                  "drained, or saturated for a long time; non-trivial when packets were delivered")

    def gen(self, r, tier):
        x = r.random()
        if x < 0.25:
            s = gen.fabric_knot(r)
        elif x < 0.75:
            s = gen.fabric_system(r, (60, 500) if tier == "quick" or r.random() < 0.6 else (300, 3000))
            s.head.append("cycles 400000")
        else:
            s = gen.fabric_contention(r)
        p = s.plan()
        p["bin"] = "nocdrv"
        p["head"] = [l for l in p["head"] if not l.startswith("rads")]
        return p

    def check(self, plan, h):
        v = crashed(h)
        if not h.kind("G"):
            return v
        x = Fab(plan, h)
        m = plan["meta"]
        if h.end == "quiet":
            left = [p for p in x.inj if len(x.ej.get(p, [])) < x.pk[p]["len"]]
            v.append(("stuck", "no flit moved at any terminal for %d cycles although all accept; %d packets are in the network, %d not yet in" % (
                m["quiet"], len(left), len(x.pk) - len(x.inj))))
        if h.end == "done":
            for l in x.open:
                v.append(("credit", "node %s virtual channel %s: %s credits never came back" % (l[1], l[2], l[3])))
        if h.end == "max" and not m.get("bound"):
            v.append(("slow", "not drained after 400000 cycles"))
        if m.get("bound"):
            by = collections.defaultdict(list)
            for e in x.order:
                if e["tail"]:
                    p = x.pk.get(e["pid"])
                    if p:
                        by[(p["src"], p["type"])].append(e["t"])
            n = collections.Counter((p["src"], p["type"]) for p in x.pk.values())
            stop = min([m["stop"]] + [t[-1] for k, t in by.items() if len(t) == n[k]])
            for k in sorted(n):
                t = [0] + [y for y in by.get(k, []) if y <= stop] + [stop]
                gap = max(b - a for a, b in zip(t, t[1:]))
                self.worst = max(getattr(self, "worst", 0), gap / m["bound"])
                if gap > m["bound"]:
                    v.append(("starved", "node %d class %d: no packet arrived for %d cycles under contention (bound %d)" % (k[0], k[1], gap, m["bound"])))
        return v


def unloaded(lat, n, depth, inf):
    """When the flits of a packet that meets nobody go in and come out, counted from the cycle of the first: lat are
    the latencies of the links from the sender to the receiver. A router takes routing, virtual-channel and switch
    allocation for the head, switch allocation for the others, one flit after the other, and one cycle through the
    crossbar; a flit needs a slot of the next buffer, whose credit takes the way back."""
    m, sad, cd = len(lat) - 1, inf["sad"], inf["credit"]
    into, out, done = [], [], [[0] * n for _ in range(m)]
    for j in range(n):
        t = into[-1] + 1 if j else 0
        if j >= depth:
            t = max(t, done[0][j - depth] + 1 + lat[0])
        into.append(t)
        a = t + lat[0]
        for i in range(m):
            s = max(a, done[i][j - 1] + 1) if j else a + inf["pipe"] - sad
            if j >= depth:
                c = cd + lat[i + 1] + (done[i + 1][j - depth] + 1 if i + 1 < m else out[j - depth])
                s += max(0, -((s - c) // sad)) * sad    # tried again once per allocation
            done[i][j] = s + sad - 1
            a = done[i][j] + 2 + lat[i + 1]
        out.append(a)
    return into, out


class P28(FabProp):
    id = "P28"
    quick_n = 1500
    nontrivial = ("one run = one random network with 8-40 rounds of packets that share no link with another one, some rounds after bursts of "
                  "load; non-trivial when packets were delivered")

    def gen(self, r, tier):
        p = gen.fabric_lone(r).plan()
        p["bin"] = "nocdrv"
        p["head"] = [l for l in p["head"] if not l.startswith("rads")]
        return p

    def ways(self, inf, p, hops, dist):
        """The possible latencies of the links a packet took: (error, list of lists)."""
        a, b, topo, rf = p["src"], p["dst"], inf["topo"], inf["rf"]
        d = dist(a, b)
        if topo == "anynet":
            w = gen.anynet_ways(inf["graph"], a, b)
            if w is None:
                return None, None
            ends = [inf["graph"]["at"][x][1] for x in (a, b)]
            w = [[ends[0]] + [l for _, _, l in way] + [ends[1]] for way in w if len(way) == hops - 1]
            return (None, w) if w else ("no way of least latency has %d routers" % hops, [])
        link = 1 if topo == "mesh" else 2
        if topo == "cmesh" and "no_express" not in rf:
            # the express links along the edges: half of the row in one hop, k cycles
            k = inf["dim"]
            save = k // 2 - 1
            n = d + 1 - hops
            if n < 0 or (save and n % save) or (not save and n) or n > 2 * max(save, 1):
                return "%d routers on a way of %d" % (hops, d + 1), []
            out = []
            for e in [n // save] if save else range(0, 3):
                if e <= hops - 1:
                    for c in itertools.combinations(range(hops - 1), e):
                        out.append([1] + [k if i in c else 2 for i in range(hops - 1)] + [1])
            return None, out
        if rf == "valiant":
            if not d + 1 <= hops <= 2 * inf["dim"] * 2 + 1:
                return "%d routers on a way of at least %d" % (hops, d + 1), []
        elif hops != d + 1:
            return "%d routers on a way of %d" % (hops, d + 1), []
        return None, [[1] + [link] * (hops - 1) + [1]]

    def check(self, plan, h):
        v = crashed(h)
        if not h.kind("G"):
            return v
        x = Fab(plan, h)
        inf = plan["meta"]["inf"]
        dist = gen.grid_routes(inf)
        h.counters.update(packets_timed=0, packets_not_alone=0)
        span = {}     # first and last cycle of every packet
        for pid, i in x.inj.items():
            e = x.ej.get(pid, [])
            span[pid] = (i[0][0], e[-1]["t"] if e and e[-1]["tail"] else None)
        for pid, p in x.pk.items():
            span.setdefault(pid, (None, None))
        for batch in plan["meta"]["lone"]:
            batch = [q for q in batch if q in x.pk]
            if not batch:
                continue
            t0 = min(x.pk[q]["at"] for q in batch)
            # everything before has to have left, credits and all, everything else has to come later
            if any(x.pk[q]["at"] < t0 and (span[q][1] is None or span[q][1] + 25 + 2 * inf["dim"] > t0) for q in x.pk):
                h.counters["packets_not_alone"] += len(batch)
                continue
            for q in batch:
                p, i, e = x.pk[q], x.inj.get(q, []), x.ej.get(q, [])
                if h.end in ("done", "quiet") and (len(i) < p["len"] or len(e) < p["len"]):
                    v.append(("lost", "packet %d from node %d to %d, alone in the network: %d flits in, %d out of %d" % (
                        q, p["src"], p["dst"], len(i), len(e), p["len"])))
                    continue
                if len(e) < p["len"]:
                    continue
                bad, ways = self.ways(inf, p, e[0]["hops"], dist)
                if bad:
                    v.append(("detour", "packet %d from node %d to %d: %s" % (q, p["src"], p["dst"], bad)))
                    continue
                if ways is None:
                    continue
                got = [a[0] - p["at"] for a in i], [a["t"] - p["at"] for a in e]
                want = [unloaded(w, p["len"], inf["vcb"], inf) for w in ways]
                h.counters["packets_timed"] += 1
                if got not in want:
                    v.append(("latency", "packet %d of %d flits from node %d to %d through %d routers, alone on its way: flits in at %s, out at %s; "
                              "the configuration says in at %s, out at %s" % (q, p["len"], p["src"], p["dst"], e[0]["hops"], got[0][:6], got[1][:6],
                                                                             want[0][0][:6], want[0][1][:6])))
        return v


PROPS = [P21(), P22(), P28()]
