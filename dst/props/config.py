"""P24: clocks, placement and network assignment are those configured."""
import random
from dst import core, gen
from dst import config as cfgmod
from dst.build import VARIANTS
from dst.props.common import *
from dst.props import axis, aximm


def port_view(h, rad, ports=None):
    """Per port: what happened when, in terms that do not name networks,
    device numbers or base addresses."""
    out = {}
    for l in h.lines:
        if l[0] in "SR" and len(l[0]) == 1 and int(l[2]) == rad:
            out.setdefault(l[3], []).append((int(l[1]), l[0], int(l[4])))
        elif l[0] == ">" and int(l[2]) == rad:
            if len(l[4]) and l[4] in ("AR", "AW", "W"):
                out.setdefault(l[3], []).append((int(l[1]), "tx" + l[4], int(l[5]), int(l[6])))
            else:       # a target's response names the operation in its user bits
                out.setdefault(l[3], []).append((int(l[1]), "tx" + l[4], int(l[5], 16) & 0xffffff, int(l[6], 16)))
        elif l[0] == "<" and int(l[2]) == rad:
            u = int(l[5], 16)
            out.setdefault(l[3], []).append((int(l[1]), "rx" + l[4], u & 0xffffff, (u >> 32) & 0xffff, int(l[9])))
    return out


def differences(a, b, what):
    out = []
    for p in sorted(set(a) | set(b)):
        x, y = a.get(p, []), b.get(p, [])
        for i in range(max(len(x), len(y))):
            if i >= len(x) or i >= len(y) or x[i] != y[i]:
                out.append(("leak", "port %s: event %d is %s in the whole system and %s %s" % (
                    p, i, x[i] if i < len(x) else "absent", y[i] if i < len(y) else "absent", what)))
                break
    return out


class P24(core.Prop):
    id = "P24"
    quick_n = 700
    bins = ["sys_a", "sys_b", "sys_c", "sys_d", "sys_e"]
    real = ["config.py (unmodified, per run)", "radsim_config knob parsing", "RADSimCluster", "RADSimDesignContext (placement and clock parsing, "
            "address map, network creation)", "radsim_noc, adapters, Booksim networks", "portals and inter-device link", "SystemC kernel"]
    stub = ["user modules (plan-driven senders, receivers, initiators, targets)", "order of coincident clock edges (fixed by period, so that "
            "two systems can be compared to the picosecond)"]
    assumptions = axis.ASSUME + aximm.ASSUME + [
        "modules that share a node share their clocks (a node has one adapter clock and one module clock)",
        "clock periods within a device are pairwise different (coincident edges of different clocks are ordered by period)"]
    nontrivial = ("one run = one random system (one device with one to three different networks, or a cluster of two or three devices of one or two "
                  "kinds) simulated whole, part by part (each network alone, each device in a cluster of its own kind) and under renamed "
                  "networks, clock indices and line orders; or one saturated stream; non-trivial when traffic was delivered in more than one part, or "
                  "the stream was saturated")

    # ---- plans
    def gen(self, r, tier):
        if r.random() < 0.2:
            return self.saturated(r)
        seed = r.getrandbits(60)
        return self.build(seed)

    def build(self, seed):
        md = gen.config_model(random.Random(seed))
        plan = gen.build_config(md)
        plan["meta"] = dict(model=seed, kind="parts", devs=md["devs"], nets=len(md["nocs"]))
        return plan

    def saturated(self, r):
        variant = r.choice("acde")
        s = gen.Sys(variant, seed=0)
        v = s.v
        cfg = cfgmod.base_cfg(**v)
        info = gen.noc_cfg(r, cfg, gen.flits(variant, v["axis"]), types=r.choice([1, 3, 5]))
        if info[0]["anynet"]:
            s.files["anynet_file"] = info[0]["anynet"]
        slow = r.choice([1.0, 5.0, 8.0, 16.0])
        which = r.choice(["noc", "adtx", "adrx", "modtx", "modrx"])
        fast = [round(0.2 + r.random(), 3) for _ in range(5)]
        per = dict(zip(("noc", "adtx", "adrx", "modtx", "modrx"), fast))
        per[which] = slow
        if r.random() < 0.3:
            per[r.choice(list(per))] = slow
        ads = [per["adtx"], per["adrx"], 11.7]
        mods = [per["modtx"], per["modrx"], 13.1]
        ai = r.sample(range(3), 3)
        mi = r.sample(range(3), 3)
        cfg["noc"]["clk_period"] = [per["noc"]]
        cfg["noc"]["vc_buffer_size"] = [16]
        cfg["noc_adapters"]["fifo_size"] = [16]
        cfg["noc_adapters"]["obuff_size"] = [r.choice([2, 4])]
        cfg["noc_adapters"]["clk_period"] = [ads[i] for i in ai]
        cfg["config rad0"]["design"]["clk_periods"] = [mods[i] for i in mi]
        cfg["cluster"]["sim_driver_period"] = max(mods)
        w = r.choice([v["axis"], 17, 40])
        nodes = r.sample(range(info[0]["nodes"]), 2)
        for k, kind in enumerate(("am", "as")):
            s.head.append("mod 0 m%d %g" % (k, mods[k]))
            s.clks.setdefault(0, []).append("m%d %d %d" % (k, ai.index(k), mi.index(k)))
            s.head.append("port 0 m%d p %s %d 0" % (k, kind, w))
            s.place.setdefault(0, []).append("m%d.p 0 %d axis" % (k, nodes[k]))
        n = 100
        for k in range(n):
            s.evts.append("beat 0 m0.p 0 0 m1.p %d %d 1" % (k + 1, r.getrandbits(40)))
        top = max(list(per.values()))
        s.head += ["byperiod", "quietfrom 0", "quietns %g" % (top * 4000), "drainns %g" % (top * 100), "maxns %g" % (top * 100000),
                   "chunkns %g" % (top * 12), "rstns %g" % (max(mods) * 4)]
        s.cfg = cfg
        s.meta = dict(kind="sat", per=per, nfl=-(-(w + gen.USERW[variant] + 1) // v["payload_width"]), n=n,
                      cyc=[cfg["noc"]["routing_delay"][0], cfg["noc"]["vc_alloc_delay"][0], cfg["noc"]["sw_alloc_delay"][0], cfg["noc"]["credit_delay"][0]])
        return s.plan()

    def shrinkable(self, plan):
        return plan["meta"]["kind"] == "sat"

    # ---- runs
    def parts(self, plan):
        m = plan["meta"]
        md = gen.config_model(random.Random(m["model"]))
        parts = []
        if md["multi"]:
            for d in range(len(md["devs"])):
                parts.append(("in a cluster of devices of its own kind", d, 0, gen.build_config(md, devs=[d, d]), None))
            r2 = random.Random(m["model"] ^ 5)
            parts.append(("when every device has a configuration section of its own", None, None,
                          gen.build_config(md, share=False), None))
        elif len(md["nocs"]) > 1:
            for i in range(len(md["nocs"])):
                if any(q["noc"] == i for mo in md["templates"][0]["mods"] for q in mo["ports"]):
                    parts.append(("with network %d alone" % i, 0, 0, gen.build_config(md, nets=[i]), i))
        parts.append(("after renaming networks and clock indices", None, None, gen.build_config(md, relabel=random.Random(m["model"] ^ 1)), None))
        return md, parts

    def execute(self, plan):
        h = core.run(plan)
        if plan["meta"]["kind"] == "parts" and h.end not in CRASH:
            md, parts = self.parts(plan)
            h.join(*[core.run(p[3]) for p in parts])
        return h

    def check(self, plan, h):
        v = crashed(h)
        if v:
            return v
        m = plan["meta"]
        if m["kind"] == "sat":
            return v + self.edges(plan, h) + self.rate(plan, h)
        md, parts = self.parts(plan)
        v += self.edges(plan, h) + self.where(md, h)
        v += Axis(plan, h).delivery(h.end == "done" or h.end == "quiet")
        nd = len(md["devs"])
        whole = {d: port_view(h, d) for d in range(nd)}
        for (what, d, pos, p, net), o in zip(parts, h.extra):
            if o.end in CRASH:
                v.append(("crash", "the simulation ended with %s %s" % (o.end, what)))
                continue
            if d is None:
                for k in range(nd):
                    v += differences(whole[k], port_view(o, k), what)
            else:
                a = whole[d]
                if net is not None:
                    mine = {q["name"] for t in md["templates"] for mo in t["mods"] for q in mo["ports"] if q["noc"] == net}
                    a = {k: e for k, e in a.items() if k in mine}
                v += differences(a, port_view(o, pos), what)
        return v

    def edges(self, plan, h):
        """Modules tick at the configured period."""
        per = {}
        for l in plan["head"]:
            w = l.split()
            if w[0] == "mod":
                per[(int(w[1]), w[2])] = float(w[3]) * 1000
        seen = {}
        for l in h.lines:
            if l[0] == "C":
                seen.setdefault((int(l[1]), l[2]), []).append(int(l[3]))
        out = []
        for k, p in per.items():
            e = seen.get(k, [])
            if len(e) < 2:
                out.append(("clock", "module %s never ticked" % k[1]))
            elif any(abs(b - a - p) > 1.01 for a, b in zip(e, e[1:])):
                out.append(("clock", "module %s of device %d is configured for %g ps and ticks at %s" % (k[1], k[0], p, e)))
        return out

    def where(self, md, h):
        out = []
        seen = {}
        for l in h.lines:
            if l[0] == "N":
                seen[(int(l[1]), l[2])] = (int(l[3]), int(l[4]))
        used = {}
        for d, t in enumerate(md["devs"]):
            for mo in md["templates"][t]["mods"]:
                for p in mo["ports"]:
                    n, i = seen.get((d, p["name"]), (None, None))
                    if n != p["node"]:
                        out.append(("placement", "port %s of device %d is placed at node %d and reported at %s" % (p["name"], d, p["node"], n)))
                    k = (d, p["noc"], n, p["kind"] in ("am", "mi"), i)
                    if k in used:
                        out.append(("placement", "ports %s and %s of device %d share node %d and interface %s" % (p["name"], used[k], d, n, i)))
                    used[k] = p["name"]
        return out

    def rate(self, plan, h):
        m = plan["meta"]
        p, nfl = m["per"], m["nfl"]
        t = [x["t"] for x in Axis(plan, h).rcvd]
        if len(t) < m["n"]:
            return [("clock", "only %d of %d messages of a single stream arrived" % (len(t), m["n"]))]
        gap = (t[-1] - t[len(t) // 2]) / (len(t) - 1 - len(t) // 2) / 1000
        lo = max(nfl * p["noc"], nfl * p["adtx"], nfl * p["adrx"], p["modtx"], p["modrx"])
        h.counters["gap_x1000"] = int(1000 * gap / lo)
        if (t[-1] - t[0]) / 1000 < lo * (len(t) - 1) - 2 * max(p.values()):
            return [("clock", "a stream of %d-flit messages passes one every %.3f ns; clocks %s allow one every %.3f ns" % (nfl, gap, p, lo))]
        hi = self.upper(m)
        if gap > hi:
            return [("clock", "a stream of %d-flit messages passes one every %.3f ns; with clocks %s at most %.3f ns are explained" % (nfl, gap, p, hi))]
        return []

    def upper(self, m):
        # calibrated: the slowest stage alone explains the rate within 33%
        p, nfl, c = m["per"], m["nfl"], m["cyc"]
        return 1.6 * max((c[0] + c[1] + c[2] * nfl) * p["noc"], nfl * p["adtx"], nfl * p["adrx"], p["modtx"], p["modrx"])

    def stats(self, plan, h):
        ax = Axis(plan, h)
        m = aximm.Mm(plan, h)
        c = base_counters(h)
        c["messages_delivered"] += len(ax.rcvd)
        c["operations_answered"] += len(m.back)
        c["comparison_runs"] += len(h.extra)
        c["kind_" + plan["meta"]["kind"]] += 1
        nt = plan["meta"]["kind"] == "sat" or (len(ax.rcvd) + len(m.back) > 4 and len(h.extra) > 0)
        return c, sched_sig(h), nt, (h.sim_ps + sum(o.sim_ps for o in h.extra)) * 1e-12


PROPS = [P24()]
