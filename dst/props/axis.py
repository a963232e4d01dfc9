"""P01..P04: streaming traffic over the network."""
from dst import core, gen
from dst.props.common import *

REAL = ["NoC adapters (axis_*_adapter)", "radsim_noc", "Booksim routers/allocators/arbiters/channels/credits",
        "RADSimDesignContext, placement and clock parsing, config.py", "SystemC kernel"]
STUB = ["user modules (plan-driven AXI-S senders/receivers)", "order of coincident clock edges (seeded scheduler)"]
ASSUME = ["virtual-channel buffers and adapters are sized for at least one packet",
          "virtual channels and packet types fit the header fields fixed at build time",
          "sender and receiver of one flow declare the same data width"]


class AxisProp(core.Prop):
    bins = ["sys_a", "sys_c", "sys_d", "sys_e"]
    real = REAL
    stub = STUB
    assumptions = ASSUME
    nontrivial = ("one run = one random system (mesh/torus, clocks, FIFO/VC sizes, delays, allocators, placement, several ports per "
                  "node), workload and stall pattern drawn from the seed; non-trivial when messages were delivered and at "
                  "least one receiver back-pressured or several clocks coincided")

    def stats(self, plan, h):
        ax = Axis(plan, h)
        c = axis_counters(h, ax)
        c["stall_windows_planned"] += sum(1 for e in plan["evts"] if e.startswith(("stall", "duty")))
        nt = bool(ax.rcvd) and (c["axis_backpressure_cycles"] > 0 or c["coincident_edge_groups"] > 0)
        return c, sched_sig(h), nt, h.sim_ps * 1e-12


class P01(AxisProp):
    id = "P01"
    quick_n = 3000

    def gen(self, r, tier):
        return gen.axis_system(r, heavy=r.random() < 0.3, nmsg=(20, 250), num_nocs=r.choice([1] * 8 + [2])).plan()

    def check(self, plan, h):
        ax = Axis(plan, h)
        return ax.delivery(h.end in ("done", "quiet")) + crashed(h)


class P02(AxisProp):
    id = "P02"
    quick_n = 3000

    def gen(self, r, tier):
        return gen.axis_system(r, heavy=r.random() < 0.5, nmsg=(60, 300), max_mods=r.choice([3, 5, 8]),
                               types=r.choice([1, 1, 2, 4, 5])).plan()

    def check(self, plan, h):
        v = Axis(plan, h).order()
        if any(i["vcs"] > i["types"] for i in plan["meta"]["info"]):
            # known finding KF1: packets of one flow take different virtual channels
            v = [("reordered-multivc", m) for _, m in v]
        return v + crashed(h)


class P03(AxisProp):
    id = "P03"
    quick_n = 500

    def gen(self, r, tier):
        mode = r.random()
        s = gen.axis_system(r, heavy=True, nmsg=(60, 300) if mode < 0.6 else (100, 400))
        if mode >= 0.5:
            gen.add_probe(r, s)
        return s.plan()

    def execute(self, plan):
        h = core.run(plan)
        pr = plan["meta"].get("probe")
        if pr:
            q = dict(plan)
            q["evts"] = [e for e in plan["evts"] if e.startswith("beat") and int(e.split()[6]) >= pr["first"]]
            h.join(core.run(q))
        return h

    def check(self, plan, h):
        v = crashed(h)
        ax = Axis(plan, h)
        stuck, miss = ax.undone()
        if h.end == "quiet" and (stuck or miss):
            for s in stuck[:2]:
                v.append(("stuck", "nothing moves any more; %s still offers message %d to %s" % (s["port"], s["tag"], s["dport"])))
            for s in miss[:2]:
                v.append(("stuck", "nothing moves any more; message %d from %s to %s accepted at %d ps is undelivered" % (
                    s["tag"], s["port"], s["dport"], s["t"])))
        if h.end == "max":
            v.append(("slow", "not finished within the bound: %d unsent, %d undelivered" % (len(stuck), len(miss))))
        pr = plan["meta"].get("probe")
        if pr and not v and h.extra:
            v += crashed(h.extra[0])
            b = Axis(plan, h.extra[0])
            d0 = [x["t"] for x in ax.rcvd if x["tag"] < pr["first"]]
            if not d0 or max(d0) < pr["at"]:
                ta = [x["t"] - pr["at"] for x in ax.rcvd if x["tag"] >= pr["first"]]
                tb = [x["t"] - pr["at"] for x in b.rcvd if x["tag"] >= pr["first"]]
                if len(ta) == len(tb) and tb:
                    if max(ta) > 1.4 * max(tb) + 60 * plan["meta"]["slow"] * 1000:
                        v.append(("degraded", "after congestion %d messages take %d ps, on a fresh network %d ps" % (
                            len(ta), max(ta), max(tb))))
        return v

    def stats(self, plan, h):
        c, s, nt, ss = super().stats(plan, h)
        if h.extra:
            c["throughput_pairs"] += 1
            ss += h.extra[0].sim_ps * 1e-12
        return c, s, nt, ss


class P04(AxisProp):
    id = "P04"
    quick_n = 3000

    def gen(self, r, tier):
        return gen.axis_system(r, heavy=True, nmsg=(40, 250)).plan()

    def check(self, plan, h):
        v = crashed(h)
        for l in h.kind("V"):
            v.append((l[4], "%s ps: port %s presented message %s, was not accepted, and next showed %s" % (
                l[1], l[3], l[5], l[6])))
        v += [x for x in Axis(plan, h).delivery(h.end in ("done", "quiet")) if x[0] in ("lost", "duplicated")]
        return v


PROPS = [P01(), P02(), P03(), P04()]
