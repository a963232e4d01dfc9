"""P23: classes do not block each other."""
from dst import core, gen
from dst.props.common import *
from dst.props import axis, aximm


class P23(core.Prop):
    id = "P23"
    quick_n = 1500
    bins = ["sys_a", "sys_c", "sys_d", "sys_e"]
    real = ["NoC adapters (AXI-S and AXI-MM)", "radsim_noc", "Booksim network", "RADSimDesignContext, config.py", "SystemC kernel"]
    stub = ["user modules (plan-driven senders, receivers, initiators, targets)", "order of coincident clock edges (seeded scheduler)"]
    assumptions = axis.ASSUME + aximm.ASSUME + [
        "a node that sends a blocked class does not also send the others (each node has one injection queue)"]
    nontrivial = ("one run = one random system with streaming and memory-mapped ports of all five classes in which receivers of one to "
                  "three classes stop accepting for good; non-trivial when messages of the blocked classes were really stuck and "
                  "messages of other classes were delivered after that")

    def gen(self, r, tier):
        return gen.isolation_system(r).plan()

    def parts(self, plan, h):
        ax, m = Axis(plan, h), aximm.Mm(plan, h)
        cls, bl = plan["meta"]["cls"], set(plan["meta"]["blocked"])
        stuck, miss = ax.undone()
        open_ax = stuck + miss
        open_mm = m.expected()
        need = lambda o: not bl & ({0, 3} if o["kind"] == "R" else {1, 2, 4})
        bad = [("message %d from %s to %s (class %d)" % (x["tag"], x["port"], x["dport"], cls[x["port"]])) for x in open_ax
               if cls[x["port"]] not in bl]
        bad += ["operation %d (%s, %s -> %s)" % (n, o["kind"], o["ini"], o["tgt"]) for n, o in open_mm if need(o)]
        held = [x for x in open_ax if cls[x["port"]] in bl] + [o for n, o in open_mm if not need(o)]
        done = len(ax.rcvd) + len(m.back)
        return bad, held, done

    def check(self, plan, h):
        v = crashed(h)
        if h.end in ("quiet", "max"):
            bad, held, done = self.parts(plan, h)
            for b in bad[:3]:
                v.append(("blocked", "receivers of classes %s stopped accepting and %s was not delivered; %d of other classes are "
                          "stuck" % (plan["meta"]["blocked"], b, len(bad))))
        return v

    def stats(self, plan, h):
        bad, held, done = self.parts(plan, h)
        c = base_counters(h)
        c["receivers_stopped_for_good"] += plan["meta"]["hit"]
        c["stuck_as_intended"] += len(held)
        c["delivered"] += done
        return c, sched_sig(h), bool(held) and done > 0, h.sim_ps * 1e-12


PROPS = [P23()]
