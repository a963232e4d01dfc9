"""P31: a system that has drained is exactly as fast as a new one."""
import collections
from dst import core, gen
from dst.props.common import *
from dst.props import axis, aximm, interrad


class P31(core.Prop):
    id = "P31"
    bins = ["sys_a", "sys_b", "sys_c", "sys_d", "sys_e"]
    quick_n = 1500
    real = sorted(set(axis.REAL + aximm.REAL)) + ["portal, RADSimInterRad, RADSimCluster"]
    stub = ["user modules (plan-driven)", "order of coincident clock edges (seeded scheduler)"]
    assumptions = axis.ASSUME + aximm.ASSUME + ["messages judged to the picosecond are alone in the system; simultaneous operations are given a quarter more time, "
                                                "because arbiters may start at another position"]
    faults_rule = "stalls, slow receivers, bursts and full queues before the measured phase"
    nontrivial = ("one run = one random system simulated twice: with a first phase of load, stalls and bursts, and without it; then single messages "
                  "or operations far apart (or all initiators at once); non-trivial when the first phase had drained before and something was measured")

    def gen(self, r, tier):
        k = r.choices(["axis", "mm", "multi"], [4, 5, 3])[0]
        if k == "axis":
            s = gen.axis_system(r, num_nocs=r.choice([1, 1, 2]), nmsg=(20, 200), heavy=r.random() < 0.5)
            gen.add_lone_probe(r, s)
        elif k == "mm":
            s = gen.aximm_system(r, heavy=r.random() < 0.6, nops=(20, 100))
            gen.add_mm_probe(r, s)
        else:
            s = gen.multirad_system(r, nmsg=(20, 120))
            gen.add_multi_probe(r, s)
        p = s.plan()
        p["meta"]["what"] = k
        return p

    @staticmethod
    def second(plan, e):
        w = e.split()
        f = plan["meta"]["probe"]["first"]
        if w[0] == "beat":
            return int(w[6]) >= f
        if w[0] == "op":
            return int(w[3]) >= f
        return False

    def execute(self, plan):
        h = core.run(plan)
        q = dict(plan)
        q["evts"] = [e for e in plan["evts"] if self.second(plan, e) or e.startswith(("tgt", "awahead"))]
        return h.join(core.run(q))

    def times(self, plan, h):
        """measured events, and when the first phase ended"""
        f = plan["meta"]["probe"]["first"]
        out, end = collections.defaultdict(list), 0
        if plan["meta"]["what"] == "mm":
            for l in h.lines:
                if l[0] in "<>" and len(l) > 5:
                    op = aximm.Mm.op_of(int(l[5], 16)) if l[0] == "<" or l[4] in "RB" else int(l[5])
                    if op < f:
                        end = max(end, int(l[1]))
                    else:
                        out[op].append((int(l[1]), l[0], l[3], l[4]))
        else:
            for l in h.lines:
                if l[0] in "SR":
                    if int(l[4]) < f:
                        end = max(end, int(l[1]))
                    else:
                        out[int(l[4])].append((int(l[1]), l[0], l[3]))
        return out, end

    def check(self, plan, h):
        v = crashed(h)
        if v or not h.extra:
            return v
        g = h.extra[0]
        v = crashed(g)
        pr = plan["meta"]["probe"]
        a, end = self.times(plan, h)
        b, _ = self.times(plan, g)
        if v or end >= pr["at"]:
            return v
        if pr["lone"]:
            for k in sorted(b):
                if a.get(k) != b[k]:
                    x = next((i for i, (p, q) in enumerate(zip(a.get(k, []), b[k])) if p != q), min(len(a.get(k, [])), len(b[k])))
                    if x < len(a.get(k, [])) and x < len(b[k]):
                        p, q = a[k][x], b[k][x]
                        v.append(("degraded" if p[0] > q[0] else "changed", "%s %d alone after load: %s at %s at %d ps, on a new system %s at %s at %d ps" % (
                            "operation" if plan["meta"]["what"] == "mm" else "message", k, p[1], p[2], p[0], q[1], q[2], q[0])))
                    else:
                        v.append(("lost", "message or operation %d: %d hand-overs after load, %d on a new system" % (k, len(a.get(k, [])), len(b[k]))))
                    break
        elif a and b:
            ta, tb = (max(e[0] for x in y.values() for e in x) - pr["at"] for y in (a, b))
            na, nb = (sum(len(x) for x in y.values()) for y in (a, b))
            if na != nb:
                v.append(("lost", "%d hand-overs after load, %d on a new system" % (na, nb)))
            elif ta > 1.25 * tb + 30 * plan["meta"]["slow"] * 1000:
                v.append(("degraded", "after load %d operations at once take %d ps, on a new system %d ps" % (len(a), ta, tb)))
        return v

    def stats(self, plan, h):
        c = base_counters(h)
        a, end = self.times(plan, h)
        ok = end < plan["meta"]["probe"]["at"] and bool(a)
        c["system_" + plan["meta"]["what"]] += 1
        c["measured_alone" if plan["meta"]["probe"]["lone"] else "measured_together"] += len(a) if ok else 0
        c["first_phase_not_drained"] += end >= plan["meta"]["probe"]["at"]
        return c, sched_sig(h), ok, sum(x.sim_ps for x in [h] + h.extra) * 1e-12


PROPS = [P31()]
