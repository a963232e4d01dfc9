"""P30: every simulated run stays inside the memory it owns and inside what C++ defines."""
import re
from dst import core, gen
from dst import build as bld
from dst.props.common import *
from dst.props import axis, aximm

SAN = {"sys_" + v for v in bld.SAN_VARIANTS} | {"dramdrv", "nocdrv"} | {"design_" + d for d in bld.SAN_DESIGNS}
# whose systems are run: all parts of the simulator
SOURCES = {"P01": 4, "P02": 3, "P03": 3, "P04": 3, "P06": 3, "P07": 2, "P08": 4, "P09": 3, "P10": 4, "P11": 2, "P12": 2, "P13": 2,
           "P14": 2, "P15": 3, "P16": 3, "P17": 3, "P18": 2, "P20": 5, "P21": 7, "P22": 5, "P23": 2, "P24": 3, "P26": 2, "P27": 3, "P28": 4,
           "P29": 2}
UB = re.compile(r"^(\S+?):(\d+):\d+: runtime error: (.*)$", re.M)
ASAN = re.compile(r"^SUMMARY: AddressSanitizer: (.*)$", re.M)
HEAD = re.compile(r"^==\d+==ERROR: AddressSanitizer:? ?(\S+)", re.M)
FRAME = re.compile(r"^\s+#\d+ 0x\S+ in (.*)$", re.M)
LIB = re.compile(r"^(\S+):(\d+): (.*): Assertion '(.*)' failed\.", re.M)


def short(f):
    return re.sub(r"0x[0-9a-f]+", "0x..", f)[:200]


class P30(core.Prop):
    id = "P30"
    bins = sorted(b + "_san" for b in SAN)
    quick_n = 1500
    real = ["everything the other properties run, compiled with a check on every access and every undefined operation: adapters, network, "
            "memory controllers, DRAMsim3, portal, link, telemetry, design context, config.py, designs mlp and dlrm_two_rad with their "
            "generated main", "SystemC kernel (not instrumented)"]
    stub = ["user modules of the generated systems (plan-driven)", "terminals of the network and clients of the memory in the stand-alone runs"]
    assumptions = axis.ASSUME + aximm.ASSUME + ["reports located in the system's own headers (SystemC) are not about this code"]
    nontrivial = ("one run = one system of another property's generator, with its schedule and faults, executed in the instrumented build and "
                  "torn down at the end as the generated main does; non-trivial when something was delivered, completed or commanded")
    faults_rule = "faults of the underlying generators (stalls, duty cycles, late credits, reset, bursts, full queues)"

    def gen(self, r, tier):
        from dst.props import all_props
        if not hasattr(P30, "all"):
            P30.all = all_props()
        while True:
            k = r.choices(list(SOURCES), list(SOURCES.values()))[0]
            for _ in range(4):
                p = P30.all[k].gen(r, "quick")
                if p["bin"] in SAN:
                    break
            else:
                continue
            break
        p["bin"] += "_san"
        p["cpu"] = 150
        p.setdefault("meta", {})
        p["meta"] = dict(p["meta"], source=k)
        if p["bin"].startswith("sys_"):
            p["head"] = p["head"] + ["teardown"]
        p["collect"] = []
        return p

    def check(self, plan, h):
        v = []
        for f, l, m in UB.findall(h.out):
            if not f.startswith("/usr/"):
                v.append(("undefined", "%s:%s: %s" % (f.split("/build/src/")[-1], l, short(m))))
        for f, l, fn, a in LIB.findall(h.out):
            v.append(("library", "%s: assertion '%s' of the standard library failed in %s" % (f.split("/")[-1], a, fn[:120])))
        m = HEAD.search(h.out)
        if m and not v:
            fr = [x for x in FRAME.findall(h.out[m.start():]) if bld.SRC in x or bld.BUILD + "/designs" in x]
            s = ASAN.search(h.out)
            v.append(("memory", "%s in %s" % (m.group(1), short((fr[0] if fr else s.group(1) if s else "?").replace(bld.SRC + "/", "")))))
        if not v and h.end != "hang":
            if h.end in CRASH:
                v = crashed(h)
            elif h.rc != 0 and not plan["bin"].startswith("design_"):
                v.append(("crash", "ended with status %d after the simulation was over" % h.rc))
        return v

    def stats(self, plan, h):
        c = base_counters(h)
        c["source_" + plan["meta"]["source"]] += 1
        c["instrumented_" + plan["bin"]] += 1
        c["torn_down"] += "teardown done" in h.out or plan["bin"].startswith("design_")
        n = sum(1 for l in h.lines if l[0] in "R<>DX") or h.counters.get("flits_ejected", 0) or plan["bin"].startswith("design_")
        return c, sched_sig(h), n > 0, h.sim_ps * 1e-12 if plan["bin"][:3] in ("sys", "des") else 0.0


PROPS = [P30()]
