"""P19: the same simulation under another environment gives the same everything."""
import collections, difflib, os, re, shutil, subprocess, sys, tempfile
from dst import core, gen
from dst import build as bld
from dst import config as cfgmod
from dst.props.common import *
from dst.props import axis, aximm, dram

HOST = re.compile(r"Simulation Time = -?\d+ us")   # the mlp's driver reports how long the host took
NAMES = ["alpha", "beta", "gamma", "delta", "mlp", "add"]


class P19(core.Prop):
    id = "P19"
    bins = ["sys_a", "sys_b", "sys_c", "sys_d", "sys_e", "dramdrv", "nocdrv", "design_add", "design_mlp", "design_dlrm_two_rad", "perturb.so"]
    quick_n = 900
    real = ["every component of the other system-level properties: adapters, network, memory controllers, DRAMsim3, portal, link, "
            "telemetry, design context", "designs add, mlp and dlrm_two_rad with their mains", "config.py (in its own interpreter)", "SystemC kernel"]
    stub = ["user modules (plan-driven)", "heap contents, heap order and addresses, stack contents, host clock, process id, environment, "
            "folder and Python hash seed (drawn by the simulator)"]
    assumptions = axis.ASSUME + aximm.ASSUME + ["the inputs of a simulation are the plan, the generated configuration and its files; everything else is environment"]
    nontrivial = ("one run = one random system simulated once plainly and twice in perturbed environments (other heap contents, block order "
                  "and addresses, stack contents, clock, process id, environment block, folder), all outputs compared byte by byte; "
                  "non-trivial when the simulation delivered or completed something")
    faults_rule = "environment perturbations"

    def gen(self, r, tier):
        k = r.choices(["axis", "mm", "mem", "memnoc", "multi", "link", "dram", "config", "design", "fabric"], [22, 14, 12, 12, 12, 6, 12, 4, 8, 12])[0]
        if k == "config":
            return self.config_plan(r)
        if k == "design":
            from dst.props import designs
            while True:
                p = designs.PROPS[0].design(r)
                if p["bin"] in self.bins:
                    break
            p["collect"] = ["*.csv", "*.trace", "*.log", "logs/*"]
        elif k == "fabric":
            from dst.props import noc
            p = {q.id: q for q in noc.PROPS}[r.choice(["P21", "P22", "P28"])].gen(r, "quick")
        elif k == "dram":
            p = dram.scenario(r, tier, r.choice(["P10", "P12", "P14"]))
            p["head"] = p["head"] + ["stats"]
            p["collect"] = ["*.trace", "*.json", "*.txt"]
        else:
            if k == "axis":
                s = gen.axis_system(r, num_nocs=r.choice([1, 1, 2]), nmsg=(20, 150), heavy=r.random() < 0.3)
            elif k == "mm":
                s = gen.aximm_system(r, nops=(10, 80), heavy=r.random() < 0.3)
            elif k == "mem":
                s = gen.memory_system(r, nops=(20, 100))
            elif k == "memnoc":
                s = gen.memory_noc_system(r, nops=(20, 80))
            elif k == "multi":
                s = gen.multirad_system(r, nmsg=(20, 120))
            else:
                s = gen.link_system(r, nmsg=(20, 150))
            if k != "link":
                s.head += ["telem stats.csv"]
            if k in ("axis", "mm", "memnoc"):
                s.head += ["flows flows %d" % r.randint(1000, 100000)]
            s.head += ["memstats"]
            p = s.plan()
            p["collect"] = ["*.csv", "*.xml", "logs/*"]
        p.setdefault("meta", {})
        p["env"] = [dict(seed=r.getrandbits(40), pad=r.randint(0, 6000), name="x" * r.randint(1, 60)) for _ in range(2)]
        p["meta"]["what"] = k
        return p

    def config_plan(self, r):
        """Several designs on config.py's command line."""
        names = r.sample(NAMES, r.choice([1, 2, 2, 3]))
        cfgs = {}
        for n in names:
            s = gen.axis_system(r, num_nocs=r.choice([1, 2]), nmsg=(1, 2))
            c = dict(s.cfg)
            cl = c["cluster"] = dict(c["cluster"])
            secs = [x for x in c if x.startswith("config ")]
            for x in secs:
                c[x] = dict(c[x])
                c[x]["design"] = dict(c[x]["design"], name=n)
            cfgs[n] = c
        return dict(bin="config.py", cfg=None, head=[], evts=[], seed=0, designs=names, cfgs=cfgs, meta=dict(what="config"),
                    env=[dict(seed=r.getrandbits(31), name="y" * r.randint(1, 40)) for _ in range(2)])

    def run_config(self, plan, seed, sub):
        root = tempfile.mkdtemp(prefix="dst", dir=core.SCRATCH)
        try:
            d = os.path.join(root, sub)
            os.makedirs(d)
            for n in plan["designs"]:
                cfgmod.make_root(d, plan["cfgs"][n], n)
            q = subprocess.run([sys.executable, os.path.join(cfgmod.RADSIM, "config.py")] + plan["designs"], cwd=d,
                               env={"PATH": "/nonexistent", "PYTHONHASHSEED": str(seed), "PYTHONDONTWRITEBYTECODE": "1"},
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
            files = {}
            for a, _, fs in os.walk(os.path.join(d, "sim")):
                for f in fs:
                    with open(os.path.join(a, f), errors="replace") as g:
                        files[os.path.relpath(os.path.join(a, f), d)] = g.read().replace(d, "<root>")
            out = q.stdout.decode(errors="replace").replace(d, "<root>")
            return core.Hist("END %s 0\n" % ("done" if q.returncode == 0 else "rejected"), q.returncode, out, files)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def execute(self, plan):
        if plan["bin"] == "config.py":
            hs = [self.run_config(plan, s, d) for s, d in [(0, "r")] + [(e["seed"], e["name"]) for e in plan["env"]]]
            return hs[0].join(*hs[1:])
        h = core.run(plan)
        so = os.path.join(bld.BUILD, "bin", "perturb.so")
        more = []
        for e in plan["env"]:
            more.append(core.run(plan, sub=e["name"], env={"LD_PRELOAD": so, "DST_PERTURB": str(e["seed"]), "DST_PAD": "p" * e["pad"],
                                                           "TZ": "Asia/Tokyo", "USER": "nobody", "HOME": "/nonexistent"}))
        return h.join(*more)

    def check(self, plan, h):
        v = []
        if h.end == "hang":
            return v
        for i, g in enumerate(h.extra):
            w = "environment %d" % plan["env"][i]["seed"]
            if g.end == "hang":
                v.append(("result", "%s: the simulation does not end" % w))
                continue
            if h.lines != g.lines:
                j = next((j for j, (a, b) in enumerate(zip(h.lines, g.lines)) if a != b), min(len(h.lines), len(g.lines)))
                a = h.lines[j] if j < len(h.lines) else ["nothing"]
                b = g.lines[j] if j < len(g.lines) else ["nothing"]
                v.append(("result", "%s: history line %d is '%s', plainly it is '%s'" % (w, j, " ".join(b)[:160], " ".join(a)[:160])))
                continue
            for n in sorted(set(h.files) | set(g.files)):
                if h.files.get(n) != g.files.get(n):
                    v.append(("file", "%s: %s differs: %s" % (w, n, diff(h.files.get(n), g.files.get(n)))))
                    break
            a, b = HOST.sub("", h.out), HOST.sub("", g.out)
            if a != b:
                v.append(("output", "%s: printed output differs: %s" % (w, diff(a, b))))
        return v

    def stats(self, plan, h):
        c = base_counters(h)
        c["system_" + plan["meta"]["what"]] += 1
        c["perturbed_repetitions"] += len(h.extra)
        c["output_files_compared"] += len(h.files) * len(h.extra)
        c["history_lines_compared"] += len(h.lines) * len(h.extra)
        c["ended_" + str(h.end)] += 1
        n = sum(1 for l in h.lines if l[0] in "R<>DE")
        return c, sched_sig(h), n > 0 or plan["bin"] == "config.py" or plan["bin"].startswith("design_"), 0 if plan["bin"] == "config.py" else h.sim_ps * 1e-12

    def shrinkable(self, plan):
        return plan["bin"] != "config.py"


def diff(a, b):
    if a is None or b is None:
        return "it exists only once"
    for x, y in zip(a.split("\n") + [""], b.split("\n") + [""]):
        if x != y:
            return "'%s' instead of '%s'" % (y[:120], x[:120])
    return "length %d instead of %d" % (len(b), len(a))


PROPS = [P19()]
