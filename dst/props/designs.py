"""P20: shipped designs compute the same under every timing configuration."""
import os, re
import yaml
from dst import core, gen
from dst import config as cfgmod
from dst import build as bld
from dst.props.common import *


GOOD = re.compile("SUCCESS|Simulation PASSED")
BAD = re.compile("FAILURE|FAILED")


def shipped(d):
    with open(os.path.join(bld.REPO, "rad-sim", "example-designs", d, "config.yml")) as f:
        return yaml.safe_load(f)


class P20(core.Prop):
    id = "P20"
    quick_n = 1500
    bins = ["design_add", "design_mult", "design_mlp", "design_dlrm", "design_dlrm_two_rad", "perturb.so"]
    real = ["example-designs/{add,mult,mlp,dlrm,dlrm_two_rad} (drivers, modules, top levels, systems)", "main.cpp as generated by config.py", "config.py", "RADSimCluster, "
            "RADSimDesignContext, radsim_noc, adapters, Booksim networks", "SystemC kernel"]
    stub = ["wall clock (time())", "order of coincident clock edges (seeded)", "weights, embedding tables, lookups, instructions and golden outputs of "
            "mlp and dlrm (own generators with integer arithmetic in place of the designs' compilers)"]
    assumptions = ["modules that share a handshake with the driver run at the driver's clock", "router buffers hold a message",
                   "the mlp's FIFOs are larger than the number of inputs (its documented requirement)",
                   "the engines of a dlrm share one clock; memory-mapped adapters are clocked faster than their modules; portals run at the link's clock"]
    nontrivial = "one run = one design with one set of inputs under a random timing configuration; non-trivial when the driver received the results"

    def gen(self, r, tier):
        p = self.design(r)
        if r.random() < 0.4:
            # memory the designs did not write holds anything
            p["heap"] = r.getrandbits(40)
        return p

    def execute(self, plan):
        if plan.get("heap"):
            return core.run(plan, env={"LD_PRELOAD": os.path.join(bld.BUILD, "bin", "perturb.so"), "DST_PERTURB": str(plan["heap"])})
        return core.run(plan)

    def design(self, r):
        d = r.choice(["add", "mult", "mlp", "mlp", "dlrm", "dlrm_two_rad"])
        if d.startswith("dlrm"):
            return self.dlrm(r, d != "dlrm")
        cfg = {}
        s = shipped(d)
        for k in ("noc", "noc_adapters"):
            cfg[k] = dict(s[k])
        if "interfaces" in s:
            cfg["interfaces"] = dict(s["interfaces"])
        types = s["noc"]["num_packet_types"][0]
        fl = -(-(512 + 75 + 16) // s["noc"]["payload_width"][0])
        info = gen.noc_cfg(r, cfg, fl, types=types, single_vc=types == 1, fabric=types > 1 or r.random() < 0.7)
        nodes = info[0]["nodes"]
        if info[0]["topo"] == "mesh":
            n = cfg["noc"]
            ok = [y * info[0]["dim"] + x for y in range(n["dim_y"][0]) for x in range(n["dim_x"][0])]
        else:
            ok = list(range(nodes))
        drv = r.choice(gen.PERIODS)
        clks = [drv] + [r.choice(gen.PERIODS) for _ in range(r.randint(0, 2))]
        files = {}
        nad = len(cfg["noc_adapters"]["clk_period"])
        if d == "mlp":
            layers = r.choice([1, 2, 2, 3])
            while True:
                mv = [r.choice([1, 1, 2, 3]) for _ in range(layers)]
                if sum(mv) + mv[0] + 1 <= len(ok) or len(ok) < 3:
                    break
                layers = max(1, layers - 1)
            if len(ok) < 3:
                return self.gen(r, tier)
            local = ["input_dispatcher%d" % i for i in range(mv[0])] + ["output_collector"]
            free = ["layer%d_mvm%d" % (a, b) for a in range(layers) for b in range(mv[a])]
            self.mlp(r, files, mv)
            pl = "mlp"
        else:
            local, free = ["client_inst"], ["adder_inst" if d == "add" else "mult_inst"]
            pl = d
        if len(ok) < len(local + free):
            return self.gen(r, tier)
        at = r.sample(ok, len(local + free))
        place, ck = [], []
        for m, node in zip(local + free, at):
            place.append("%s 0 %d axis" % (m, node))
            ck.append("%s %d %d" % (m, r.randrange(nad), 0 if m in local else r.randrange(len(clks))))
        dd = "example-designs/%s/" % d
        files[dd + pl + ".place"] = "\n".join(place) + "\n"
        files[dd + pl + ".clks"] = "\n".join(ck) + "\n"
        if info[0]["anynet"]:
            files["anynet_file"] = info[0]["anynet"]
        cfg["config rad1"] = dict(design=dict(name=d, noc_placement=[pl + ".place"], clk_periods=clks))
        cfg["cluster"] = dict(sim_driver_period=drv, telemetry_log_verbosity=0, telemetry_traces=[], num_rads=1, cluster_configs=["rad1"])
        return dict(bin="design_" + d, design=d, cfg=cfg, files=files, seed=r.getrandbits(40), evts=[],
                    head=["time %d" % r.getrandbits(30), "maxns 400000"], meta=dict(design=d, info=info[0]), collect=[])

    @staticmethod
    def mlp(r, files, mv, base="example-designs/mlp/compiler/", lanes=16, cols=None, ins=None, sparse=0, maxout=6):
        """Layers of matrix-vector products split over engines: each engine of a layer handles its share of the columns and passes
        partial sums on to the next engine of the layer."""
        layers = len(mv)
        dlrm = ins is not None
        inst_at, w_at = ("instructions/%s.inst", "mvm_weights/%s_dot%d.dat") if dlrm else ("inst_mifs/%s.mif", "weight_mifs/%s_dot%d.mif")
        wrap = lambda x: (x + 0x8000) % 0x10000 - 0x8000
        nin = mv[0] * (cols or r.choice([1, 1, 2]))          # input chunks of the layer
        W = []
        for l in range(layers):
            nxt = mv[l + 1] if l + 1 < layers else 1
            nout = nxt * r.choice([1, 1, 2])
            if nout > maxout:
                nout = nxt
            w = [[r.randint(-3, 3) if not sparse or r.random() < sparse else 0 for _ in range(nin * lanes)] for _ in range(nout * lanes)]
            W.append(w)
            limx = nin // mv[l]
            for m in range(mv[l]):
                name = "layer%d_mvm%d" % (l, m)
                mem = [[] for _ in range(lanes)]
                inst = []
                for i in range(limx):
                    c = i * mv[l] + m                        # chunk c of the inputs goes to engine c mod engines
                    for j in range(nout):
                        for d in range(lanes):
                            mem[d].append(" ".join(str(w[j * lanes + d][c * lanes + e]) for e in range(lanes)))
                        if m == mv[l] - 1:
                            dl, dm = (0, 0) if l == layers - 1 else (l + 2, j % nxt)
                        else:
                            dl, dm = l + 1, m + 1
                        inst.append("1 0 %d %d %d %d %d %d %d %d" % (m > 0 and i == limx - 1, j, i > 0, i == limx - 1, i * nout + j, j == nout - 1, dl, dm))
                inst.append("1 1 0 0 0 0 0 0 0 0")
                files[base + inst_at % name] = "\n".join(inst) + "\n"
                for d in range(lanes):
                    files[base + w_at % (name, d)] = "\n".join(mem[d]) + "\n"
            nin = nout
        k = len(W[0][0]) // lanes
        given = ins
        if given is None:
            given = [[r.randint(-5, 5) for _ in range(k * lanes)] for _ in range(r.choice([1, 2, 4, 8, 16, 24]))]
        to = [[] for _ in range(mv[0])]
        gold = []
        for x in given:
            for c in range(k):
                to[c % mv[0]].append(" ".join(map(str, x[c * lanes:(c + 1) * lanes])))
            for w in W:
                nz = [(i, a) for i, a in enumerate(x) if a]
                x = [wrap(sum(row[i] * a for i, a in nz)) for row in w] if dlrm else [sum(row[i] * a for i, a in nz) for row in w]
            for c in range(len(x) // lanes):
                gold.append(" ".join(map(str, x[c * lanes:(c + 1) * lanes])))
        if dlrm:
            files[base + "mlp.out"] = "%d\n" % len(gold) + "".join(g + " \n" for g in gold)
            files[base + "mvms.config"] = " ".join(map(str, [layers] + mv)) + " "
            return
        for i, t in enumerate(to):
            files[base + "input_mifs/inputs_mvm%d.mif" % i] = "\n".join(t) + "\n"
        files[base + "golden_outputs.mif"] = "\n".join(gold) + "\n"
        files[base + "layer_mvm_config"] = " ".join(map(str, [layers] + mv)) + " \n"

    CH = [(0, 0), (1, 0)] + [(2, c) for c in range(8)] + [(3, c) for c in range(8)]

    def dlrm(self, r, two):
        """A recommendation model: tables of embeddings spread over the memory channels, looked up, joined and fed to matrix-vector engines."""
        d = "dlrm_two_rad" if two else "dlrm"
        base = "example-designs/%s/compiler/" % d
        s = shipped(d)
        cfg = {k: dict(s[k]) for k in ("noc", "noc_adapters")}
        nfl = -(-(512 + 75 + 16) // s["noc"]["payload_width"][0])
        info = gen.noc_cfg(r, cfg, nfl, types=5, fabric=r.random() < 0.5, big=[9, 10, 11])
        cfg["noc_adapters"]["fifo_size"] = [max(f, nfl + r.choice([0, 1, 4])) for f in cfg["noc_adapters"]["fifo_size"]]
        nodes = info[0]["nodes"]
        files = {}
        while True:
            mv = [r.choice([1, 1, 2, 2, 3]) for _ in range(r.choice([1, 1, 2, 3]))]
            if sum(mv) <= 4:
                break
        # tables: chunk by chunk, channels differ inside a chunk
        cols = r.choice([1, 1, 2, 3])
        used = r.randint(0, cols * mv[0] - 1) if r.random() < 0.3 else cols * mv[0]
        used = max(1, used)
        few = r.random() < 0.4
        chans = r.sample(range(18), r.randint(1, 6)) if few else list(range(18))
        tables, sched = [], []
        space = [0] * 18
        for c in range(cols * mv[0]):
            line, left, free = [], 32, list(chans)
            if c >= used:
                sched.append("0 0 31 0")
                continue
            while left and free:
                n = min(left, r.choice([4, 8, 16, 16, 32, 32]))
                ch = free.pop(r.randrange(len(free)))
                entries = r.choice([1, 2, 10, 100, 5000])
                tables.append(dict(ch=ch, n=n, base=space[ch], entries=entries))
                space[ch] += entries * 64
                line.append("%d 0 %d 1" % (ch + 1, n - 1))
                left -= n
                if c == used - 1 and r.random() < 0.3:
                    break
            if left:
                line.append("0 0 %d 0" % (left - 1))
            sched.append(" ".join(line))
            tables[-1]["pad"] = left
        files[base + "instructions/feature_interaction.inst"] = "".join(l + " \n" for l in sched)
        n = min(r.choice([1, 2, 5, 20, 60, 120, 200]), max(1, (120 if two else 300) // len(tables)))
        mem = [{} for _ in range(18)]
        text = ["%d %d" % (len(tables), n)]
        ins = []
        for _ in range(n):
            x, a, t, b = [], [], [], []
            for tb in tables:
                i = r.randrange(tb["entries"]) * 64
                a.append(i)
                t.append(tb["ch"])
                b.append(tb["base"])
                x += mem[tb["ch"]].setdefault(tb["base"] + i, [r.randint(-2, 2) for _ in range(tb["n"])]) + [0] * tb.get("pad", 0)
            ins.append(x + [0] * (cols * mv[0] * 32 - len(x)))
            for w in (a, t, b):
                text.append(" ".join(map(str, w)) + " ")
        files[base + "embedding_indecies.in"] = "\n".join(text) + "\n"
        for c in range(18):
            files[base + "embedding_tables/channel_%d.dat" % c] = "".join(
                "%d %s\n" % (a, "".join(format(e & 0xffff, "016b") for e in reversed(v + [0] * (32 - len(v))))) for a, v in mem[c].items())
        files[base + "feature_interaction.out"] = "0\n"
        self.mlp(r, files, mv, base, 32, cols, ins, 0.1, 12)
        # timing
        drv = r.choice(gen.PERIODS)
        clks = [drv] + [r.choice(gen.PERIODS) for _ in range(3)]
        # the memory-mapped adapters are clocked faster than their modules
        ads = cfg["noc_adapters"]["clk_period"]
        ads += [round(c / r.choice([1.1, 1.2, 1.6, 2, 2.5, 3, 4]), 3) for c in r.sample(clks, r.choice([0, 1, 2]))] + [round(min(clks) / r.choice([1.2, 2, 2.5]), 3)]
        fast = lambda k: r.choice([i for i, p in enumerate(ads) if p * 1.1 <= clks[k] + 1e-9])
        place, ck = [], []
        at = r.sample(range(nodes), nodes)
        for c, (m, k) in enumerate(self.CH):
            for p in ("embedding_lookup_inst.aximm_req_interface_%d" % c, "feature_interaction_inst.aximm_interface_%d" % c,
                      "ext_mem_%d.mem_channel_%d" % (m, k)):
                place.append("%s 0 %d aximm" % (p, at.pop()))
        shared = at.pop()
        for m in range(mv[0]):
            place.append("feature_interaction_inst.axis_interface_%d 0 %d axis" % (m, shared))
        eng = ["layer%d_mvm%d" % (a, b) for a in range(len(mv)) for b in range(mv[a])]
        for m in eng + ["output_collector"] + (["portal_inst"] if two else []):
            place.append("%s 0 %d axis" % (m, at.pop()))
        ce = r.randrange(4)
        for m, k in [("embedding_lookup_inst", 0), ("feature_interaction_inst", r.randrange(4))] + [("ext_mem_%d" % i, r.randrange(4)) for i in range(4)]:
            ck.append("%s %d %d" % (m, fast(k), k))
        for m, k in [("output_collector", 0)] + [(e, ce) for e in eng] + ([("portal_inst", 0)] if two else []):
            ck.append("%s %d %d" % (m, r.randrange(len(ads)), k))
        files["example-designs/%s/%s.place" % (d, d)] = "\n".join(place) + "\n"
        files["example-designs/%s/%s.clks" % (d, d)] = "\n".join(ck) + "\n"
        if info[0]["anynet"]:
            files["anynet_file"] = info[0]["anynet"]
        names = [k for k in s if k.startswith("config ")]
        cfg["cluster"] = dict(sim_driver_period=drv, telemetry_log_verbosity=0, telemetry_traces=[], num_rads=2 if two else 1,
                              cluster_configs=[k.split()[1] for k in names])
        for k in names:
            dr = dict(s[k]["dram"])
            dr["queue_sizes"] = [r.choice([18, 24, 32, 64, 64]) for _ in range(4)]
            cfg[k] = dict(dram=dr, design=dict(name=d, noc_placement=[d + ".place"], clk_periods=clks))
        if two:
            cfg["cluster"].update(cluster_topology="all-to-all", inter_rad_latency=r.choice([1, 3, 10, 100]) * drv, inter_rad_bw=round(r.uniform(0.5, 3) * 600 / drv, 3),
                                  inter_rad_fifo_num_slots=r.choice([200, 1000]))
        return dict(bin="design_" + d, design=d, cfg=cfg, files=files, seed=r.getrandbits(40), evts=[],
                    head=["time %d" % r.getrandbits(30), "maxns %d" % 200000], meta=dict(design=d, info=info[0], n=n, mv=mv, tables=len(tables)), collect=[], cpu=150)

    def check(self, plan, h):
        if h.end == "max":
            return [("stuck", "%s: no result within the simulated time allowed" % plan["design"])]
        v = crashed(h)
        if v:
            return v
        if BAD.search(h.out) or not GOOD.search(h.out):
            v.append(("result", "%s: the driver did not receive the expected results" % plan["design"]))
        elif h.rc != 0:
            v.append(("status", "%s: exit status %d after a success" % (plan["design"], h.rc)))
        return v

    def stats(self, plan, h):
        c = base_counters(h)
        c["design_" + plan["design"]] += 1
        c["topology_" + plan["meta"]["info"]["topo"]] += 1
        c["foreign_heap_contents"] += bool(plan.get("heap"))
        return c, sched_sig(h), bool(GOOD.search(h.out)), h.sim_ps * 1e-12


PROPS = [P20()]
