"""Generators of simulated systems: configuration, placement, clocks, traffic,
stalls.  Everything is drawn from one random.Random."""
from dst import config as cfgmod
from dst.build import VARIANTS

PERIODS = [0.5, 0.8, 1.0, 1.0, 1.25, 1.5, 1.7, 2.0, 2.5, 3.0, 3.33, 4.0, 5.0, 5.0, 7.3]
ALLOCS = ["islip", "islip", "separable_input_first", "separable_output_first", "wavefront", "max_size", "pim", "loa"]
USERW = {"a": 75, "b": 75, "c": 32, "d": 75, "e": 40}


class Sys:
    def __init__(self, variant, seed=0):
        self.variant = variant
        self.v = dict(VARIANTS[variant])
        self.cfg = None
        self.head = []
        self.evts = []
        self.place = {}
        self.clks = {}
        self.meta = {"ports": {}}
        self.seed = seed
        self.rads = self.v["num_rads"]
        self.collect = []
        self.files = {}

    def plan(self):
        files = dict(self.files)
        head = ["rads %d" % self.rads]
        for r in sorted(set(self.place) | set(self.clks)):
            d = "example-designs/simdut/"
            files[d + "r%d.place" % r] = "\n".join(self.place.get(r, [])) + "\n"
            files[d + "r%d.clks" % r] = "\n".join(self.clks.get(r, [])) + "\n"
            head += ["place %d r%d.place" % (r, r), "clks %d r%d.clks" % (r, r)]
        return dict(bin="sys_" + self.variant, cfg=self.cfg, files=files, head=head + self.head,
                    evts=self.evts, seed=self.seed, meta=self.meta, collect=self.collect)


def flits(variant, dataw):
    v = VARIANTS[variant]
    return -(-(dataw + v["user"] + 1) // v["payload_width"])


def anynet_text(r, nodes):
    """A random tree of routers (acyclic, so minimal routing cannot deadlock)
    with random link latencies; every node hangs off one router."""
    nr = r.randint(2, nodes)
    own = [[] for _ in range(nr)]
    for n in range(nodes):
        own[r.randrange(nr)].append(n)
    lines = []
    for k in range(nr):
        l = "router %d" % k
        for n in own[k]:
            l += " node %d" % n
        if k:
            l += " router %d" % r.randrange(k)
            if r.random() < 0.4:
                l += " %d" % r.randint(1, 5)
        lines.append(l)
    return "\n".join(lines) + "\n"


def noc_cfg(r, cfg, min_fifo, num_nocs=1, types=5, fabric=True, periods=PERIODS, single_vc=False, big=None):
    """Randomises the noc/noc_adapters sections in place. Returns summary.
    Several networks of one device share topology, size and VC count."""
    n = cfg["noc"]
    n["num_nocs"] = num_nocs
    lists = {k: [] for k in ("type", "clk_period", "payload_width", "topology", "dim_x", "dim_y",
                             "routing_func", "vcs", "vc_buffer_size", "output_buffer_size",
                             "num_packet_types", "router_uarch", "vc_allocator", "sw_allocator",
                             "credit_delay", "routing_delay", "vc_alloc_delay", "sw_alloc_delay")}
    a = {k: [] for k in ("fifo_size", "obuff_size", "in_arbiter", "out_arbiter", "vc_mapping")}
    info = []
    pw = n["payload_width"][0]
    topo = r.choice(["mesh", "mesh", "mesh", "mesh", "torus", "torus", "cmesh", "anynet"]) if fabric else "mesh"
    if big and topo == "cmesh":
        topo = "mesh"
    # the VC id field of the headers is 3 bits wide (5 VCs at build time)
    vcs = types * (r.choice([1, 1, 1, 2]) if types * 2 <= 8 and not single_vc else 1)
    if topo == "torus":
        if types * 2 > 8 or single_vc:
            topo = "mesh"
        else:
            vcs = types * 2
    dim = r.choice(big or [3, 4, 4])
    dx = dy = dim
    nodes = dim * dim
    rf = "dim_order"
    any_text = None
    if topo == "cmesh":
        dx = dy = dim = 2
        nodes = 16
        rf = r.choice(["dor", "dor_no_express"])
    elif topo == "anynet":
        nodes = r.randint(big[0] ** 2, big[-1] ** 2) if big else r.randint(9, 16)
        rf = "min"
        any_text = anynet_text(r, nodes)
        n["num_nodes"] = [nodes] * num_nocs
        n["anynet_file"] = ["anynet_file"] * num_nocs
    elif not big and r.random() < 0.2:
        dx, dy = (dim, r.randint(1, dim)) if r.random() < 0.5 else (r.randint(1, dim), dim)
    if topo == "mesh" and r.random() < 0.3:
        rf = "dor"
    for i in range(num_nocs):
        vcb = max(min_fifo, r.choice([1, 2, 3, 4, 8, 8, 16]))
        per = r.choice(periods)
        for k, v in dict(type="3d" if topo == "cmesh" else "2d", clk_period=per, payload_width=pw,
                         topology="mesh" if topo == "cmesh" else topo, dim_x=dx, dim_y=dy,
                         routing_func=rf, vcs=vcs, vc_buffer_size=vcb,
                         output_buffer_size=r.choice([1, 2, 4, 8, 8]), num_packet_types=types,
                         router_uarch="iq",
                         vc_allocator=r.choice(ALLOCS if fabric else ALLOCS[:3]),
                         sw_allocator=r.choice(ALLOCS if fabric else ALLOCS[:3]),
                         credit_delay=r.choice([1, 1, 2, 3]), routing_delay=r.choice([1, 1, 0, 2]),
                         vc_alloc_delay=r.choice([1, 1, 2]), sw_alloc_delay=r.choice([1, 1, 2])).items():
            lists[k].append(v)
        a["fifo_size"].append(r.choice([1, 2, 3, 4, 8, 16, 16, vcb]))
        a["obuff_size"].append(r.choice([1, 2, 2, 4]))
        a["in_arbiter"].append("fixed_rr")
        a["out_arbiter"].append("priority_rr")
        a["vc_mapping"].append("direct")
        info.append(dict(nodes=nodes, dim=dim, topo=topo, vcs=vcs, per=per, vcb=vcb, types=types, anynet=any_text))
    n.update(lists)
    nad = r.choice([1, 1, 2])
    cfg["noc_adapters"] = dict(clk_period=[r.choice(periods) for _ in range(nad)], **a)
    return info


def stall_lines(r, rad, ports, horizon_ns, quiet_end_ns, kinds=("",), heavy=False):
    """Stall windows and duty cycles; all end before quiet_end_ns. Returns
    (lines, counts)."""
    out = []
    for p in ports:
        for k in kinds:
            name = p + k
            mode = r.random()
            if mode < (0.1 if heavy else 0.35):
                continue
            if mode < 0.6:
                for _ in range(r.randint(1, 4)):
                    a = r.uniform(0, horizon_ns)
                    d = r.choice([5, 20, 60, 200, 800]) * r.uniform(0.5, 1.5)
                    b = min(a + d, quiet_end_ns)
                    if b > a:
                        out.append("stall %d %s %d %d" % (rad, name, a * 1000, b * 1000))
            elif mode < 0.85:
                a = r.uniform(0, horizon_ns / 2)
                b = r.uniform(a, quiet_end_ns)
                out.append("duty %d %s %d %d %d %d %d" % (
                    rad, name, r.getrandbits(32), r.choice([30, 128, 200, 240]), r.choice([1, 1, 2, 7]),
                    a * 1000, b * 1000))
            else:
                out.append("stall %d %s 0 %d" % (rad, name, quiet_end_ns * r.uniform(0.3, 1) * 1000))
    return out


def axis_system(r, variant=None, nmsg=(40, 200), heavy=False, num_nocs=1, types=None, scale=None,
                two_colors=True, multi=True, max_mods=8):
    """A single-device system of streaming senders and receivers."""
    variant = variant or r.choice("aacde")
    s = Sys(variant, seed=r.choice([0, 1, 1, 1]) * r.getrandbits(40))
    v = s.v
    cfg = cfgmod.base_cfg(**v)
    maxdw = v["axis"]
    types = types or r.choice([1, 2, 3, 5, 5])
    sc = scale if scale is not None else r.choice([1] * 20 + [60])
    periods = [round(p * sc, 3) for p in PERIODS]
    info = noc_cfg(r, cfg, flits(variant, maxdw), num_nocs=num_nocs, types=types, periods=periods)
    nodes = min(i["nodes"] for i in info)
    if info[0]["anynet"]:
        s.files["anynet_file"] = info[0]["anynet"]
    nclk = r.randint(1, 3)
    mclks = [r.choice(periods) for _ in range(nclk)]
    nad = len(cfg["noc_adapters"]["clk_period"])
    cfg["config rad0"]["design"]["clk_periods"] = mclks
    drv = max(mclks)
    cfg["cluster"]["sim_driver_period"] = drv
    # modules
    colors = 1 if not two_colors or r.random() < 0.6 else 2
    widths = [r.choice([maxdw, maxdw, maxdw // 2, 40, 17]) for _ in range(colors)]
    nm = r.randint(2, max_mods)
    node_clk = {}
    tx, rx = [], []
    for m in range(nm):
        name = "m%d" % m
        # per-noc node for its ports; one node unless several ports are spread
        base_node = r.randrange(nodes) if multi else m
        clk = node_clk.get(base_node)
        if clk is None:
            clk = (r.randrange(nad), r.randrange(nclk))
            node_clk[base_node] = clk
        mod_clk = clk
        nin = r.choice([0, 1, 1, 1, 2, 3]) if multi else 1
        nout = r.choice([0, 1, 1, 1, 2, 3]) if multi else 1
        if m == 0:
            nout = max(1, nout)
        if m == 1:
            nin = max(1, nin)
        if nin + nout == 0:
            nout = 1
        if m == nm - 1:  # every color needs a receiver
            nin = max(nin, 1)
        s.head.append("mod 0 %s %g" % (name, mclks[mod_clk[1]]))
        s.clks.setdefault(0, []).append("%s %d %d" % (name, mod_clk[0], mod_clk[1]))
        for kind, cnt, lst in (("am", nout, tx), ("as", nin, rx)):
            for i in range(cnt):
                pn = ("o%d" if kind == "am" else "i%d") % i
                c = r.randrange(colors)
                t = r.randrange(types)
                noc = r.randrange(num_nocs)
                node = base_node
                if multi and r.random() < 0.25:
                    # another node with the same clocks (or a fresh one)
                    cand = [n for n in range(nodes) if node_clk.get(n, mod_clk) == mod_clk]
                    node = r.choice(cand)
                    node_clk[node] = mod_clk
                s.head.append("port 0 %s %s %s %d %d" % (name, pn, kind, widths[c], t))
                s.place.setdefault(0, []).append("%s.%s %d %d axis" % (name, pn, noc, node))
                lst.append(dict(name="%s.%s" % (name, pn), color=c, noc=noc, per=mclks[mod_clk[1]], node=node))
    # traffic
    pat = r.choice(["random", "hotspot", "burst", "pairs", "random"])
    slow = max(mclks + [i["per"] for i in info] + cfg["noc_adapters"]["clk_period"])
    total = r.randint(*nmsg)
    horizon = slow * total * r.choice([0.2, 1, 3])
    qend = horizon * r.choice([1, 1, 2])
    beats = []
    tag = 0
    for k in range(total):
        x = r.choice(tx)
        cand = [y for y in rx if y["color"] == x["color"] and y["noc"] == x["noc"]]
        if not cand:
            continue
        if pat == "hotspot":
            y = cand[0] if r.random() < 0.8 else r.choice(cand)
        elif pat == "pairs":
            y = cand[tx.index(x) % len(cand)]
        else:
            y = r.choice(cand)
        t0 = r.uniform(0, horizon) if pat != "burst" else r.choice([0, 0.3, 0.6]) * horizon
        beats.append([t0, x, y])
    beats.sort(key=lambda b: b[0])
    for t0, x, y in beats:
        tag += 1
        s.evts.append("beat 0 %s %d 0 %s %d %d %d" % (
            x["name"], int(t0 * 1000), y["name"], tag, r.getrandbits(48), r.random() < 0.3))
    s.evts += stall_lines(r, 0, [y["name"] for y in rx], horizon, qend, heavy=heavy)
    if r.random() < 0.3:
        s.evts += stall_lines(r, 0, [x["name"] for x in tx], horizon, qend)
    # bounds: generous, in slowest-clock cycles
    nfl = flits(variant, maxdw)
    quiet = slow * (1500 + 40 * nfl * 16)
    s.head += ["quietfrom %d" % int(qend * 1000), "quietns %.3f" % quiet, "drainns %.3f" % (slow * 120),
               "maxns %.3f" % (qend + horizon + quiet + slow * (total * nfl * 60 + 2000)),
               "chunkns %.3f" % (slow * 12), "rstns %.3f" % (slow * 4)]
    s.cfg = cfg
    s.meta.update(pattern=pat, total=len(beats), slow=slow, info=info, qend=qend,
                  rx={y["name"]: y for y in rx}, tx={x["name"]: x for x in tx})
    return s


def add_probe(r, s):
    """A second phase after the first one has long drained: every sender with a
    partner streams a fixed burst.  The same burst alone on a fresh system is
    the yardstick for sustained throughput."""
    m = s.meta
    slow = m["slow"]
    beats = [e for e in s.evts if e.startswith("beat")]
    first = 1 + max([int(e.split()[6]) for e in beats] + [0])
    at = m["qend"] * 1.5 + slow * (400 + 25 * len(beats) * flits(s.variant, s.v["axis"]))
    per = max(4, min(40, 160 // max(1, len(m["tx"]))))
    tag = first
    for x in m["tx"].values():
        cand = [y for y in m["rx"].values() if y["color"] == x["color"] and y["noc"] == x["noc"]]
        if not cand:
            continue
        y = r.choice(cand)
        for _ in range(per):
            s.evts.append("beat 0 %s %d 0 %s %d %d 1" % (x["name"], int(at * 1000), y["name"], tag, r.getrandbits(48)))
            tag += 1
    m["probe"] = dict(at=int(at * 1000), first=first)
    for i, l in enumerate(s.head):
        k = l.split()
        if k[0] == "quietfrom":
            s.head[i] = "quietfrom %d" % int(at * 1000)
        elif k[0] == "maxns":
            s.head[i] = "maxns %.3f" % (float(k[1]) + at)


def _probe_from(s, at, first):
    s.meta["probe"] = dict(at=int(at * 1000), first=first)
    for i, l in enumerate(s.head):
        k = l.split()
        if k[0] == "quietfrom":
            s.head[i] = "quietfrom %d" % int(at * 1000)
        elif k[0] == "maxns":
            s.head[i] = "maxns %.3f" % (float(k[1]) + at)


def add_lone_probe(r, s):
    """Long after the load has drained, single messages far apart: each meets an empty system, so it must take as long
    as on a new one."""
    m = s.meta
    slow = m["slow"]
    beats = [e for e in s.evts if e.startswith("beat")]
    first = tag = 1 + max([int(e.split()[6]) for e in beats] + [0])
    start = at = m["qend"] * 1.1 + slow * (300 + 4 * len(beats) * flits(s.variant, s.v["axis"]))
    for _ in range(r.randint(4, 12)):
        x = r.choice(list(m["tx"].values()))
        cand = [y for y in m["rx"].values() if y["color"] == x["color"] and y["noc"] == x["noc"]]
        if not cand:
            continue
        y = r.choice(cand)
        # with several channels per class the first channel tried depends on history
        n = r.choice([1, 1, 3, 8, 24]) if all(i["vcs"] == i["types"] for i in m["info"]) else 1
        for j in range(n):
            s.evts.append("beat 0 %s %d 0 %s %d %d %d" % (x["name"], int(at * 1000), y["name"], tag, r.getrandbits(48), j == n - 1 or r.random() < 0.2))
            tag += 1
        at += slow * (r.uniform(300, 420) + 4 * n * flits(s.variant, s.v["axis"]))
    _probe_from(s, at, first)
    m["probe"].update(lone=True, at=int(start * 1000))


def add_multi_probe(r, s):
    """The same between devices."""
    m = s.meta
    slow = m["slow"]
    first = tag = m["total"] + 1
    at = start = m["qend"] * 1.1 + m["lat"] + slow * (300 + m["total"] * m["nfl"] * 4) + 1.2 * m["drv"] * m["total"] / m["share"]
    for _ in range(r.randint(4, 12)):
        x = r.choice(m["mtx"])
        here = [y for y in m["mrx"] if y["rad"] == x["rad"]]
        there = [y for y in m["mrx"] if y["rad"] != x["rad"] and y["name"].endswith(".i0")]
        y = r.choice(here if r.random() < 0.3 and here else there)
        n = r.choice([1, 1, 3, 8])
        for j in range(n):
            s.evts.append("beat %d %s %d %d %s %d %d %d" % (x["rad"], x["name"], int(at * 1000), y["rad"], y["name"], tag, r.getrandbits(48), j == n - 1))
            tag += 1
        at += slow * (r.uniform(400, 520) + 4 * n * m["nfl"]) + m["lat"] + (2 + 1.2 * n) * m["drv"] / m["share"]
    _probe_from(s, at, first)
    m["probe"].update(lone=True, at=int(start * 1000))


def add_mm_probe(r, s):
    """The same for memory-mapped operations: single ones far apart, then everybody at once."""
    m = s.meta
    slow, nfl = m["slow"], m["nfl"]
    s.evts = [e.rsplit(" ", 2)[0] + " 0 " + e.rsplit(" ", 1)[1] if e.startswith("tgt") else e for e in s.evts]
    first = k = m["total"]
    at = start = m["qend"] * 1.1 + slow * (600 + m["beats"] * nfl * 3)
    def op(i, t0, ln):
        nonlocal k
        s.evts.append("op 0 %s %d %s %d 0 %s %d %d %d %d %d %d -1 0" % (
            i, k, r.choice("RW"), int(t0 * 1000), r.choice(m["tgts"]), r.getrandbits(50), ln, r.randrange(8), r.randrange(3), r.randrange(256), r.getrandbits(48)))
        k += 1
    lone = r.random() < 0.6
    if lone:
        for _ in range(r.randint(4, 10)):
            ln = r.choice([0, 0, 1, 3, 7, 20])
            op(r.choice(m["inits"]), at, ln)
            at += slow * (r.uniform(300, 420) + 20 * nfl * (ln + 1))
    else:
        for i in m["inits"]:
            for _ in range(max(3, 24 // len(m["inits"]))):
                op(i, at, r.choice([0, 1, 3]))
    m["probe_ops"] = k - first
    _probe_from(s, at, first)
    m["probe"].update(lone=lone, at=int(start * 1000))


def mm_flits(v):
    p = v["payload_width"]
    u = v["axi4_user"]
    return max(-(-(64 + 13 + u + 3) // p), -(-(v["axi4"] + 3 + u) // p))


def aximm_system(r, variant=None, nops=(20, 120), heavy=False, ratio=None, num_nocs=1, axis_too=False, block=None,
                 max_nodes=8, single_vc=True, fabric=True, scale=1):
    """Initiators and targets of memory-mapped traffic; one port per node."""
    variant = variant or r.choice("aacde")
    s = Sys(variant, seed=r.choice([0, 1, 1, 1]) * r.getrandbits(40))
    v = s.v
    cfg = cfgmod.base_cfg(**v)
    nfl = mm_flits(v)
    periods = [p * scale for p in PERIODS]
    info = noc_cfg(r, cfg, nfl, num_nocs=num_nocs, types=5, periods=periods, fabric=fabric, single_vc=single_vc)
    cfg["noc_adapters"]["fifo_size"] = [max(f, nfl + r.choice([0, 1, 4])) for f in cfg["noc_adapters"]["fifo_size"]]
    nodes = min(i["nodes"] for i in info)
    if info[0]["anynet"]:
        s.files["anynet_file"] = info[0]["anynet"]
    # clocks: module period = ratio x adapter period
    nad = len(cfg["noc_adapters"]["clk_period"])
    nclk = r.randint(1, 3)
    pair = []
    mclks, ads = [], []
    for k in range(nclk):
        ad = r.choice([0.5, 0.8, 1.0, 1.25, 1.5, 2.0]) * scale
        # the adapter clock is faster than the module clock
        ra = ratio(r) if ratio else r.choice([2, 3, 4, 4, 5, 2.5, 3.2, 1.2, 1.6, round(r.uniform(1.1, 6), 2)])
        ads.append(ad)
        mclks.append(round(ad * ra, 3))
    cfg["noc_adapters"]["clk_period"] = ads
    cfg["config rad0"]["design"]["clk_periods"] = mclks
    cfg["cluster"]["sim_driver_period"] = max(mclks)
    ni = r.randint(1, max(1, max_nodes // 2))
    nt = r.randint(1, max(1, max_nodes // 2))
    free = list(range(nodes))
    r.shuffle(free)
    inits, tgts = [], []
    dataw = r.choice([v["axi4"], v["axi4"], v["axi4"] // 2, 64, 40])
    for k in range(ni + nt):
        c = r.randrange(nclk)
        kind = "mi" if k < ni else "mt"
        name = "%s%d" % (kind, k)
        s.head.append("mod 0 %s %g" % (name, mclks[c]))
        s.head.append("port 0 %s p %s %d 0" % (name, kind, dataw))
        s.clks.setdefault(0, []).append("%s %d %d" % (name, c, c))
        s.place.setdefault(0, []).append("%s.p %d %d aximm" % (name, r.randrange(num_nocs), free.pop()))
        (inits if kind == "mi" else tgts).append(dict(name=name + ".p", per=mclks[c]))
    slow = max(mclks + [i["per"] for i in info] + ads)
    total = r.randint(*nops)
    horizon = slow * total * r.choice([0.3, 2, 6])
    qend = horizon * r.choice([1, 1, 2])
    ops = []
    for k in range(total):
        i = r.choice(inits)
        t = r.choice(tgts) if r.random() < 0.8 else tgts[0]
        ln = r.choice([0, 0, 1, 3, 7, r.randint(0, 20)])
        t0 = r.uniform(0, horizon) if r.random() < 0.7 else 0
        ops.append((t0, k, i, t, ln))
    ops.sort(key=lambda o: o[0])
    beats = 0
    for t0, k, i, t, ln in ops:
        beats += ln + 1
        s.evts.append("op 0 %s %d %s %d 0 %s %d %d %d %d %d %d -1 %d" % (
            i["name"], k, r.choice("RW"), int(t0 * 1000), t["name"], r.getrandbits(50), ln, r.randrange(8),
            r.randrange(3), r.randrange(256), r.getrandbits(48), r.choice([0, 0, 0, 3, 10])))
    for i in inits:
        if r.random() < 0.4:
            s.evts.append("awahead 0 %s %d" % (i["name"], r.randint(1, 4)))
    for t in tgts:
        s.evts.append("tgt 0 %s %d %d %d" % (t["name"], r.getrandbits(32), r.choice([0, 0, 3, 20, 100]), r.random() < 0.4))
    s.evts += stall_lines(r, 0, [t["name"] for t in tgts], horizon, qend, kinds=(".ar", ".aw", ".w", ".r", ".b"), heavy=heavy)
    s.evts += stall_lines(r, 0, [t["name"] for t in inits], horizon, qend, kinds=(".r", ".b"), heavy=heavy)
    quiet = slow * (2500 + 60 * nfl * 16)
    s.head += ["quietfrom %d" % int(qend * 1000), "quietns %.3f" % quiet, "drainns %.3f" % (slow * 150),
               "maxns %.3f" % (qend + horizon + quiet + slow * (beats * nfl * 80 + 4000)),
               "chunkns %.3f" % (slow * 12), "rstns %.3f" % (slow * 4)]
    s.cfg = cfg
    s.meta.update(total=total, beats=beats, slow=slow, info=info, qend=qend, mclks=mclks, ads=ads, nfl=nfl,
                  inits=[i["name"] for i in inits], tgts=[t["name"] for t in tgts])
    return s


def dram_variant_text(r, name):
    """A shipped DRAM configuration with other controller policies."""
    from dst import dramcfg
    t = dramcfg.load(name)
    ch = {}
    if r.random() < 0.5:
        ch["queue_structure"] = r.choice(["PER_BANK", "PER_RANK"])
    if r.random() < 0.5:
        ch["row_buf_policy"] = r.choice(["OPEN_PAGE", "CLOSE_PAGE"])
    if r.random() < 0.4:
        ch["refresh_policy"] = r.choice(["RANK_LEVEL_SIMULTANEOUS", "RANK_LEVEL_STAGGERED", "BANK_LEVEL_STAGGERED"])
    if r.random() < 0.5:
        ch["cmd_queue_size"] = r.choice([4, 8, 16])
    if r.random() < 0.5:
        ch["trans_queue_size"] = r.choice([8, 16, 32, 64])
    if r.random() < 0.4:
        ch["address_mapping"] = r.choice(["rochrababgco", "rorabgbachco", "chrobabgraco", "rorababgchco", "chrabgbaroco"])
    return dram_edit(t, ch), ch


def dram_edit(t, ch):
    import re
    out = []
    for k, v in ch.items():
        n = re.sub(r"(?m)^(\s*%s\s*=).*$" % k, lambda m: m.group(1) + " " + str(v), t)
        if n == t and not re.search(r"(?m)^\s*%s\s*=\s*%s\s*$" % (k, re.escape(str(v))), t):
            n = re.sub(r"(?m)^\[system\].*$", lambda m: m.group(0) + "\n%s = %s" % (k, v), t, count=1)
        t = n
    return t


COMMON_DRAM = ["DDR4_8Gb_x16_2400", "HBM2_8Gb_x128", "DDR3_4Gb_x8_1600", "DDR4_4Gb_x4_2666", "ST-1.2x", "LPDDR3_8Gb_x32_1600",
               "HBM1_4Gb_x128", "DDR4_8Gb_x8_3200", "ddr4_debug"]


def address_pool(r, g, n, base_rows=3, span=None):
    """Word addresses that collide in banks, rows, ranks and groups."""
    pool = []
    rows = [r.randrange(g.rows) for _ in range(base_rows)]
    cos = [r.randrange(g.wcols) for _ in range(3)]
    for _ in range(n):
        pool.append(g.addr(0, r.choice(cos), r.randrange(g.ba) if r.random() < 0.5 else 0,
                           r.choice(rows), r.randrange(g.bg) if r.random() < 0.5 else 0,
                           r.randrange(g.ranks)))
    return pool


def pick_dram(r, maxb):
    from dst import dramcfg
    us = dramcfg.usable(maxb)
    c = [x for x in COMMON_DRAM if x in us]
    return r.choice(c) if r.random() < 0.7 and c else r.choice(us)


def memory_system(r, nops=(20, 150), heavy=False, big=False, stream=0.15, wide=0):
    """Memory controllers driven directly, one initiator per used channel."""
    from dst import dramcfg
    s = Sys("a", seed=r.choice([0, 1, 1, 1]) * r.getrandbits(40))
    s.head.append("nonoc")
    cfg = cfgmod.base_cfg(**s.v)
    nm = r.choice([1, 1, 2])
    geos, names = [], []
    for m in range(nm):
        n = pick_dram(r, 64)
        if r.random() < 0.5:
            text, _ = dram_variant_text(r, n)
            name = "V%d" % m
            s.files["sim/dram/DRAMsim3/configs/%s.ini" % name] = text
            g = dramcfg.Geometry(name, text)
        else:
            name, g = n, dramcfg.Geometry(n)
        names.append(name)
        geos.append(g)
    qs = [r.choice([17, 18, 20, 24, 32, 64, 64]) for _ in range(nm)]
    cfg["config rad0"]["dram"] = dict(num_controllers=nm, clk_periods=[g.ctrl for g in geos], queue_sizes=qs, config_files=names)
    total = r.randint(*nops)
    slow = max(g.ctrl for g in geos)
    horizon = slow * total * r.choice([1, 4, 12])
    qend = horizon * r.choice([1, 1, 2])
    inis = []
    k = 0
    for m, g in enumerate(geos):
        init = r.random() < 0.7
        s.head.append("mem 0 mem%d %d %s %g" % (m, m, ("init%d" % m) if init else "-", g.ctrl))
        chans = r.sample(range(g.channels), min(g.channels, r.choice([1, 2, 3])))
        for c in chans:
            nm_ = "ep%d" % k
            k += 1
            s.head.append("mod 0 %s %g" % (nm_, g.ctrl))
            s.head.append("port 0 %s p md %d 0" % (nm_, g.word * 8))
            s.head.append("direct 0 %s.p mem%d %d" % (nm_, m, c))
            pool = address_pool(r, g, r.choice([2, 6, 20]), r.choice([1, 2, 4]))
            if init:
                for a in pool:
                    for j in range(r.choice([0, 1, 4, 16])):
                        if a // g.word + j < g.words and r.random() < 0.7:
                            s.evts.append("init 0 mem%d %d %d %d" % (m, c, a + j * g.word, r.getrandbits(40)))
            inis.append(dict(name=nm_ + ".p", g=g, pool=pool, mem=m, ch=c, n=0))
    size = {32: 5, 64: 6}
    if r.random() < stream:
        mode = r.choice("RW")
    else:
        mode = None
    ops = []
    for i in range(total):
        x = r.choice(inis)
        g = x["g"]
        ln = r.choice([0, 0, 1, 1, 3, 7, 15, r.randint(0, 40)] + ([r.randint(16, 255)] * 3 if big else []))
        a = r.choice(x["pool"]) + g.word * r.choice([0, 0, 1, -1, r.randint(0, 16)])
        a = max(0, min(a, (g.words - 1 - ln) * g.word))
        t0 = r.uniform(0, horizon) if r.random() < 0.7 else 0
        kind = mode or r.choice("RRW")
        after = -1
        mine = [o for o in ops if o[2] is x]
        if mine and r.random() < 0.25:
            # wait for an earlier operation; often read back what it wrote
            o = r.choice(mine)
            after = o[1]
            if o[5] == "W" and r.random() < 0.8 and not mode:
                kind, a, ln = "R", o[4], min(ln, o[3]) if r.random() < 0.5 else o[3]
                a = max(0, min(a, (g.words - 1 - ln) * g.word))
        ops.append((t0, i, x, ln, a, kind, after))
    for t0, i, x, ln, a, kind, after in ops:
        g = x["g"]
        sz, extra = size[g.word], ""
        if kind == "R" and r.random() < wide:
            # beats of more than one memory word: one response per word
            k = r.choice([1, 1, 2]) if sz < 6 else 1
            if ln < 60 and a // g.word + ((ln + 1) << k) <= g.words:
                sz, extra = sz + k, " %d" % ((ln + 1) << k)
        s.evts.append("op 0 %s %d %s %d 0 - %d %d %d 1 %d %d %d %d%s" % (
            x["name"], i, kind, int(t0 * 1000), a, ln, sz, r.randrange(256), r.getrandbits(48), after,
            r.choice([0, 0, 0, 3, 10]), extra))
    s.evts += stall_lines(r, 0, [x["name"] for x in inis], horizon, qend, kinds=(".r", ".b"), heavy=heavy)
    beats = sum(o[3] + 1 for o in ops)
    quiet = slow * 20000
    s.head += ["quietfrom %d" % int(qend * 1000), "quietns %.3f" % quiet, "drainns %.3f" % (slow * 300),
               "maxns %.3f" % (qend + horizon + quiet + slow * (beats * 400 + 20000)),
               "chunkns %.3f" % (slow * 12), "rstns %.3f" % (slow * 4)]
    s.cfg = cfg
    s.meta.update(total=total, beats=beats, slow=slow, qend=qend, qs=qs, dram=names,
                  words=[g.word for g in geos],
                  port={x["name"]: [x["mem"], x["ch"]] for x in inis})
    return s


def memory_noc_system(r, nops=(20, 110), heavy=False, writers="one"):
    """Memory controllers and their users on a network.  writers: 'one' initiator
    writes each memory channel, 'many' lets all of them write."""
    from dst import dramcfg
    variant = r.choice("aaaed")
    s = Sys(variant, seed=r.choice([0, 1, 1, 1]) * r.getrandbits(40))
    v = s.v
    cfg = cfgmod.base_cfg(**v)
    nfl = mm_flits(v)
    info = noc_cfg(r, cfg, nfl, num_nocs=1, types=5, single_vc=True)
    cfg["noc_adapters"]["fifo_size"] = [max(f, nfl + r.choice([0, 1, 4])) for f in cfg["noc_adapters"]["fifo_size"]]
    nodes = info[0]["nodes"]
    if info[0]["anynet"]:
        s.files["anynet_file"] = info[0]["anynet"]
    free = list(range(nodes))
    r.shuffle(free)
    nm = r.choice([1, 1, 2])
    geos, names = [], []
    mclks, ads = [], []
    for m in range(nm):
        left = len(free) - 4 - (nm - 1 - m)
        while True:
            n = pick_dram(r, v["axi4"] // 8)
            g = dramcfg.Geometry(n)
            if g.channels <= left and (not geos or g.word == geos[0].word):
                break
        if r.random() < 0.4:
            text, _ = dram_variant_text(r, n)
            name = "V%d" % m
            s.files["sim/dram/DRAMsim3/configs/%s.ini" % name] = text
            g = dramcfg.Geometry(name, text)
        else:
            name, g = n, dramcfg.Geometry(n)
        names.append(name)
        geos.append(g)
        mclks.append(g.ctrl)
        ads.append(round(g.ctrl / r.choice([2, 3, 4, 2.5, 1.6]), 3))
        place = []
        for c in range(g.channels):
            place.append("mem%d.mem_channel_%d 0 %d aximm" % (m, c, free.pop()))
        s.place.setdefault(0, []).extend(place)
        s.clks.setdefault(0, []).append("mem%d %d %d" % (m, m, m))
    for k in range(r.randint(1, 2)):
        ad = r.choice([0.8, 1.0, 1.25, 1.5])
        ads.append(ad)
        mclks.append(round(ad * r.choice([2, 3, 4, 2.5, 1.6]), 3))
    qs = [r.choice([17, 18, 20, 24, 32, 64, 64]) for _ in range(nm)]
    cfg["noc_adapters"]["clk_period"] = ads
    cfg["config rad0"]["design"]["clk_periods"] = mclks
    cfg["cluster"]["sim_driver_period"] = max(mclks)
    cfg["config rad0"]["dram"] = dict(num_controllers=nm, clk_periods=[g.ctrl for g in geos], queue_sizes=qs, config_files=names)
    total = r.randint(*nops)
    slow = max(mclks + [info[0]["per"]] + ads)
    horizon = slow * total * r.choice([1, 4, 12])
    qend = horizon * r.choice([1, 1, 2])
    chans = []
    for m, g in enumerate(geos):
        init = r.random() < 0.7
        s.head.append("mem 0 mem%d %d %s %g" % (m, m, ("init%d" % m) if init else "-", g.ctrl))
        for c in r.sample(range(g.channels), min(g.channels, r.choice([1, 2, 3]))):
            pool = address_pool(r, g, r.choice([2, 6, 20]), r.choice([1, 2, 4]))
            if init:
                for a in pool:
                    for j in range(r.choice([0, 1, 4, 16])):
                        if a // g.word + j < g.words and r.random() < 0.7:
                            s.evts.append("init 0 mem%d %d %d %d" % (m, c, a + j * g.word, r.getrandbits(40)))
            chans.append(dict(tgt="mem%d.mem_channel_%d" % (m, c), g=g, pool=pool))
    ni = min(len(free), r.randint(1, 5))
    inis = []
    for k in range(ni):
        c = r.randrange(len(mclks))
        # all accesses are one memory word wide, so an initiator is as wide as the widest memory it uses
        s.head.append("mod 0 mi%d %g" % (k, mclks[c]))
        s.head.append("port 0 mi%d p mi %d 0" % (k, max(g.word for g in geos) * 8))
        s.clks.setdefault(0, []).append("mi%d %d %d" % (k, c, c))
        s.place.setdefault(0, []).append("mi%d.p 0 %d aximm" % (k, free.pop()))
        inis.append("mi%d.p" % k)
    for x in chans:
        x["writer"] = r.choice(inis)
    size = {g.word: g.word.bit_length() - 1 for g in geos}
    ops = []
    mode = r.choice("RW") if r.random() < 0.15 else None
    for i in range(total):
        x = r.choice(chans)
        g = x["g"]
        ini = r.choice(inis)
        ln = r.choice([0, 0, 1, 1, 3, 7, 15, r.randint(0, 24)])
        a = r.choice(x["pool"]) + g.word * r.choice([0, 0, 1, -1, r.randint(0, 16)])
        t0 = r.uniform(0, horizon) if r.random() < 0.7 else 0
        kind = mode or r.choice("RRW")
        if kind == "W" and writers == "one":
            ini = x["writer"]
        after = -1
        mine = [o for o in ops if o[2] == ini]
        if mine and r.random() < 0.25:
            o = r.choice(mine)
            after = o[1]
            if o[5] == "W" and r.random() < 0.8 and not mode:
                kind, a, ln, x = "R", o[4], min(ln, o[3]) if r.random() < 0.5 else o[3], o[7]
                g = x["g"]
        a = max(0, min(a, (g.words - 1 - ln) * g.word))
        ops.append((t0, i, ini, ln, a, kind, after, x))
    for t0, i, ini, ln, a, kind, after, x in ops:
        s.evts.append("op 0 %s %d %s %d 0 %s %d %d %d 1 %d %d %d %d" % (
            ini, i, kind, int(t0 * 1000), x["tgt"], a, ln, size[x["g"].word], r.randrange(256), r.getrandbits(48), after,
            r.choice([0, 0, 0, 3, 10])))
    for i in inis:
        if r.random() < 0.3:
            s.evts.append("awahead 0 %s %d" % (i, r.randint(1, 4)))
    s.evts += stall_lines(r, 0, inis, horizon, qend, kinds=(".r", ".b"), heavy=heavy)
    beats = sum(o[3] + 1 for o in ops)
    quiet = slow * 20000
    s.head += ["quietfrom %d" % int(qend * 1000), "quietns %.3f" % quiet, "drainns %.3f" % (slow * 300),
               "maxns %.3f" % (qend + horizon + quiet + slow * (beats * nfl * 400 + 20000)),
               "chunkns %.3f" % (slow * 12), "rstns %.3f" % (slow * 4)]
    s.cfg = cfg
    s.meta.update(total=total, beats=beats, slow=slow, qend=qend, qs=qs, dram=names, writers=writers, info=info,
                  words=[g.word for g in geos])
    return s


FOREVER = 10 ** 15


def isolation_system(r, nmsg=(30, 160)):
    """Streaming and memory-mapped ports of all classes; the receivers of some
    classes stop accepting for good.  No node sends both a class that may be
    blocked and one that must keep flowing (a node has one injection queue)."""
    variant = r.choice("aacde")
    s = Sys(variant, seed=r.choice([0, 1, 1, 1]) * r.getrandbits(40))
    v = s.v
    cfg = cfgmod.base_cfg(**v)
    mm = r.random() < 0.6
    maxdw = v["axis"]
    nfl = max(mm_flits(v) if mm else 0, flits(variant, maxdw))
    info = noc_cfg(r, cfg, nfl, types=5, single_vc=mm)
    cfg["noc_adapters"]["fifo_size"] = [max(f, nfl + r.choice([0, 1, 4])) for f in cfg["noc_adapters"]["fifo_size"]]
    nodes = info[0]["nodes"]
    if info[0]["anynet"]:
        s.files["anynet_file"] = info[0]["anynet"]
    nclk = r.randint(1, 3)
    ads = [r.choice([0.5, 0.8, 1.0, 1.25, 1.5, 2.0]) for _ in range(nclk)]
    mclks = [round(a * r.choice([2, 3, 4, 5, 2.5, 3.2, 1.2, round(r.uniform(1.1, 6), 2)]), 3) for a in ads]
    cfg["noc_adapters"]["clk_period"] = ads
    cfg["config rad0"]["design"]["clk_periods"] = mclks
    cfg["cluster"]["sim_driver_period"] = max(mclks)
    free = list(range(nodes))
    r.shuffle(free)
    blocked = set(r.sample(range(5), r.choice([1, 1, 1, 2, 3])))
    slow = max(mclks + [info[0]["per"]] + ads)
    total = r.randint(*nmsg)
    horizon = slow * total * r.choice([0.2, 1, 3])
    qend = horizon * r.choice([1, 2])
    n = 0

    def module(kind):
        nonlocal n
        c = r.randrange(nclk)
        name = "%s%d" % (kind, n)
        n += 1
        s.head.append("mod 0 %s %g" % (name, mclks[c]))
        s.clks.setdefault(0, []).append("%s %d %d" % (name, c, c))
        return name

    def port(mod, pn, kind, dw, t, node):
        s.head.append("port 0 %s %s %s %d %d" % (mod, pn, kind, dw, t))
        s.place.setdefault(0, []).append("%s.%s 0 %d %s" % (mod, pn, node, "axis" if kind[0] == "a" else "aximm"))
        return "%s.%s" % (mod, pn)

    ni, nt = (r.randint(1, 2), r.randint(1, 2)) if mm else (0, 0)
    na = min(len(free) - ni - nt, r.randint(3, 10))
    # streaming: receivers first, then senders of one class each
    rx, tx = [], []
    nrx = max(1, na // 2)
    bias = list(blocked) + [c for c in range(5) if c not in blocked]
    for k in range(nrx):
        m, node = module("r"), free.pop()
        cl = r.sample(range(5), r.choice([1, 1, 2, 3]))
        if k == 0:
            cl = list({r.choice(list(blocked)), r.choice([c for c in range(5) if c not in blocked])})
        for i, c in enumerate(cl):
            rx.append(dict(name=port(m, "i%d" % i, "as", maxdw, c, node), cls=c))
    have = sorted({x["cls"] for x in rx})
    for k in range(na - nrx):
        m, node = module("t"), free.pop()
        c = r.choice(have)
        for i in range(r.choice([1, 1, 2])):
            tx.append(dict(name=port(m, "o%d" % i, "am", maxdw, c, node), cls=c))
    # memory-mapped
    def role(split):
        return r.choice("RW") if split else r.choice("RWX")
    inits = [dict(name=port(module("mi"), "p", "mi", v["axi4"], 0, free.pop()), role=role(blocked & {0, 1, 2})) for _ in range(ni)]
    tgts = [dict(name=port(module("mt"), "p", "mt", v["axi4"], 0, free.pop()), role=role(blocked & {3, 4})) for _ in range(nt)]
    tag = 0
    for k in range(total):
        t0 = int((r.uniform(0, horizon) if r.random() < 0.7 else 0) * 1000)
        if tx and (not mm or r.random() < 0.6):
            x = r.choice(tx)
            y = r.choice([y for y in rx if y["cls"] == x["cls"]])
            tag += 1
            s.evts.append("beat 0 %s %d 0 %s %d %d %d" % (x["name"], t0, y["name"], tag, r.getrandbits(48), r.random() < 0.3))
        elif mm:
            i, t = r.choice(inits), r.choice(tgts)
            kinds = [q for q in "RW" if i["role"] in (q, "X") and t["role"] in (q, "X")]
            if not kinds:
                continue
            s.evts.append("op 0 %s %d %s %d 0 %s %d %d 3 1 %d %d -1 %d" % (
                i["name"], k, r.choice(kinds), t0, t["name"], r.getrandbits(50), r.choice([0, 0, 1, 3, 7]),
                r.randrange(256), r.getrandbits(48), r.choice([0, 0, 3])))
    # in time order per port
    s.evts.sort(key=lambda e: int(e.split()[3 if e[0] == "b" else 5]))
    for t in tgts:
        s.evts.append("tgt 0 %s %d %d 0" % (t["name"], r.getrandbits(32), r.choice([0, 0, 3, 20])))
    # permanent refusal
    stop = lambda: 0 if r.random() < 0.5 else int(r.uniform(0, horizon / 2) * 1000)
    hit = 0
    for c in sorted(blocked):
        cand = [y["name"] for y in rx if y["cls"] == c]
        if c < 3:
            cand += [t["name"] + (".ar", ".aw", ".w")[c] for t in tgts]
        else:
            cand += [i["name"] + (".r", ".b")[c - 3] for i in inits]
        if cand:
            for x in r.sample(cand, r.randint(1, len(cand))):
                s.evts.append("stall 0 %s %d %d" % (x, stop(), FOREVER))
                hit += 1
    # ordinary stalls elsewhere
    names = [y["name"] for y in rx if y["cls"] not in blocked]
    s.evts += stall_lines(r, 0, names, horizon, qend)
    if not blocked & {0, 1, 2}:
        s.evts += stall_lines(r, 0, [t["name"] for t in tgts], horizon, qend, kinds=(".ar", ".aw", ".w"))
    quiet = slow * (1500 + 50 * nfl * 16)
    s.head += ["quietfrom %d" % int(qend * 1000), "quietns %.3f" % quiet, "drainns %.3f" % (slow * 150),
               "maxns %.3f" % (qend + horizon + quiet + slow * (total * 8 * nfl * 60 + 4000)),
               "chunkns %.3f" % (slow * 12), "rstns %.3f" % (slow * 4)]
    s.cfg = cfg
    s.meta.update(total=total, slow=slow, info=info, qend=qend, blocked=sorted(blocked), hit=hit,
                  cls={x["name"]: x["cls"] for x in tx})
    return s


def link_cfg(r, cfg, drv, width, lat=None, share=None, slots=None):
    c = cfg["cluster"]
    c["sim_driver_period"] = drv
    lat = lat if lat is not None else r.choice([0, drv, 2.5 * drv, r.uniform(1, 40) * drv, r.uniform(1, 300) * drv])
    share = share if share is not None else r.choice([1, 1, 1.7, 0.5, 0.25, 0.6, 0.3, round(r.uniform(0.01, 1), 3), r.uniform(0.02, 1)])
    c["inter_rad_latency"] = round(lat, 3)
    c["inter_rad_bw"] = share * width / drv if r.random() < 0.5 else round(share * width / drv, 4)
    c["inter_rad_fifo_num_slots"] = slots if slots is not None else r.choice([1, 2, 4, 8, 20, 100, 1000])
    return dict(lat=c["inter_rad_latency"], bw=c["inter_rad_bw"], slots=c["inter_rad_fifo_num_slots"])


def link_system(r, nmsg=(20, 400), saturate=False):
    """The link between devices alone: one sender and one receiver per device."""
    n = r.choice([2, 2, 3, 4, 6])
    s = Sys("b", seed=r.choice([0, 1, 1, 1]) * r.getrandbits(40))
    s.rads = n
    s.head.append("link")
    cfg = cfgmod.base_cfg(**dict(s.v, num_rads=n))
    drv = r.choice(PERIODS)
    if saturate:
        info = link_cfg(r, cfg, drv, s.v["axis"], lat=r.uniform(0, 20) * drv, slots=r.choice([100, 1000]))
    else:
        info = link_cfg(r, cfg, drv, s.v["axis"])
    for k in range(n):
        s.head.append("mod %d n %g" % (k, drv))
        s.head.append("port %d n tx am %d 0" % (k, s.v["axis"]))
        s.head.append("port %d n rx as %d 0" % (k, s.v["axis"]))
    share = min(1.0, info["bw"] * drv / s.v["axis"])
    total = r.randint(*nmsg)
    horizon = drv * total * r.choice([0.2, 1, 4]) / n
    pat = r.choice(["random", "hotspot", "burst", "pairs", "sparse"])
    if saturate:
        # one or two devices that always have something to send
        src = r.sample(range(n), r.choice([1, 1, 2]) if n > 2 else 1)
        total = min(2600, int(1000 * share * r.choice([1.2, 2.3])) * len(src) + 20)
        horizon = 0
    else:
        src = list(range(n))
        if pat == "sparse":
            horizon = drv * total * (info["lat"] / drv + 6) * 1.5
            total = min(total, 60)
    ev = []
    for k in range(total):
        a = r.choice(src)
        b = r.randrange(n) if pat != "hotspot" or r.random() < 0.2 else 0
        if pat == "pairs" or saturate:
            b = (a + 1) % n
        t0 = r.uniform(0, horizon) if pat != "burst" or saturate else r.choice([0, 0.5]) * horizon
        if pat == "sparse" and not saturate:
            t0 = k * (info["lat"] + 6 * drv)
        ev.append((t0, a, b))
    ev.sort(key=lambda e: e[0])
    for k, (t0, a, b) in enumerate(ev):
        s.evts.append("beat %d r%d_n.tx %d %d raw:%d:%d:0 %d %d %d" % (
            a, a, int(t0 * 1000), b, r.randrange(16), r.randrange(16), k + 1, r.getrandbits(48), r.random() < 0.3))
    if not saturate and r.random() < 0.4:
        s.evts += stall_lines(r, 0, ["r0_n.tx"], horizon + drv, horizon + 2 * drv)
    quiet = drv * (100 + info["lat"] / drv + min(5000, 3 / max(share, 0.001)) + 1000) + info["slots"] * 0
    s.head += ["quietfrom %d" % int(horizon * 1000), "quietns %.3f" % quiet, "drainns %.3f" % (drv * 20 + info["lat"]),
               "maxns %.3f" % (horizon * 2 + quiet + drv * (total / max(share, 0.001) + total + 5000) * 2),
               "chunkns %.3f" % (drv * 20), "rstns %.3f" % (drv * 4)]
    s.cfg = cfg
    s.meta.update(total=total, drv=drv, width=s.v["axis"], rads=n, saturate=bool(saturate), **info)
    return s


def multirad_system(r, nmsg=(30, 200), narrow=False, types=None):
    """Several devices, each with its network and portal, joined by the link."""
    n = r.choice([2, 2, 2, 3])
    s = Sys("b", seed=r.choice([0, 1, 1, 1]) * r.getrandbits(40))
    s.rads = n
    v = s.v
    cfg = cfgmod.base_cfg(**dict(v, num_rads=n))
    types = types or r.choice([1, 2, 3, 5])
    info = noc_cfg(r, cfg, flits("b", v["axis"]), types=types, single_vc=True)
    if info[0]["anynet"]:
        s.files["anynet_file"] = info[0]["anynet"]
    nodes = info[0]["nodes"]
    nad = len(cfg["noc_adapters"]["clk_period"])
    drv = r.choice(PERIODS)
    link = link_cfg(r, cfg, drv, v["axis"])
    dw = r.choice([40, 64, v["axis"] // 2]) if narrow else v["axis"]
    tx, rx = [], []
    slow = max([drv, info[0]["per"]] + cfg["noc_adapters"]["clk_period"])
    for d in range(n):
        nclk = r.randint(1, 3)
        mclks = [r.choice(PERIODS) for _ in range(nclk)]
        pc = r.randrange(nclk)
        mclks[pc] = drv           # the portal shares the link's clock
        slow = max([slow] + mclks)
        cfg["config rad%d" % d]["design"]["clk_periods"] = mclks
        pad = r.randrange(nad)
        free = list(range(nodes))
        r.shuffle(free)
        s.clks.setdefault(d, []).append("portal_inst %d %d" % (pad, pc))
        s.place.setdefault(d, []).append("portal_inst 0 %d axis" % free.pop())
        for m in range(r.randint(1, 4)):
            name = "m%d" % m
            ac, mc = r.randrange(nad), r.randrange(nclk)
            s.head.append("mod %d %s %g" % (d, name, mclks[mc]))
            s.clks[d].append("%s %d %d" % (name, ac, mc))
            node = free.pop()
            nin, nout = r.choice([(1, 1), (1, 1), (1, 0), (0, 1), (1, 2), (2, 1)])
            if m == 0:
                nin, nout = max(nin, 1), max(nout, 1)
            for i in range(nout):
                s.head.append("port %d %s o%d am %d %d" % (d, name, i, dw, r.randrange(types)))
                s.place[d].append("%s.o%d 0 %d axis" % (name, i, node))
                tx.append(dict(rad=d, name="%s.o%d" % (name, i)))
            for i in range(nin):
                s.head.append("port %d %s i%d as %d %d" % (d, name, i, dw, 0))
                s.place[d].append("%s.i%d 0 %d axis" % (name, i, node))
                rx.append(dict(rad=d, name="%s.i%d" % (name, i), dw=dw))
    total = r.randint(*nmsg)
    horizon = slow * total * r.choice([0.2, 1, 3])
    qend = horizon * r.choice([1, 2])
    loc = r.choice([0.1, 0.4, 0.7])
    ev = []
    for k in range(total):
        x = r.choice(tx)
        here = [y for y in rx if y["rad"] == x["rad"]]
        # a message names the node on the other device; its first stream receives it
        there = [y for y in rx if y["rad"] != x["rad"] and y["name"].endswith(".i0")]
        y = r.choice(here if r.random() < loc and here else there)
        ev.append((r.uniform(0, horizon) if r.random() < 0.8 else 0, x, y))
    ev.sort(key=lambda e: e[0])
    for k, (t0, x, y) in enumerate(ev):
        s.evts.append("beat %d %s %d %d %s %d %d %d" % (
            x["rad"], x["name"], int(t0 * 1000), y["rad"], y["name"], k + 1, r.getrandbits(48), r.random() < 0.3))
    for d in range(n):
        s.evts += stall_lines(r, d, [y["name"] for y in rx if y["rad"] == d], horizon, qend, heavy=r.random() < 0.3)
    share = min(1.0, max(0.001, link["bw"] * drv / v["axis"]))
    nfl = flits("b", v["axis"])
    quiet = slow * (1500 + 40 * nfl * 16) + link["lat"] + drv / share + 1000 * drv
    s.head += ["quietfrom %d" % int(qend * 1000), "quietns %.3f" % quiet, "drainns %.3f" % (slow * 120 + link["lat"]),
               "maxns %.3f" % (qend + horizon + quiet + slow * (total * nfl * 60 + 2000) + drv * total / share * 2),
               "chunkns %.3f" % (slow * 12), "rstns %.3f" % (slow * 4)]
    s.cfg = cfg
    s.meta.update(total=total, slow=slow, info=info, qend=qend, drv=drv, rads=n, narrow=bool(narrow), mtx=tx, mrx=rx, share=share, nfl=nfl, **link)
    return s


DISTINCT = [0.5, 0.7, 0.8, 1.0, 1.1, 1.25, 1.5, 1.7, 2.0, 2.2, 2.5, 3.0, 3.33, 4.0, 5.0, 6.1, 7.3]


def merge_nocs(cfg, parts):
    """One noc/noc_adapters section out of the sections of single networks."""
    out = dict(parts[0]["noc"])
    out["num_nocs"] = len(parts)
    for k in parts[0]["noc"]:
        if isinstance(parts[0]["noc"][k], list) and k not in ("num_nodes", "anynet_file"):
            out[k] = [p["noc"][k][0] for p in parts]
    out.pop("num_nodes", None)
    out.pop("anynet_file", None)
    if any("num_nodes" in p["noc"] for p in parts):
        out["num_nodes"] = [p["noc"].get("num_nodes", [0])[0] for p in parts]
        out["anynet_file"] = [p["noc"].get("anynet_file", ["none"])[0] for p in parts]
    cfg["noc"] = out
    a = dict(parts[0]["noc_adapters"])
    for k in a:
        if k != "clk_period":
            a[k] = [p["noc_adapters"][k][0] for p in parts]
    cfg["noc_adapters"] = a


def config_model(r, hetero=True):
    """An abstract description of devices, networks, clocks, modules, placement
    and traffic; build_config() turns it (or a part of it) into a system."""
    multi = r.random() < 0.35
    variant = "b" if multi else r.choice("aacde")
    v = VARIANTS[variant]
    nn = r.choice([1, 2]) if multi else r.choice([1, 2, 2, 3])
    clocks = r.sample(DISTINCT, nn + 6)
    nocs = []
    kinds = []
    base = None
    for i in range(nn):
        mm = r.random() < 0.45
        c = cfgmod.base_cfg(**v)
        nfl = max(mm_flits(v), flits(variant, v["axis"]))
        types = 5 if mm else r.choice([1, 2, 3, 5, 5])
        inf = noc_cfg(r, c, nfl, types=types, single_vc=mm)
        if not hetero and base is not None:
            for k in ("type", "topology", "dim_x", "dim_y", "routing_func", "vcs", "num_packet_types", "num_nodes", "anynet_file"):
                c["noc"].pop(k, None)
                if k in base[0]["noc"]:
                    c["noc"][k] = base[0]["noc"][k]
            inf = [dict(base[1], mm=mm)]
        base = base or (c, inf[0])
        # nothing that draws from the simulator's one random number generator
        # (random allocator, ties of the torus routing), which all networks share
        for k in ("vc_allocator", "sw_allocator"):
            c["noc"][k] = [x.replace("pim", "islip") for x in c["noc"][k]]
        if inf[0]["topo"] == "torus":
            c["noc"]["dim_x"], c["noc"]["dim_y"] = [3], [3]
            inf[0]["nodes"] = 9
        c["noc"]["clk_period"] = [clocks[i]]
        any_text = None
        if inf[0]["anynet"]:
            c["noc"]["anynet_file"] = ["anynet_file%d" % i]
            any_text = inf[0]["anynet"]
        c["noc_adapters"]["fifo_size"] = [max(c["noc_adapters"]["fifo_size"][0], nfl)]
        nocs.append(dict(noc=c["noc"], noc_adapters=c["noc_adapters"], any=any_text, mm=mm and inf[0]["types"] == 5,
                         types=inf[0]["types"], nodes=inf[0]["nodes"], per=clocks[i]))
    ads = clocks[nn:nn + r.choice([1, 2, 3])]
    mm_any = any(x["mm"] for x in nocs)
    left = clocks[nn + 3:]
    templates = []
    for t in range(r.choice([1, 2, 2]) if multi else 1):
        # each template is a kind of device: clocks, modules, placement
        k = r.choice([1, 2, 3])
        pers = r.sample(left, k) if t == 0 else r.sample([x for x in DISTINCT if x not in clocks[:nn] and x not in ads], k)
        mods, lines = [], []
        node_clk, used_mm = {}, set()
        if multi:
            portal = dict(noc=0, node=r.randrange(nocs[0]["nodes"]), clk=(r.randrange(len(ads)), None))
            used_mm.add((0, portal["node"]))
        else:
            portal = None
        for m in range(r.randint(2, 7)):
            name = "m%d" % m
            clk = (r.randrange(len(ads)), r.randrange(k))
            ports = []
            mm_nets = [i for i in range(nn) if nocs[i]["mm"]]

            def free(noc, mm):
                c = []
                for n in range(nocs[noc]["nodes"]):
                    if (noc, n) in used_mm:
                        continue
                    o = node_clk.get((noc, n))
                    if o is None or (not mm and o == clk):
                        c.append(n)
                return c

            whole = r.random() < 0.3
            if mm_nets and r.random() < 0.5:
                noc = r.choice(mm_nets)
                f = free(noc, True)
                # memory-mapped ports: the adapter is faster than its module
                ok = [(a, c) for a in range(len(ads)) for c in range(k) if pers[c] > 1.2 * ads[a]]
                if f and ok:
                    clk = r.choice(ok)
                    node = r.choice(f)
                    used_mm.add((noc, node))
                    kind = r.choice(["mi", "mt"])
                    w = r.choice([v["axi4"], v["axi4"] // 2, 40])
                    ports.append(dict(name="%s.p" % name, kind=kind, w=v["axi4"], t=0, noc=noc, node=node))
                    lines.append(("mod" if whole else "port", noc, node, name if whole else "%s.p" % name, "aximm"))
                    whole = False
            for q in range(r.choice([0, 1, 2, 3]) if ports else r.choice([1, 2, 2, 3, 4])):
                if whole and q:
                    noc, node = ports[-1]["noc"], ports[-1]["node"]
                else:
                    noc = r.randrange(nn)
                    f = free(noc, False)
                    if not f and whole:
                        break
                    if not f:
                        continue
                    node = r.choice(f)
                node_clk[(noc, node)] = clk
                kind = r.choice(["am", "as"])
                pn = "%s.%s%d" % (name, "o" if kind == "am" else "i", q)
                ports.append(dict(name=pn, kind=kind, w=v["axis"], t=r.randrange(nocs[noc]["types"]), noc=noc, node=node))
                if not whole:
                    lines.append(("port", noc, node, pn, "axis"))
                elif not q:
                    lines.append(("mod", noc, node, name, "axis"))
            if ports:
                mods.append(dict(name=name, clk=clk, ports=ports))
        r.shuffle(lines)
        templates.append(dict(periods=pers, mods=mods, lines=lines, portal=portal))
    if multi:
        n = r.choice([2, 2, 3])
        devs = [r.randrange(len(templates)) for _ in range(n)]
    else:
        devs = [0]
    drv = max(max(t["periods"]) for t in templates)
    traffic = []
    slow = max([x["per"] for x in nocs] + ads + [drv])
    total = r.randint(20, 90)
    horizon = slow * total * r.choice([0.2, 1, 3])
    last = {}
    for d, t in enumerate(devs):
        ports = [dict(p, per=templates[t]["periods"][m["clk"][1]]) for m in templates[t]["mods"] for p in m["ports"]]
        for p in ports:
            if p["kind"] == "as" and r.random() < 0.4:
                a = r.uniform(0, horizon)
                traffic.append(("stall", d, p, int(a * 1000), int((a + slow * r.choice([5, 50])) * 1000)))
        for k in range(total):
            t0 = int(r.uniform(0, horizon) * 1000)
            x = r.choice(ports)
            if x["kind"] == "am":
                y = [q for q in ports if q["kind"] == "as" and q["noc"] == x["noc"]]
                if y:
                    traffic.append(("beat", d, x, t0, r.choice(y), r.getrandbits(48), r.random() < 0.3))
            elif x["kind"] == "mi":
                y = [q for q in ports if q["kind"] == "mt" and q["noc"] == x["noc"]]
                if y:
                    traffic.append(("op", d, x, t0, r.choice(y), r.choice("RW"), r.getrandbits(40), r.choice([0, 0, 1, 3]),
                                    r.getrandbits(48)))
    traffic.sort(key=lambda e: (e[0] != "stall", e[3]))
    return dict(variant=variant, nocs=nocs, ads=ads, templates=templates, devs=devs, drv=drv, traffic=traffic, slow=slow,
                horizon=horizon, multi=multi)


def build_config(md, nets=None, devs=None, relabel=None, share=True):
    """nets: only these networks (renumbered from 0); devs: the devices of this
    cluster as indices into md's devices (traffic only at the first one);
    relabel: a random.Random that renames networks and clock indices and
    reorders independent lines without changing the meaning."""
    s = Sys(md["variant"], seed=0)
    v = s.v
    full = devs is None
    dl = list(range(len(md["devs"]))) if full else devs
    nets = list(range(len(md["nocs"]))) if nets is None else nets
    order = list(nets)
    apos = list(range(len(md["ads"])))
    if relabel:
        if not md["multi"]:     # the portal's network is always number 0
            relabel.shuffle(order)
        relabel.shuffle(apos)
    new = {o: i for i, o in enumerate(order)}
    cfg = cfgmod.base_cfg(**dict(v, num_rads=len(dl)))
    merge_nocs(cfg, [md["nocs"][o] for o in order])
    cfg["noc_adapters"]["clk_period"] = [md["ads"][i] for i in apos]
    ainv = {o: i for i, o in enumerate(apos)}
    cfg["cluster"]["sim_driver_period"] = md["drv"]
    for o in order:
        if md["nocs"][o]["any"]:
            s.files[md["nocs"][o]["noc"]["anynet_file"][0]] = md["nocs"][o]["any"]
    s.rads = len(dl)
    names = {}
    cc = []
    for k in [k for k in cfg if k.startswith("config ")]:
        del cfg[k]
    cluster = cfg.pop("cluster")
    for pos, d in enumerate(dl):
        ti = md["devs"][d]
        t = md["templates"][ti]
        cpos = list(range(len(t["periods"])))
        # the portal needs the link's clock
        pers = list(t["periods"])
        if relabel:
            relabel.shuffle(cpos)
        cinv = {o: i for i, o in enumerate(cpos)}
        lst = [pers[i] for i in cpos]
        if md["multi"]:
            lst = lst + [md["drv"]]
        key = (ti, tuple(cpos))
        if not share:
            key = key + (pos,)
        if key not in names:
            nm = "dev%d" % len(names)
            names[key] = nm
            cfg["config " + nm] = dict(design=dict(name="simdut", noc_placement=["simdut.place"], clk_periods=lst))
        cc.append(names[key])
        clk = []
        if md["multi"]:
            clk.append("portal_inst %d %d" % (ainv[t["portal"]["clk"][0]], len(lst) - 1))
            s.place.setdefault(pos, []).append("portal_inst 0 %d axis" % t["portal"]["node"])
        mods = list(t["mods"])
        if relabel:
            relabel.shuffle(mods)
        for m in mods:
            ports = [p for p in m["ports"] if p["noc"] in nets]
            if not ports:
                continue
            s.head.append("mod %d %s %g" % (pos, m["name"], pers[m["clk"][1]]))
            clk.append("%s %d %d" % (m["name"], ainv[m["clk"][0]], cinv[m["clk"][1]]))
            for p in ports:
                s.head.append("port %d %s %s %s %d %d" % (pos, m["name"], p["name"].split(".")[1], p["kind"], p["w"], p["t"]))
        if relabel:
            relabel.shuffle(clk)
        s.clks[pos] = clk
        s.place.setdefault(pos, [])
        for w, noc, node, what, kind in t["lines"]:
            if noc in nets:
                s.place[pos].append("%s %d %d %s" % (what, new[noc], node, kind))
        if not s.place[pos]:
            s.place[pos] = []
    cluster["cluster_configs"] = cc
    cfg["cluster"] = cluster
    tag = 0
    opn = 0
    for e in md["traffic"]:
        if e[0] == "beat":
            tag += 1
        elif e[0] == "op":
            opn += 1
        if e[2]["noc"] not in nets:
            continue
        if full:
            pos = e[1]
        elif e[1] == dl[0]:
            pos = 0
        else:
            continue
        x = e[2]["name"]
        if e[0] == "stall":
            s.evts.append("stall %d %s %d %d" % (pos, x, e[3], e[4]))
        elif e[0] == "beat":
            s.evts.append("beat %d %s %d %d %s %d %d %d" % (pos, x, e[3], pos, e[4]["name"], tag, e[5], e[6]))
        else:
            s.evts.append("op %d %s %d %s %d %d %s %d %d 3 1 %d %d -1 0" % (
                pos, x, opn, e[5], e[3], pos, e[4]["name"], e[6], e[7], opn & 255, e[8]))
    slow, horizon = md["slow"], md["horizon"]
    quiet = slow * 9000
    s.head += ["byperiod", "quietfrom %d" % int(horizon * 1000), "quietns %.3f" % quiet, "drainns %.3f" % (slow * 120),
               "maxns %.3f" % (horizon * 4 + quiet * 3), "chunkns %.3f" % (slow * 12), "rstns %.3f" % (md["drv"] * 4)]
    s.cfg = cfg
    return s.plan()


# ---------------------------------------------------------------- the network fabric on its own
MORE = ["rr_wavefront", "select", "islip(2)", "islip(3)", "pim(2)", "separable_input_first(matrix)", "separable_output_first(matrix)"]
# routing function -> (topologies, least VCs per class, deterministic)
ROUTES = {
    "dim_order": ("mesh torus", 1, True), "dor": ("mesh cmesh", 1, True), "dor_no_express": ("cmesh", 1, True),
    "min": ("anynet", 1, True),
    "xy_yx": ("mesh cmesh", 2, False), "adaptive_xy_yx": ("mesh", 2, False), "romm": ("mesh", 2, False), "planar_adapt": ("mesh", 3, False), "dim_order_bal": ("torus", 2, False),
    "xy_yx_no_express": ("cmesh", 2, False),
    "dim_order_pni": ("mesh", 0, False), "valiant": ("mesh torus", 2, False), "min_adapt": ("mesh torus", 2, False),
}


def fabric_cfg(r, cfg, small=False):
    n = cfg["noc"]
    topo = r.choice(["mesh", "mesh", "mesh", "mesh", "torus", "torus", "cmesh", "anynet"])
    types = r.choice([1, 2, 3, 3, 5])
    any_text = None
    dim = r.choice([2, 3, 3, 4, 4, 5] if small else [2, 3, 4, 4, 5, 6, 8])
    dx = dy = dim
    nodes = dim * dim
    if topo == "cmesh":
        dim = dx = dy = r.choice([2, 2, 3] if small else [2, 2, 3, 3, 4, 4, 5, 6])
        nodes = 4 * dim * dim
    elif topo == "anynet":
        nodes = r.randint(2, 16 if small else 24)
        any_text = anynet_text(r, nodes)
        n["num_nodes"] = [nodes]
        n["anynet_file"] = ["anynet_file"]
    elif r.random() < 0.2 and topo == "mesh":
        dx, dy = (dim, r.randint(1, dim)) if r.random() < 0.5 else (r.randint(1, dim), dim)
    c = [k for k, v in ROUTES.items() if topo in v[0].split()]
    rf = r.choice(c + [x for x in c if ROUTES[x][2]] * 2)
    per = ROUTES[rf][1]
    det = ROUTES[rf][2]
    if rf == "dim_order_pni":
        per = dim
    if topo == "torus":
        per = max(per, 2) if rf not in ("valiant", "min_adapt") else 4
    if per * types > 16:
        types = max(1, 16 // per)
    if det and r.random() < 0.5:
        vcs = per
    else:
        vcs = per * r.choice([1, 1, 2]) if per > 1 else r.choice([1, 2, 2, 3, 4])
    vcs = vcs * types if vcs * types <= 20 else per * types
    vcb = r.choice([1, 2, 3, 4, 8, 8, 16])
    conf = dict(type="3d" if topo == "cmesh" else "2d", clk_period=1.0, payload_width=166, topology="mesh" if topo == "cmesh" else topo,
                dim_x=dx, dim_y=dy, routing_func=rf, vcs=vcs, vc_buffer_size=vcb, output_buffer_size=r.choice([1, 2, 4, 8, 8]),
                num_packet_types=types, router_uarch="iq", vc_allocator=r.choice(ALLOCS + MORE), sw_allocator=r.choice(ALLOCS + MORE),
                credit_delay=r.choice([0, 1, 1, 2, 3]), routing_delay=r.choice([1, 1, 0, 2]),
                vc_alloc_delay=r.choice([1, 1, 2]), sw_alloc_delay=r.choice([1, 1, 2]))
    for k, v in conf.items():
        n[k] = [v]
    n["num_nocs"] = 1
    return dict(topo=topo, dim=dim, dx=dx, dy=dy, nodes=nodes, types=types, vcs=vcs, per=vcs // types, rf=rf, det=det, vcb=vcb,
                credit=conf["credit_delay"], vad=conf["vc_alloc_delay"], sad=conf["sw_alloc_delay"], pipe=conf["routing_delay"] + conf["vc_alloc_delay"] + conf["sw_alloc_delay"],
                anynet=any_text, vca=conf["vc_allocator"], swa=conf["sw_allocator"], obuf=conf["output_buffer_size"])


def fabric_system(r, npk=(30, 400), sustained=False):
    """One network with terminals of its own: packets, terminals that stop consuming, credits that come late."""
    s = Sys("a", seed=r.getrandbits(40))
    cfg = cfgmod.base_cfg(**s.v)
    inf = fabric_cfg(r, cfg, small=sustained)
    s.cfg = cfg
    if inf["anynet"]:
        s.files["anynet_file"] = inf["anynet"]
    N = inf["nodes"]
    if inf["topo"] == "mesh" or inf["topo"] == "torus":
        # the square mesh behind an oblong one has routers nobody sits at
        ok = [y * inf["dim"] + x for y in range(inf["dy"]) for x in range(inf["dx"])]
    else:
        ok = list(range(N))
    pat = r.choice(["uniform", "hotspot", "hotspot", "pairs", "transpose", "neighbour", "columns"])
    hot = r.sample(ok, min(len(ok), r.choice([1, 1, 2])))
    partner = {n: r.choice(ok) for n in ok}
    lens = r.choice([[1], [1, 2], [4], [1, 1, 1, 5], [2, 9], [r.randint(1, 12)], [16, 1]])
    total = r.randint(*npk)
    gap = r.choice([0, 0, 1, 4, 20]) if not sustained else 0
    srcs = r.sample(ok, r.randint(1, len(ok))) if r.random() < 0.5 else ok
    tag = 0
    if sustained:
        per = sustained
    else:
        per = None
    t = 0
    active = sorted(r.sample(range(inf["types"]), r.randint(1, inf["types"])))

    def dest(n):
        if pat == "hotspot":
            return r.choice(hot)
        if pat == "pairs":
            return partner[n]
        if pat == "transpose" and inf["topo"] in ("mesh", "torus"):
            d = (n % inf["dim"]) * inf["dim"] + n // inf["dim"]
            return d if d in ok else r.choice(ok)
        if pat == "neighbour":
            return ok[(ok.index(n) + 1) % len(ok)]
        if pat == "columns" and inf["topo"] in ("mesh", "torus"):
            c = [x for x in ok if x % inf["dim"] == n % inf["dim"]]
            return r.choice(c)
        return r.choice(ok)
    for i in range(total):
        t += r.randint(0, 2 * gap) if gap else (r.random() < 0.02) * r.choice([0, 50])
        n = r.choice(srcs)
        ty = r.choice(active)
        s.evts.append("p %d %d %d %d %d %d %d" % (t, n, dest(n), ty, 0, r.choice(lens), tag + 1))
        tag += 1
    horizon = t + 20 + total * 2
    qend = 0
    targets = sorted(set(int(e.split()[3]) for e in s.evts))
    for n in targets:
        x = r.random()
        if x < 0.5:
            continue
        a = r.randint(0, horizon)
        b = a + r.choice([3, 20, 100, 500])
        if x < 0.65:
            s.evts.append("stall %d %d %d %d" % (n, r.choice([-1] + list(range(inf["vcs"]))), a, b))
        elif x < 0.75:
            s.evts.append("cstall %d %d %d %d" % (n, r.choice([-1] + list(range(inf["vcs"]))), a, b))
        elif x < 0.9:
            s.evts.append("duty %d %d %d %d %d %d" % (n, r.getrandbits(31), r.choice([60, 128, 200, 240]), r.choice([1, 2, 7]), a, b))
        else:
            s.evts.append("istall %d %d %d %d" % (n, r.choice([-1] + list(range(inf["vcs"]))), a, b))
        qend = max(qend, b)
    s.meta.update(inf=inf, pat=pat, gap=gap, qend=qend, active=active)
    # one hop costs the pipeline and the way of the credit
    rtt = inf["pipe"] + inf["credit"] + 14
    diam = {"mesh": 2 * inf["dim"], "torus": 2 * inf["dim"], "cmesh": 2 * inf["dim"]}.get(inf["topo"], N) + 2
    s.meta["quiet"] = 40 * rtt * diam + 500
    s.head += ["conf sim/noc/noc0_rad0_config", "types %d" % inf["types"], "quiet %d" % s.meta["quiet"], "rseed %d" % r.getrandbits(30),
               "permute %d" % (r.random() < 0.7)]
    return s


def fabric_knot(r):
    """Senders around a cycle of routers, each to a receiver further round; the network fills up while nobody accepts and
    must then empty: every cyclic wait the routing rules allow would close."""
    s = Sys("a", seed=r.getrandbits(40))
    cfg = cfgmod.base_cfg(**s.v)
    inf = fabric_cfg(r, cfg, small=True)
    n = cfg["noc"]
    inf.update(vcb=r.choice([1, 1, 2, 2, 3, 4]), obuf=r.choice([1, 1, 2, 4]))
    n["vc_buffer_size"], n["output_buffer_size"] = [inf["vcb"]], [inf["obuf"]]
    s.cfg = cfg
    if inf["anynet"]:
        s.files["anynet_file"] = inf["anynet"]
    k = inf["dim"]
    if inf["topo"] == "torus" and r.random() < 0.6:
        # the ring of a row or column
        j = r.randrange(k)
        ring = [j * k + x for x in range(k)] if r.random() < 0.5 else [y * k + j for y in range(k)]
    elif inf["topo"] in ("mesh", "torus") and inf["dx"] > 1 and inf["dy"] > 1:
        w, h = r.randint(2, min(3, inf["dx"])), r.randint(2, min(3, inf["dy"]))
        x0, y0 = r.randint(0, inf["dx"] - w), r.randint(0, inf["dy"] - h)
        at = [(x, 0) for x in range(w)] + [(w - 1, y) for y in range(1, h)] + [(x, h - 1) for x in range(w - 2, -1, -1)] + [(0, y) for y in range(h - 2, 0, -1)]
        ring = [(y0 + y) * k + x0 + x for x, y in at]
    else:
        ok = [y * k + x for y in range(inf["dy"]) for x in range(inf["dx"])] if inf["topo"] in ("mesh", "torus") else list(range(inf["nodes"]))
        ring = r.sample(ok, min(len(ok), r.choice([4, 6, 8, 12])))
    if r.random() < 0.5:
        ring.reverse()
    m = len(ring)
    ahead = r.choice([[max(1, m // 2)], [max(1, m // 2), max(1, m - m // 2)], [max(1, m // 2 - 1), max(1, m // 2)], [max(1, m // 2), -max(1, m // 2)], list(range(1, m)) or [0]])
    types = r.sample(range(inf["types"]), r.choice([1, 1, inf["types"]]))
    lens = r.choice([[r.randint(2, 16)], [8], [1, 16], [1]])
    tag = 1
    for i in range(r.choice([6, 20, 60])):
        for j, a in enumerate(ring):
            for ty in types:
                s.evts.append("p 0 %d %d %d 0 %d %d" % (a, ring[(j + r.choice(ahead)) % m], ty, r.choice(lens), tag))
                tag += 1
    qend, kind = 0, r.random()
    if kind < 0.75:
        qend = r.choice([100, 300, 800])
        for a in ring:
            b = qend if kind < 0.5 else r.randint(1, qend)
            s.evts.append("stall %d -1 0 %d" % (a, b))
    rtt = inf["pipe"] + inf["credit"] + 14
    diam = {"mesh": 2 * k, "torus": 2 * k, "cmesh": 2 * k}.get(inf["topo"], inf["nodes"]) + 2
    s.meta.update(inf=inf, pat="knot", gap=0, qend=qend, active=types, quiet=40 * rtt * diam + 500)
    s.head += ["conf sim/noc/noc0_rad0_config", "types %d" % inf["types"], "quiet %d" % s.meta["quiet"], "rseed %d" % r.getrandbits(30),
               "permute %d" % (r.random() < 0.7), "cycles 400000"]
    return s


def fabric_contention(r):
    """A few senders around one or two receivers, all with packets waiting all the time: everybody gets a turn."""
    s = Sys("a", seed=r.getrandbits(40))
    cfg = cfgmod.base_cfg(**s.v)
    while True:
        inf = fabric_cfg(r, cfg, small=True)
        if inf["vcs"] <= 8 and inf["nodes"] <= 36 and inf["vcb"] >= 2 and inf["rf"] not in ("valiant", "romm"):
            break
    # allocators that serve every requester in turn, and in the cycle of the request
    fair = [a for a in ALLOCS + MORE if "wavefront" not in a and a != "max_size"]
    inf.update(vad=1, sad=1, vca=r.choice(fair), swa=r.choice(fair))
    n = cfg["noc"]
    n["vc_allocator"], n["sw_allocator"], n["vc_alloc_delay"], n["sw_alloc_delay"] = [inf["vca"]], [inf["swa"]], [1], [1]
    s.cfg = cfg
    if inf["anynet"]:
        s.files["anynet_file"] = inf["anynet"]
    if inf["topo"] in ("mesh", "torus"):
        ok = [y * inf["dim"] + x for y in range(inf["dy"]) for x in range(inf["dx"])]
    else:
        ok = list(range(inf["nodes"]))
    hot = r.choice(ok)
    near = ok
    if inf["topo"] in ("mesh", "torus"):
        k = inf["dim"]

        def dist(a, b):
            d = [abs(a % k - b % k), abs(a // k - b // k)]
            if inf["topo"] == "torus":
                d = [min(x, k - x) for x in d]
            return sum(d)
        near = [n for n in ok if dist(n, hot) <= 2]
    srcs = r.sample(near, min(len(near), r.randint(2, 6)))
    types = r.sample(range(inf["types"]), r.choice([1, min(2, inf["types"])]))
    length = r.choice([1, 1, 2, 4])
    stop = 6000
    second = r.choice(ok)
    tag = 1
    n = stop // (length * len(srcs) * len(types)) * 2 + 50
    for i in range(n):
        for src in srcs:
            for ty in types:
                d = second if r.random() < 0.1 and second in near else hot
                s.evts.append("p 0 %d %d %d 0 %d %d" % (src, d, ty, length, tag))
                tag += 1
    rtt = inf["pipe"] + inf["credit"] + 14
    s.meta.update(inf=inf, pat="contention", gap=0, qend=0, active=types, stop=stop, quiet=40 * rtt * 16 + 500,
                  nflow=len(srcs) * len(types), length=length, bound=4500)
    s.head += ["conf sim/noc/noc0_rad0_config", "types %d" % inf["types"], "quiet %d" % s.meta["quiet"], "rseed %d" % r.getrandbits(30),
               "permute %d" % (r.random() < 0.7), "stop %d" % stop, "cycles 400000"]
    return s


def grid_routes(inf):
    """dist(a, b): links between the routers of two nodes on a shortest way."""
    k, topo = inf["dim"], inf["topo"]
    if topo == "anynet":
        return lambda a, b: len(set(x for x, _, _ in inf["graph"]["edges"]))

    def xy(n):
        return (n % (2 * k) // 2, n // (2 * k) // 2) if topo == "cmesh" else (n % k, n // k)

    def dist(a, b):
        d = [abs(p - q) for p, q in zip(xy(a), xy(b))]
        return sum(min(x, k - x) for x in d) if topo == "torus" else sum(d)
    return dist


def anynet_graph(r, nodes):
    """A connected network with link latencies of its own: file text, router and latency of every node, links."""
    nr = r.randint(1, nodes)
    at = {n: (r.randrange(nr), r.choice([1, 1, 1, 2, 4])) for n in range(nodes)}
    tree = r.random() < 0.5
    lines, edges = [["router %d" % k] for k in range(nr)], {}
    for n in sorted(at):
        k, lat = at[n]
        if r.random() < 0.2:
            lines.append(["node %d" % n, "router %d" % k] + ["%d" % lat] * (lat > 1))
        else:
            lines[k] += ["node %d" % n] + ["%d" % lat] * (lat > 1 or r.random() < 0.1)

    def link(a, b):
        if (a, b) in edges or (b, a) in edges or a == b:
            return
        for x, y in ((a, b), (b, a)):
            # a latency holds for the direction of its line
            if (y, x) in edges and r.random() < 0.4:
                edges[(x, y)] = 1
            else:
                edges[(x, y)] = r.choice([1, 1, 2, 3, 5])
                lines[x] += ["router %d" % y] + ["%d" % edges[(x, y)]] * (edges[(x, y)] > 1 or r.random() < 0.1)
    for k in range(1, nr):
        link(k, r.randrange(k))
    if not tree:
        for _ in range(r.randint(1, nr)):
            link(r.randrange(nr), r.randrange(nr))
    text = "\n".join(" ".join(l) for l in lines) + "\n"
    return text, dict(tree=tree, at=[at[n] for n in range(nodes)], edges=[[x, y, l] for (x, y), l in sorted(edges.items())])


def anynet_ways(graph, a, b, most=60):
    """All ways of least latency between two nodes, as lists of links (from, to, latency); None if there are too many."""
    (src, _), (dst, _) = graph["at"][a], graph["at"][b]
    out = {}
    for x, y, l in graph["edges"]:
        out.setdefault(x, []).append((y, l))
    dist = {dst: 0}
    for _ in range(len(graph["edges"]) + 1):
        for x, y, l in graph["edges"]:
            if y in dist and dist[y] + l < dist.get(x, 1 << 30):
                dist[x] = dist[y] + l
    ways, todo = [], [(src, [])]
    while todo:
        x, way = todo.pop()
        if x == dst:
            ways.append(way)
            if len(ways) > most:
                return None
            continue
        for y, l in out.get(x, []):
            if y in dist and dist[y] + l == dist[x]:
                todo.append((y, way + [(x, y, l)]))
    return ways


def fixed_route(inf, a, b):
    """The links a packet takes when the routing function leaves no choice, None otherwise."""
    if inf["topo"] == "anynet":
        ways = anynet_ways(inf["graph"], a, b) or []
        return [(x, y) for x, y, _ in ways[0]] if len(ways) == 1 else None
    if inf["topo"] != "mesh" or not inf["det"]:
        return None
    k = inf["dim"]
    x, y, tx, ty = a % k, a // k, b % k, b // k
    out = []
    while (x, y) != (tx, ty):
        n = (x + (1 if tx > x else -1), y) if x != tx else (x, y + (1 if ty > y else -1))
        out.append(((x, y), n))
        x, y = n
    return out


def fabric_lone(r):
    """Packets that meet nobody: one at a time, or several whose ways have no link in common; between them bursts of load."""
    s = Sys("a", seed=r.getrandbits(40))
    cfg = cfgmod.base_cfg(**s.v)
    inf = fabric_cfg(r, cfg)
    s.cfg = cfg
    loops = False
    if inf["anynet"]:
        inf["anynet"], inf["graph"] = anynet_graph(r, inf["nodes"])
        s.files["anynet_file"] = inf["anynet"]
        loops = not inf["graph"]["tree"]      # nothing keeps packets from waiting for each other in a circle there
    if inf["topo"] in ("mesh", "torus"):
        ok = [y * inf["dim"] + x for y in range(inf["dy"]) for x in range(inf["dx"])]
    else:
        ok = list(range(inf["nodes"]))
    dist = grid_routes(inf)
    longest = 5 if inf["topo"] == "anynet" else max(2, inf["dim"])
    rtt = inf["pipe"] + inf["credit"] + 2 * longest + 6
    t, tag, lone = r.choice([0, 0, 1, 17]), 1, []
    rounds = r.randint(8, 40)
    for k in range(rounds):
        if r.random() < 0.2 and not loops:
            # a burst, some of it against terminals that have stopped
            n = r.choice([5, 20, 60])
            hot = r.choice(ok)
            lens = r.choice([[1], [1, 2, 5], [8]])
            for _ in range(n):
                s.evts.append("p %d %d %d %d %d %d %d" % (t + r.randint(0, 10), r.choice(ok), hot if r.random() < 0.5 else r.choice(ok),
                                                          r.randrange(inf["types"]), 0, r.choice(lens), tag))
                tag += 1
            if r.random() < 0.5:
                s.evts.append("%s %d %d %d %d" % (r.choice(["stall", "cstall", "istall"]), hot, r.choice([-1] + list(range(inf["vcs"]))),
                                                  t, t + r.choice([10, 60, 200])))
            t += 400 + n * 8 * rtt
            continue
        used, batch, wait = set(), [], 0
        for _ in range(r.choice([1, 1, 2, 4, 8])):
            a, b = r.choice(ok), r.choice(ok)
            way = fixed_route(inf, a, b)
            if batch and way is None:
                break
            links = set(way or []) | {("in", a), ("out", b)}
            if links & used:
                continue
            used |= links
            ln = r.choice([1, 1, 2, 3, 5, 9, 16])
            far = dist(a, b) if inf["rf"] != "valiant" else 2 * inf["dim"] * 2
            wait = max(wait, (far + 2) * (inf["pipe"] + 1 + longest) + ln * rtt * 2)
            batch.append(tag)
            s.evts.append("p %d %d %d %d %d %d %d" % (t + (r.randint(0, 3) if r.random() < 0.3 else 0), a, b, r.randrange(inf["types"]),
                                                      r.randrange(max(1, inf["per"])), ln, tag))
            tag += 1
            if way is None:
                break
        lone.append(batch)
        t += wait + r.choice([30, 30, 31, 50])
    s.meta.update(inf=inf, pat="lone", gap=0, qend=0, active=[], lone=lone, quiet=3000 + 200 * rtt)
    s.head += ["conf sim/noc/noc0_rad0_config", "types %d" % inf["types"], "quiet %d" % s.meta["quiet"], "rseed %d" % r.getrandbits(30),
               "permute %d" % (r.random() < 0.7), "cycles %d" % (t + 5000 + 300 * rtt)]
    return s


def later(plan, ns):
    """The same plan with all of its traffic and faults moved by ns nanoseconds."""
    ps = int(ns * 1000)
    pos = dict(beat=(3,), op=(5,), stall=(3, 4), duty=(6, 7))

    def shift(l):
        w = l.split(" ")
        for i in pos.get(w[0], ()):
            w[i] = str(int(w[i]) + ps)
        if w[0] == "quietfrom":
            w[1] = str(int(w[1]) + ps)
        if w[0] == "maxns":
            w[1] = "%.3f" % (float(w[1]) + ns)
        return " ".join(w)

    plan["evts"] = [shift(l) for l in plan["evts"]]
    plan["head"] = [shift(l) for l in plan["head"]]
    return plan
