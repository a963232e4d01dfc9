"""P26: the statistics of the DRAM simulator against its command stream."""
import collections, json, re
from dst import core, dramcfg
from dst.props import common, dram

CMDS = {"num_read_cmds": ("read", "read_p"), "num_write_cmds": ("write", "write_p"), "num_act_cmds": ("activate",), "num_pre_cmds": ("precharge",),
        "num_ref_cmds": ("refresh",), "num_refb_cmds": ("refresh_bank",), "num_srefe_cmds": ("self_refresh_enter",),
        "num_srefx_cmds": ("self_refresh_exit",)}
POWER = dict(VDD=1.2, IDD0=48, IDD2N=34, IDD3N=43, IDD4W=123, IDD4R=135, IDD5AB=250, IDD5PB=5, IDD6x=31)
STATES = ("all_bank_idle_cycles", "rank_active_cycles", "sref_cycles")
BINS = {"read_latency": (0, 200, 10), "write_latency": (0, 200, 10), "interarrival_latency": (0, 100, 10)}


class Expect:
    """Everything the report of one channel has to say about cycles [a, b)."""

    def __init__(self, d, x, ch):
        self.d, self.ch = d, ch
        self.cmds = x.cmds[ch]
        acc = [(t, k, a) for t, k, a in x.acc if d.loc(a)[0] == ch]
        self.inter, last = [], 0
        for t, k, a in acc:
            self.inter.append((t, t - last))
            last = t
        self.done = [(t, k) for t, k, a in x.done if d.loc(a)[0] == ch]
        # reads: served from a buffered write in the next cycle, or by the next read command to their location
        self.rlat = []
        ev = collections.defaultdict(list)
        for t, k, a in acc:
            ev[d.loc(a)[1:]].append((t, 0, k))
        for c in self.cmds:
            if c[1] in dram.KIND:
                ev[c[2:7]].append((c[0], 1, dram.KIND[c[1]]))
        for loc, el in ev.items():
            buffered, waiting = False, []
            for t, cmd, k in sorted(el, key=lambda e: e[:2]):
                if k == "W":
                    buffered = not cmd
                elif not cmd:
                    if buffered:
                        self.rlat.append((t + 1, 1))
                    else:
                        waiting.append(t)
                else:
                    self.rlat += [(t + d.rl + d.burst, t + d.rl + d.burst - w) for w in waiting]
                    waiting = []
        # write latency: the first write to a location since the last write command to it
        w = collections.defaultdict(list)
        for t, k, a in acc:
            if k == "W":
                w[d.loc(a)[1:]].append(t)
        self.wlat, pos = [], collections.Counter()
        self.hits = []
        seen = set()
        for c in self.cmds:
            key = c[2:5]
            if c[1] == "activate":
                seen.discard(key)
            elif c[1] in dram.KIND:
                if key in seen:
                    self.hits.append((c[0], "num_%s_row_hits" % c[1][:-2 if c[1].endswith("_p") else None]))
                seen.add(key)
            if dram.KIND.get(c[1]) == "W":
                loc = c[2:7]
                ts = w[loc]
                if pos[loc] < len(ts):
                    self.wlat.append((c[0], c[0] - ts[pos[loc]] + d.wl + d.burst))
                while pos[loc] < len(ts) and ts[pos[loc]] <= c[0]:
                    pos[loc] += 1

    def states(self, a, b):
        """Cycles per rank: idle, active, self refresh, from the command stream."""
        d = self.d
        out = {r: [0, 0, 0] for r in range(d.ranks)}
        ev = {r: [] for r in range(d.ranks)}
        for c in self.cmds:
            if c[2] in ev:
                ev[c[2]].append(c)
        for r in range(d.ranks):
            opened, sref, since = set(), False, 0
            for c in ev[r] + [None]:
                t, k = (c[0], c[1]) if c else (b, None)
                # a self refresh command takes effect after its cycle is accounted, others before
                edge = t + 1 if k in ("self_refresh_enter", "self_refresh_exit") else t
                lo, hi = max(a, since), min(edge, b)
                if hi > lo:
                    out[r][2 if sref else 1 if opened else 0] += hi - lo
                since = max(since, edge)
                if k == "activate":
                    opened.add(c[3:5])
                elif k in ("precharge", "read_p", "write_p"):
                    opened.discard(c[3:5])
                elif k == "self_refresh_enter":
                    sref = True
                elif k == "self_refresh_exit":
                    sref = False
        return out

    def report(self, a, b, got):
        d = self.d
        r = collections.OrderedDict()
        inside = lambda t: a <= t < b
        r["num_cycles"] = b - a
        for n, ks in CMDS.items():
            r[n] = sum(1 for c in self.cmds if c[1] in ks and inside(c[0]))
        # what completes at the tick that follows a cycle is counted by that tick
        r["num_reads_done"] = sum(1 for t, k in self.done if k == "R" and inside(t))
        r["num_writes_done"] = sum(1 for t, k in self.done if k == "W" and inside(t))
        for n in ("num_read_row_hits", "num_write_row_hits"):
            r[n] = sum(1 for t, k in self.hits if k == n and inside(t))
        per = collections.Counter(c[0] for c in self.cmds if inside(c[0]))
        r["hbm_dual_cmds"] = sum(1 for n in per.values() if n > 1) if d.dual else 0
        st = self.states(a, b)
        # whether a rank is asleep in the very cycle in which it is woken is left open
        tol = collections.Counter(c[2] for c in self.cmds if c[1].startswith("self_refresh") and inside(c[0] + 1))
        g = [got.get(n) or {} for n in STATES]
        for i in st:
            rep = [x.get(str(i)) for x in g]
            if None not in rep and sum(rep) == b - a and all(abs(x - y) <= tol[i] for x, y in zip(rep, st[i])):
                st[i] = rep
        r["all_bank_idle_cycles"] = {str(i): st[i][0] for i in st}
        r["rank_active_cycles"] = {str(i): st[i][1] for i in st}
        r["sref_cycles"] = {str(i): st[i][2] for i in st}
        hist = {}
        for n, xs in (("read_latency", self.rlat), ("write_latency", self.wlat), ("interarrival_latency", self.inter)):
            h = hist[n] = collections.Counter(v for t, v in xs if inside(t))
            lo, hi, k = BINS[n]
            w = (hi - lo) // k
            for i in range(k + 2):
                name = "%s[-%d]" % (n, lo) if i == 0 else "%s[%d-]" % (n, hi) if i == k + 1 else "%s[%d-%d]" % (n, lo + (i - 1) * w, lo + i * w - 1)
                f = (lambda v: v < lo) if i == 0 else (lambda v: v >= hi) if i == k + 1 else (lambda v: lo + (i - 1) * w <= v < lo + i * w)
                r[name] = sum(c for v, c in h.items() if f(v))
        p = {k: float(d.p.get(k, v)) for k, v in POWER.items()}
        dev = int(float(d.p.get("bus_width", 64))) // int(float(d.p.get("device_width", 8)))
        t = d.t
        e = dict(act_energy=r["num_act_cmds"] * p["VDD"] * (p["IDD0"] * d.trc - (p["IDD3N"] * t["tRAS"] + p["IDD2N"] * t["tRP"])) * dev,
                 read_energy=r["num_read_cmds"] * p["VDD"] * (p["IDD4R"] - p["IDD3N"]) * d.burst * dev,
                 write_energy=r["num_write_cmds"] * p["VDD"] * (p["IDD4W"] - p["IDD3N"]) * d.burst * dev,
                 ref_energy=r["num_ref_cmds"] * p["VDD"] * (p["IDD5AB"] - p["IDD3N"]) * t["tRFC"] * dev,
                 refb_energy=r["num_refb_cmds"] * p["VDD"] * (p["IDD5PB"] - p["IDD3N"]) * t["tRFCb"] * dev)
        v = dict(act_stb_energy={i: n * p["VDD"] * p["IDD3N"] * dev for i, n in r["rank_active_cycles"].items()},
                 pre_stb_energy={i: n * p["VDD"] * p["IDD2N"] * dev for i, n in r["all_bank_idle_cycles"].items()},
                 sref_energy={i: n * p["VDD"] * p["IDD6x"] * dev for i, n in r["sref_cycles"].items()})
        tot = sum(e.values()) + sum(sum(x.values()) for x in v.values())
        r.update(e)
        r.update(v)
        r["total_energy"] = tot
        r["average_power"] = tot / (b - a)
        tck = float(d.p.get("tCK", 1.0))
        r["average_bandwidth"] = (r["num_reads_done"] + r["num_writes_done"]) * d.word / ((b - a) * tck)
        mean = lambda h: sum(k * n for k, n in h.items()) / sum(h.values()) if h else 0.0
        r["average_read_latency"] = mean(hist["read_latency"])
        r["average_interarrival"] = mean(hist["interarrival_latency"])
        return r, hist


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(b, (int, float)) and abs(a - b) <= 1e-6 + 1e-9 * max(abs(a), abs(b))
    return a == b


def compare(out, where, want, hist, got, final):
    for k, w in want.items():
        if k not in got:
            out.append(("missing", "%s: no %s" % (where, k)))
        elif not same(w, got[k]):
            out.append(("wrong", "%s: %s is reported as %s, it was %s" % (where, k, got[k], w)))
    if got.get("num_ondemand_pres", 0) > want["num_pre_cmds"]:
        out.append(("wrong", "%s: %d precharges on demand of %d precharges" % (where, got["num_ondemand_pres"], want["num_pre_cmds"])))
    if final:
        for n, h in hist.items():
            g = {int(k): v for k, v in (got.get(n) or {}).items()}
            if g != dict(h):
                dif = sorted(set(g.items()) ^ set(h.items()))[:3]
                out.append(("wrong", "%s: histogram %s differs at %s" % (where, n, dif)))


class P26(dram.DramProp):
    id = "P26"
    quick_n = 1500
    real = "DRAMsim3 including its statistics (per epoch and final, JSON)"
    stub = "the clients that issue transactions (plan-driven); no RAD-Sim around it"

    def gen(self, r, tier):
        while True:
            p = dram.scenario(r, tier, "P26")
            if not p["meta"]["device"].startswith("HMC"):
                break
        n = p["meta"]["maxclk"]
        ep = r.choice([10 ** 9, n // 2, n // 3, n // 5, n - 1, 997, r.randint(500, n)])
        t = p["files"]["dev.ini"]
        t = dram.setp(t, "other", "epoch_period", ep)
        t = dram.setp(t, "other", "output_level", 1)
        p["files"]["dev.ini"] = t
        p["head"] = p["head"] + ["stats"]
        p["meta"]["epoch"] = ep
        p["collect"] = p["collect"] + ["*.json", "*.txt"]
        return p

    def check(self, plan, h):
        out = common.crashed(h)
        if out:
            return out
        x = dram.Dram(plan, h)
        d = x.d
        fin = [n for n in h.files if n.endswith(".json") and "epoch" not in n]
        if len(fin) != 1:
            return [("missing", "statistics files %s" % sorted(h.files))]
        try:
            st = json.loads(h.files[fin[0]])
        except ValueError as e:
            return [("format", "%s: %s" % (fin[0], e))]
        end = x.end
        ex = [Expect(d, x, c) for c in range(d.channels)]
        if sorted(st) != sorted(str(c) for c in range(d.channels)):
            return [("missing", "statistics of channels %s of %d" % (sorted(st), d.channels))]
        for c in range(d.channels):
            want, hist = ex[c].report(0, end, st[str(c)])
            compare(out, "channel %d" % c, want, hist, st[str(c)], True)
        ep = plan["meta"]["epoch"]
        n = end // ep
        if n and not out:
            f = [k for k in h.files if k.endswith("epoch.json")]
            try:
                ej = json.loads(h.files[f[0]]) if f else None
            except ValueError as e:
                return out + [("format", "%s: %s" % (f[0], e))]
            if ej is None or len(ej) != n * d.channels:
                return out + [("missing", "%d epoch reports of %d epochs and %d channels" % (len(ej or []), n, d.channels))]
            for i, g in enumerate(ej):
                e, c = divmod(i, d.channels)
                if g.get("channel") != c or g.get("epoch_num") != e + 1:
                    out.append(("wrong", "epoch report %d is of channel %s epoch %s" % (i, g.get("channel"), g.get("epoch_num"))))
                    continue
                want, hist = ex[c].report(e * ep, (e + 1) * ep, g)
                compare(out, "channel %d epoch %d" % (c, e + 1), want, hist, g, False)
            for c in range(d.channels):
                if st[str(c)].get("epoch_num") != n:
                    out.append(("wrong", "channel %d: %s epochs reported, it were %d" % (c, st[str(c)].get("epoch_num"), n)))
        return out[:12]

    def stats(self, plan, h):
        c, s, nt, ss = super().stats(plan, h)
        c["epoch_reports"] += sum(t.count('"epoch_num"') for n, t in h.files.items() if n.endswith("epoch.json"))
        return c, s, nt, ss


PROPS = [P26()]
