"""P12-P14: DRAMsim3 behind its public interface (dramdrv)."""
import bisect, collections, re

from dst import core, dramcfg
from dst.props import common

TD = dict(AL=0, CL=12, CWL=12, tCCD_L=6, tCCD_S=4, tRTRS=2, tRTP=5, tWTR_L=5, tWTR_S=5, tWR=10, tRP=10,
          tRRD_L=4, tRRD_S=4, tRAS=24, tRCD=10, tRFC=74, tCKESR=12, tXS=432, tRFCb=20, tREFI=7800, tREFIb=1950,
          tFAW=50, tPPD=0, t32AW=330, tRCDRD=24, tRCDWR=20)
PROTO_GDDR = ("GDDR5", "GDDR5X", "GDDR6")
PROTO_HBM = ("HBM", "HBM2")


def lb2(x):
    return x.bit_length() - 1


class Dev:
    """Independent reading of a DRAM configuration."""

    def __init__(self, text):
        p = self.p = dramcfg.params(text)
        g = lambda k, d: int(float(p.get(k, d)))
        self.proto = p.get("protocol", "DDR3")
        self.gddr = self.proto in PROTO_GDDR
        self.hbm = self.proto in PROTO_HBM
        self.hmc = self.proto == "HMC"
        self.bg, self.ba = g("bankgroups", 2), g("banks_per_group", 2)
        if p.get("bankgroup_enable", "true").lower() in ("false", "0", "no", "off"):
            self.ba *= self.bg
            self.bg = 1
        self.rows = g("rows", 1 << 16)
        cols = g("columns", 1 << 10)
        width = g("device_width", 8)
        bl = g("BL", 8)
        if self.hmc:
            bl = g("block_size", 64) * 8 // width
        per = {"GDDR5": 4, "GDDR5X": 8, "GDDR6": 16}.get(self.proto, 2)
        self.burst = bl // per
        if bl == 0:
            bl = 4 if self.hbm else 8
        self.bl = bl
        if self.gddr:
            cols *= bl
        elif self.hbm:
            cols *= 2
        self.cols = cols
        bus = g("bus_width", 64)
        self.channels = g("channels", 1)
        page = cols * width // 8
        per_bank = page * (self.rows // 1024) // 1024
        per_rank = per_bank * self.bg * self.ba * (bus // width)
        size = g("channel_size", 1024)
        self.ok = per_rank > 0
        self.ranks = 1 if per_rank > size else size // max(per_rank, 1)
        self.word = bus // 8 * bl
        self.t = {k: g(k, d) for k, d in TD.items()}
        self.rl = self.t["AL"] + self.t["CL"]
        self.wl = self.t["AL"] + self.t["CWL"]
        self.trc = self.t["tRAS"] + self.t["tRP"]
        self.map = p.get("address_mapping", "chrobabgraco")
        self.tq = g("trans_queue_size", 32)
        self.cq = g("cmd_queue_size", 16)
        self.policy = p.get("refresh_policy", "RANK_LEVEL_STAGGERED")
        self.sref = p.get("enable_self_refresh", "false").lower() in ("true", "1", "yes", "on")
        self.dual = self.hbm and p.get("hbm_dual_cmd", "true").lower() in ("true", "1", "yes", "on")
        w = dict(ch=lb2(self.channels), ra=lb2(self.ranks), bg=lb2(self.bg), ba=lb2(self.ba), ro=lb2(self.rows),
                 co=lb2(cols) - lb2(bl))
        self.wcols = cols // bl
        self.pos, pos = {}, lb2(self.word)
        for i in range(10, -1, -2):
            f = self.map[i:i + 2]
            self.pos[f] = (pos, (1 << w[f]) - 1)
            pos += w[f]
        for x in (self.channels, self.ranks, self.bg, self.ba, self.rows, cols, bl, self.word):
            if not dramcfg.pow2(x):
                self.ok = False

    def addr(self, **f):
        return sum((v & self.pos[k][1]) << self.pos[k][0] for k, v in f.items())

    def loc(self, a):
        return tuple((a >> self.pos[k][0]) & self.pos[k][1] for k in ("ch", "ra", "bg", "ba", "ro", "co"))


def setp(text, sec, key, val):
    lines = text.split("\n")
    out, cur, put = [], None, False
    for l in lines:
        m = re.match(r"\s*\[(\w+)\]", l)
        if m:
            if cur == sec and not put:
                out.append("%s = %s" % (key, val))
                put = True
            cur = m.group(1)
        elif cur == sec and re.match(r"\s*%s\s*=" % re.escape(key), l):
            l = "%s = %s" % (key, val)
            put = True
        out.append(l)
    if not put:
        if cur != sec:
            out.append("[%s]" % sec)
        out.append("%s = %s" % (key, val))
    return "\n".join(out)


def device(r, focus):
    """A shipped configuration, possibly with other legal settings."""
    while True:
        hmc = r.random() < (0.12 if focus != "P14" else 0.06)
        n = r.choice([x for x in dramcfg.names() if x.startswith("HMC") == hmc])
        t = dramcfg.load(n)
        t = setp(t, "other", "epoch_period", 10 ** 9)
        t = re.sub(r"(?m)^\s*output_prefix.*$", "", t)
        d = Dev(t)
        if not d.ok:
            continue
        changes = []

        def ch(sec, key, val):
            nonlocal t
            t = setp(t, sec, key, val)
            changes.append("%s=%s" % (key, val))

        if r.random() < 0.75:
            if r.random() < 0.35:
                ch("system", "channel_size", int(float(d.p.get("channel_size", 1024))) * r.choice([2, 2, 4]))
            if r.random() < 0.35:
                ch("system", "row_buf_policy", r.choice(["CLOSE_PAGE", "OPEN_PAGE"]))
            if r.random() < 0.3:
                ch("system", "queue_structure", r.choice(["PER_BANK", "PER_RANK"]))
            if r.random() < 0.3:
                ch("system", "unified_queue", r.choice(["True", "False"]))
            if r.random() < 0.3:
                ch("system", "cmd_queue_size", r.choice([1, 2, 4, 8, 16]))
            if r.random() < 0.3:
                ch("system", "trans_queue_size", r.choice([1, 2, 4, 8, 16, 32, 64]))
            if r.random() < 0.3:
                f = ["ro", "ra", "bg", "ba", "ch", "co"]
                r.shuffle(f)
                ch("system", "address_mapping", "".join(f))
            if r.random() < 0.5:
                ch("system", "refresh_policy", r.choice(["RANK_LEVEL_SIMULTANEOUS", "RANK_LEVEL_STAGGERED",
                                                         "BANK_LEVEL_STAGGERED"]))
            if r.random() < 0.2:
                ch("system", "enable_self_refresh", "true")
                ch("system", "sref_threshold", r.choice([50, 200, 1000]))
            if d.hbm and r.random() < 0.4:
                ch("dram_structure", "hbm_dual_cmd", r.choice(["true", "false"]))
            if d.gddr and r.random() < 0.2:
                ch("dram_structure", "bankgroup_enable", "false")
            if r.random() < 0.5:
                for _ in range(r.randint(1, 5)):
                    k = r.choice(["tRTP", "tFAW", "tRRD_S", "tRRD_L", "tWTR_S", "tWTR_L", "tRTRS", "tPPD", "tRAS",
                                  "tRP", "tWR", "tCCD_L", "tRCD", "tRCDRD", "tRCDWR", "t32AW", "tXS", "tCKESR"])
                    v = d.t[k]
                    lo, hi = max(1, v // 2), v * 2 + 4
                    if k == "tRAS":
                        lo = max(lo, max(d.t["tRCD"], d.t["tRCDRD"] if d.gddr or d.hbm else 0) + 2)
                        hi = max(hi, lo)
                    ch("timing", k, r.randint(lo, hi))
                if r.random() < 0.3:
                    ch("timing", "AL", r.randint(1, max(1, min(d.t["tRCD"] - 2, d.t["CL"] - 1))))
        d = Dev(t)
        lo = d.t["tRFC"] * 2 + 4 * d.trc + 6 * d.bg * d.ba
        if d.policy != "BANK_LEVEL_STAGGERED":
            lo *= d.ranks
        if d.t["tREFI"] < lo or r.random() < 0.6:
            ch("timing", "tREFI", r.randint(lo, lo * 4))
        lob = d.t["tRFCb"] * 2 + 4 * d.trc
        if d.policy == "BANK_LEVEL_STAGGERED" and (d.t["tREFIb"] < lob or r.random() < 0.5):
            ch("timing", "tREFIb", r.randint(lob, lob * 3))
        d = Dev(t)
        if d.ok and d.pos["ro"][1] and d.ranks <= 8:
            return n, t, d, changes


def scenario(r, tier, focus):
    name, text, d, changes = device(r, focus)
    interval = d.t["tREFIb"] if d.policy == "BANK_LEVEL_STAGGERED" else d.t["tREFI"]
    cap = (60000 if tier == "quick" else 200000) // max(1, d.channels // 2)
    maxclk = max(4000, min(cap, r.choice([6000, interval * 5, interval * 12, 20000])))
    nch = min(d.channels, r.choice([1, 1, 2, 8]))
    chs = r.sample(range(d.channels), nch)
    evts = []
    load_end = int(maxclk * r.choice([0.5, 0.7, 1.0]))

    def anyloc(**f):
        b = dict(ch=r.choice(chs), ra=r.randrange(d.ranks), bg=r.randrange(d.bg), ba=r.randrange(d.ba),
                 ro=r.randrange(d.rows), co=r.randrange(d.wcols))
        b.update(f)
        return b

    def p(c, kind, frm, to, gap, base, count, step):
        evts.append("p %d %s %d %d %d %d %d %d" % (c, kind, frm, to, gap, base, count, step))

    kinds = []
    c = 0
    for _ in range(r.randint(1, 4)):
        k = r.choice(["mix", "mix", "hazard", "hazard", "seq", "stream", "wflood", "bankpp", "sparse", "ranks"])
        kinds.append(k)
        t0 = r.randrange(max(1, load_end // 2))
        if k == "mix":
            t = t0
            for _ in range(r.randint(20, 250)):
                p(c, r.choice("RRW"), t, maxclk, 0, d.addr(**anyloc()), 1, 0)
                t += r.choice([0, 0, 0, 1, 3, 40])
        elif k == "hazard":
            pool = [d.addr(**anyloc()) for _ in range(r.choice([1, 2, 3, 8]))]
            b = anyloc()
            pool += [d.addr(**dict(b, ro=(b["ro"] + i) % d.rows)) for i in range(r.randint(0, 3))]
            for cc in range(r.randint(1, 3)):
                t = t0
                wr = r.choice([0.2, 0.5, 0.8])
                for _ in range(r.randint(30, 200)):
                    p(c, "W" if r.random() < wr else "R", t, maxclk, 0, r.choice(pool), 1, 0)
                    t += r.choice([0, 0, 1, 1, 2, 5, 60])
                c += 1
        elif k == "seq":
            for _ in range(r.randint(1, 5)):
                p(c, r.choice("RW"), t0, maxclk, 0, d.addr(**anyloc()), r.randint(8, 200), d.word)
        elif k == "stream":
            b = anyloc(co=0)
            n = r.choice([1, 4, min(16, d.wcols), d.wcols])
            p(c, r.choice("RRW"), t0, load_end, r.choice([1, 1, 2, d.burst or 1]), d.addr(**b), n, d.addr(co=1))
            c += 1
            for _ in range(r.randint(1, 12)):
                v = dict(b, ro=r.randrange(d.rows)) if r.random() < 0.6 else anyloc()
                p(c, r.choice("RRRW"), r.randrange(t0, load_end), maxclk, 0, d.addr(**v), r.choice([1, 1, 2]), d.word)
        elif k == "wflood":
            f = r.choice(["co", "ro", "ba", "bg"])
            n = d.pos[f][1] + 1
            p(c, "W", t0, load_end, 1, d.addr(**anyloc(**{f: 0})), min(n, r.choice([n, 64])), d.addr(**{f: 1}))
            c += 1
            for _ in range(r.randint(1, 20)):
                p(c, "R", r.randrange(t0, load_end), maxclk, 0, d.addr(**anyloc()), 1, 0)
        elif k == "bankpp":
            b = anyloc(ro=0)
            p(c, r.choice("RW"), t0, load_end, r.choice([1, 5, 30]), d.addr(**b), min(d.rows, r.choice([2, 3, 64])),
              d.addr(ro=1))
        elif k == "sparse":
            t = t0
            for _ in range(r.randint(3, 12)):
                p(c, r.choice("RW"), t, maxclk, 0, d.addr(**anyloc()), r.randint(1, 4), d.word)
                t += r.randint(100, max(101, load_end // 8))
        elif k == "ranks":
            t = t0
            b = anyloc()
            for _ in range(r.randint(20, 120)):
                v = dict(b, ra=r.randrange(d.ranks), bg=r.randrange(d.bg), co=r.randrange(d.wcols))
                p(c, r.choice("RW"), t, maxclk, 0, d.addr(**v), 1, 0)
                t += r.choice([0, 0, 0, 0, 12])
        c += 1
    evts.sort(key=lambda e: (int(e.split()[1]), int(e.split()[3])))
    return dict(bin="dramdrv", cfg=None, files={"dev.ini": text},
                head=["dramcfg dev.ini", "id 3", "maxclk %d" % maxclk, "drain %d" % (maxclk if focus != "P12" else 600)],
                evts=evts, collect=["dramsim3_3ch_%dcmd.trace" % i for i in range(d.channels)], seed=0,
                meta=dict(device=name, changes=changes, kinds=kinds, maxclk=maxclk, load_end=load_end))


class Dram:
    def __init__(self, plan, h):
        self.d = Dev(plan["files"]["dev.ini"])
        self.acc, self.done = [], []
        for l in h.lines:
            if l[0] == "A":
                self.acc.append((int(l[1]), l[2], int(l[3], 16)))
            elif l[0] == "D":
                self.done.append((int(l[1]), l[2], int(l[3], 16)))
        self.cmds = []
        for i in range(self.d.channels):
            t = h.files.get("dramsim3_3ch_%dcmd.trace" % i, "")
            cl = []
            for l in t.split("\n"):
                w = l.split()
                if len(w) == 8:
                    cl.append((int(w[0]), w[1], int(w[3]), int(w[4]), int(w[5]), int(w[6], 0), int(w[7], 0)))
            self.cmds.append(cl)
        self.end = int(h.lines[-1][2]) if h.lines and len(h.lines[-1]) > 2 else 0


KIND = {"read": "R", "read_p": "R", "write": "W", "write_p": "W"}


STARVE = 500   # cycles after which the oldest command of a queue is not overtaken any more


def bound(d):
    """Generous number of cycles in which a read has to complete: everything
    that can be queued ahead of it is either served in order at the cost of a
    full row cycle each, or overtaken for no longer than the limit."""
    per = d.trc + d.wl + d.burst + d.t["tWR"] + d.t["tRP"] + max(d.t["tRCD"], d.t["tRCDRD"]) + d.t["tFAW"]
    if d.hmc:
        b = (4 * d.tq + 4 * d.cq * 8 + 64) * per
    else:
        b = 12000 + (d.tq + d.cq) * STARVE // 2
    ref = d.t["tRFC"] * d.ranks + 500
    iv = d.t["tREFI"]
    if d.policy == "BANK_LEVEL_STAGGERED":
        ref, iv = d.t["tRFCb"] + 4 * d.trc, d.t["tREFIb"]
    return b + (b // iv + 2) * ref * 2 + (d.t["tXS"] + d.t["tCKESR"] if d.sref else 0)


class DramProp(core.Prop):
    bins = ["dramdrv"]
    quick_n = 1700
    thorough_s = 900
    real = "DRAMsim3: configuration, controller, queues, bank and channel state, timing, refresh, HMC vaults and crossbar"
    stub = "the clients that issue transactions (plan-driven); no RAD-Sim around it"
    nontrivial = "at least 20 transactions completed and at least one refresh issued"
    sig_rule = "hash of the complete transaction history and command traces"
    assumptions = ["device configurations: the shipped .ini files and legal variations of their policies, queue sizes, ranks, mappings and timings"]

    def gen(self, r, tier):
        return scenario(r, tier, self.id)

    def stats(self, plan, h):
        x = Dram(plan, h)
        c = collections.Counter(h.counters)
        c["transactions_accepted"] += len(x.acc)
        c["transactions_completed"] += len(x.done)
        for cl in x.cmds:
            for k in cl:
                c["cmd_" + k[1]] += 1
        for k in plan["meta"]["kinds"]:
            c["load_" + k] += 1
        for k in plan["meta"]["changes"]:
            c["set_" + k.split("=")[0]] += 1
        q = collections.defaultdict(list)
        for t, k, a in x.acc:
            if k == "R":
                q[a].append(t)
        n = collections.Counter()
        for t, k, a in x.done:
            if k == "R" and n[a] < len(q[a]):
                self.worst = max(getattr(self, "worst", 0), t - q[a][n[a]])
                n[a] += 1
        for b in (1000, 3000, 10000):
            if max([0] + [x.end - q[a][i] for a in q for i in range(n[a], len(q[a]))]) > b:
                c["read_open_longer_than_%d" % b] += 1
        ref = c["cmd_refresh"] + c["cmd_refresh_bank"]
        return c, h.sha, len(x.done) >= 20 and ref > 0, x.end * float(x.d.p.get("tCK", 1)) * 1e-9


class P12(DramProp):
    id = "P12"

    def stalls(self, x):
        """While reads are outstanding on a channel its column commands go on."""
        d = x.d
        X = 4 * (d.trc + d.wl + d.burst + d.t["tWR"] + d.t["tRP"] + d.t["tFAW"]) + 2 * d.t["tRTRS"] + 400
        X += (d.t["tRFCb"] if d.policy == "BANK_LEVEL_STAGGERED" else d.t["tRFC"] + 2 * d.bg * d.ba) * (d.ranks + 1)
        if d.sref:
            X += d.t["tXS"] + d.t["tCKESR"]
        out = []
        ev = [[] for _ in range(d.channels)]
        if d.hmc:
            # requests may wait in the links and the crossbar in front of their vault
            # one behind the other, in front of a single bank
            X += (8 * 64 + d.tq + d.cq) * (d.trc + d.wl + d.burst + d.t["tWR"] + d.t["tRP"])
            ev = []
            marks = [(t, k) for k, l in (("A", x.acc), ("D", x.done)) for t, w, a in l if w == "R"]
            n, last = 0, 0
            for t, k in sorted(marks, key=lambda m: m[0]) + [(x.end, "E")]:
                if n > 0 and t - last > X:
                    return [("stalled", "%d reads outstanding, none completed from clk %d to clk %d" % (n, last, t))]
                last = t
                n += {"A": 1, "D": -1, "E": 0}[k]
            return []
        for k, l in (("A", x.acc), ("D", x.done)):
            for t, w, a in l:
                if w == "R":
                    ev[d.loc(a)[0]].append((t, k))
        for i in range(d.channels):
            marks = ev[i] + [(c[0], "C") for c in x.cmds[i] if c[1] in KIND] + [(x.end, "E")]
            marks.sort(key=lambda m: m[0])
            n, last = 0, 0
            for t, k in marks:
                if n > 0 and t - last > X:
                    out.append(("stalled", "channel %d: %d reads outstanding, nothing happened from clk %d to clk %d" % (i, n, last, t)))
                    break
                last = t
                if k == "A":
                    n += 1
                elif k == "D":
                    n -= 1
        return out

    def check(self, plan, h):
        out = common.crashed(h)
        if out:
            return out
        x = Dram(plan, h)
        d = x.d
        # exactly once, same kind and address
        bal = collections.defaultdict(list)
        B = bound(d)
        worst = 0
        for t, k, a in x.acc:
            bal[(k, a)].append(t)
        used = collections.Counter()
        done_of = {}
        for t, k, a in x.done:
            i = used[(k, a)]
            q = bal.get((k, a), [])
            if i >= len(q) or q[i] > t:
                out.append(("invented", "clk %d: %s of %#x reported complete, which is not outstanding" % (
                    t, "read" if k == "R" else "write", a)))
                continue
            used[(k, a)] += 1
            done_of[(k, a, i)] = t
            if t - q[i] > B:
                out.append(("late", "%s of %#x accepted at clk %d completed after %d cycles (bound %d)" % (
                    k, a, q[i], t - q[i], B)))
        for (k, a), q in bal.items():
            for i in range(used[(k, a)], len(q)):
                if x.end - q[i] > B or h.end == "quiet":
                    out.append(("never", "%s of %#x accepted at clk %d was not reported complete by clk %d (bound %d)" % (
                        "read" if k == "R" else "write", a, q[i], x.end, B)))
        out += self.stalls(x)
        # a read is not complete before the array was read for it
        ev = collections.defaultdict(list)
        for t, k, a in x.acc:
            if k == "R":
                ev[d.loc(a)].append((t, 0, 1))
        for t, k, a in x.done:
            if k == "R":
                ev[d.loc(a)].append((t, 2, -1))
        for chn, cl in enumerate(x.cmds):
            for t, k, ra, bg, ba, ro, co in cl:
                if KIND.get(k) == "R":
                    ev[(chn, ra, bg, ba, ro, co)].append((t, 1, 0))
        for loc, el in ev.items():
            n = 0
            for t, what, dn in sorted(el):
                n += dn
                if what == 1 and n <= 0:
                    out.append(("early", "clk %d: read command at %s, but every read of it was already reported complete" % (t, loc)))
        if d.hmc:
            return out
        # the value every access to one location would see: the array as the
        # column commands leave it, and the write buffer in front of it
        ev = collections.defaultdict(list)
        for s, (t, k, a) in enumerate(x.acc):
            ev[d.loc(a)].append((t, 0, s, "a" + k, a))
        comp = collections.defaultdict(list)
        for t, k, a in x.done:
            if k == "R":
                comp[a].append(t)
        for chn, cl in enumerate(x.cmds):
            for s, (t, k, ra, bg, ba, ro, co) in enumerate(cl):
                if k in KIND:
                    ev[(chn, ra, bg, ba, ro, co)].append((t, 1, s, "c" + KIND[k], 0))
        for loc, el in ev.items():
            el.sort()
            nw = ver = 0
            buffered = False
            waiting = []
            for t, _, _, k, a in el:
                if k == "aW":
                    nw += 1
                    buffered = True
                elif k == "aR":
                    fwd = buffered and any(t < c <= t + 2 for c in comp[a][bisect.bisect_right(comp[a], t):][:1])
                    if not fwd:
                        waiting.append((t, nw))
                elif k == "cW":
                    if not buffered:
                        out.append(("address", "clk %d: write command at %s where no write is outstanding" % (t, loc)))
                    ver, buffered = nw, False
                else:
                    if not waiting:
                        out.append(("address", "clk %d: read command at %s where no read is outstanding" % (t, loc)))
                    for rt, want in waiting:
                        if ver != want:
                            out.append(("order", "read of %s accepted at clk %d after %d writes was issued at clk %d "
                                        "when the cell held write %d" % (loc, rt, want, t, ver)))
                    waiting = []
        return out


# ------------------------------------------------------------------ P13
class Rules:
    """JEDEC rules of one channel from the configured parameters."""

    def __init__(self, d):
        self.d = d
        t, b = d.t, d.burst
        one = d.bg == 1
        self.rr_l = max(b, t["tCCD_S"] if one else t["tCCD_L"])
        self.rr_s = max(b, t["tCCD_S"])
        self.rr_o = b + t["tRTRS"]
        self.rw = d.rl + b + t["tRTRS"] - d.wl
        self.wr_l = d.wl + b + (t["tWTR_S"] if one else t["tWTR_L"])
        self.wr_s = d.wl + b + t["tWTR_S"]
        self.wr_o = d.wl + b + t["tRTRS"] - d.rl
        self.ww_o = b
        self.aa_l = t["tRRD_S"] if one else t["tRRD_L"]
        self.aa_s = t["tRRD_S"]
        if d.gddr or d.hbm:
            self.ar, self.aw = t["tRCDRD"], t["tRCDWR"]
        else:
            self.ar = self.aw = t["tRCD"] - t["AL"]
        self.rp = t["AL"] + t["tRTP"]
        self.wp = d.wl + b + t["tWR"]
        self.ppd = t["tPPD"] if d.gddr or d.proto == "LPDDR4" else 0


NEG = -10 ** 9


def timing(d, cl):
    R = Rules(d)
    t = d.t
    out = []
    nb, ng = d.ba, d.bg
    open_row = {}
    act = collections.defaultdict(lambda: NEG)      # bank -> last activate
    closed = collections.defaultdict(lambda: NEG)   # bank -> time from which the next activate is legal (tRP etc.)
    ready = collections.defaultdict(lambda: NEG)    # bank -> refresh recovery
    preok = collections.defaultdict(lambda: NEG)
    gact, gcol = collections.defaultdict(lambda: NEG), {"R": collections.defaultdict(lambda: NEG),
                                                        "W": collections.defaultdict(lambda: NEG)}
    faw = collections.defaultdict(list)
    lastpre = collections.defaultdict(lambda: (NEG, None))
    sref = {}
    clk, same = NEG, []

    def bad(t0, c, why):
        out.append((why[0], "clk %d: %s to rank %d group %d bank %d row %#x: %s" % ((t0,) + c[1:5] + (c[5] & 0xffffffff, why[1]))))

    for c in cl:
        now, k, ra, bg, ba, ro, co = c
        col = k in KIND
        if now == clk:
            same.append(col)
            if not d.dual or len(same) > 2 or same[0] == same[1]:
                bad(now, c, ("bus", "%d commands in one cycle" % len(same)))
        elif now < clk:
            bad(now, c, ("bus", "commands out of time order"))
            clk, same = now, [col]
        else:
            clk, same = now, [col]
        if ra < 0 or ra >= d.ranks:
            bad(now, c, ("state", "no such rank"))
            continue
        if k in ("refresh", "self_refresh_enter"):
            if ra in sref:
                bad(now, c, ("state", "rank is in self refresh"))
            for g in range(ng):
                for b in range(nb):
                    key = (ra, g, b)
                    if key in open_row:
                        bad(now, c, ("state", "bank %d.%d has an open row" % (g, b)))
                    if now < closed[key]:
                        bad(now, c, ("tRP", "bank %d.%d is precharged only from clk %d" % (g, b, closed[key])))
                    if now < act[key] + d.trc:
                        bad(now, c, ("tRC", "bank %d.%d was activated at clk %d, tRC is %d" % (g, b, act[key], d.trc)))
                    if now < ready[key]:
                        bad(now, c, ("tRFC", "bank %d.%d is busy with refresh until clk %d" % (g, b, ready[key])))
                    if k == "refresh":
                        ready[key] = max(ready[key], now + t["tRFC"])
            if k != "refresh":
                sref[ra] = now
            continue
        if k == "self_refresh_exit":
            if ra not in sref:
                bad(now, c, ("state", "rank is not in self refresh"))
            elif now < sref[ra] + t["tCKESR"]:
                bad(now, c, ("tCKESR", "entered at clk %d" % sref[ra]))
            sref.pop(ra, None)
            for g in range(ng):
                for b in range(nb):
                    ready[(ra, g, b)] = max(ready[(ra, g, b)], now + t["tXS"])
            continue
        key = (ra, bg, ba)
        if not (0 <= bg < ng and 0 <= ba < nb):
            bad(now, c, ("state", "no such bank"))
            continue
        if ra in sref:
            bad(now, c, ("state", "rank is in self refresh"))
        if k == "refresh_bank":
            if key in open_row:
                bad(now, c, ("state", "bank has an open row"))
            if now < closed[key]:
                bad(now, c, ("tRP", "bank is precharged only from clk %d" % closed[key]))
            if now < act[key] + d.trc:
                bad(now, c, ("tRC", "bank was activated at clk %d, tRC is %d" % (act[key], d.trc)))
            if now < ready[key]:
                bad(now, c, ("tRFC", "bank is busy with refresh until clk %d" % ready[key]))
            ready[key] = now + t["tRFCb"]
        elif k == "activate":
            if key in open_row:
                bad(now, c, ("state", "bank already has an open row"))
            if now < closed[key]:
                bad(now, c, ("tRP", "bank is precharged only from clk %d" % closed[key]))
            if now < act[key] + d.trc:
                bad(now, c, ("tRC", "bank was activated at clk %d, tRC is %d" % (act[key], d.trc)))
            if now < ready[key]:
                bad(now, c, ("tRFC", "bank is busy with refresh until clk %d" % ready[key]))
            for g in range(ng):
                lim = R.aa_l if g == bg else R.aa_s
                if now < gact[(ra, g)] + lim:
                    bad(now, c, ("tRRD", "activate in group %d at clk %d, spacing %d" % (g, gact[(ra, g)], lim)))
            f = faw[ra]
            if len(f) >= 4 and now < f[-4] + t["tFAW"]:
                bad(now, c, ("tFAW", "fifth activate since clk %d, window %d" % (f[-4], t["tFAW"])))
            if d.gddr and len(f) >= 32 and now < f[-32] + t["t32AW"]:
                bad(now, c, ("t32AW", "33rd activate since clk %d, window %d" % (f[-32], t["t32AW"])))
            f.append(now)
            del f[:-40]
            open_row[key] = ro
            act[key] = gact[(ra, bg)] = now
        elif k == "precharge":
            if key in open_row:
                if now < act[key] + t["tRAS"]:
                    bad(now, c, ("tRAS", "activated at clk %d, tRAS is %d" % (act[key], t["tRAS"])))
                if now < preok[key]:
                    bad(now, c, ("tRTP/tWR", "column access allows precharge from clk %d" % preok[key]))
                if now < lastpre[ra][0] + R.ppd and lastpre[ra][1] != key:
                    bad(now, c, ("tPPD", "precharge at clk %d, spacing %d" % (lastpre[ra][0], R.ppd)))
                lastpre[ra] = (now, key)
                closed[key] = now + t["tRP"]
                del open_row[key]
        elif col:
            w = KIND[k]
            if open_row.get(key) != ro:
                bad(now, c, ("state", "the open row is %s" % (open_row.get(key),)))
            lim = R.ar if w == "R" else R.aw
            if now < act[key] + lim:
                bad(now, c, ("tRCD", "activated at clk %d, spacing %d" % (act[key], lim)))
            for rr in range(d.ranks):
                for g in range(ng):
                    if rr != ra:
                        fr, fw = (R.rr_o, R.wr_o) if w == "R" else (R.rw, R.ww_o)
                    elif g == bg:
                        fr, fw = (R.rr_l, R.wr_l) if w == "R" else (R.rw, R.rr_l)
                    else:
                        fr, fw = (R.rr_s, R.wr_s) if w == "R" else (R.rw, R.rr_s)
                    if now < gcol["R"][(rr, g)] + fr:
                        bad(now, c, ("R-" + w, "read in rank %d group %d at clk %d, spacing %d" % (rr, g, gcol["R"][(rr, g)], fr)))
                    if now < gcol["W"][(rr, g)] + fw:
                        bad(now, c, ("W-" + w, "write in rank %d group %d at clk %d, spacing %d" % (rr, g, gcol["W"][(rr, g)], fw)))
            gcol[w][(ra, bg)] = now
            p = now + (R.rp if w == "R" else R.wp)
            preok[key] = max(preok[key], p)
            if k.endswith("_p"):
                open_row.pop(key, None)
                closed[key] = p + t["tRP"]
        else:
            bad(now, c, ("state", "unknown command"))
        if len(out) > 20:
            break
    return out


class P13(DramProp):
    id = "P13"
    quick_n = 1800

    def check(self, plan, h):
        out = common.crashed(h)
        if out:
            return out
        x = Dram(plan, h)
        for i, cl in enumerate(x.cmds):
            for k, m in timing(x.d, cl):
                out.append((k, "channel %d, %s" % (i, m)))
        return out


# ------------------------------------------------------------------ P14
class P14(DramProp):
    id = "P14"
    quick_n = 2000

    def check(self, plan, h):
        out = common.crashed(h)
        if out:
            return out
        x = Dram(plan, h)
        d = x.d
        per_bank = d.policy == "BANK_LEVEL_STAGGERED"
        nbk = d.bg * d.ba
        # how long a refresh that is due can take: close what is open, and
        # the refreshes of the other ranks queued in front of it
        once = 2 * (d.trc + max(Rules(d).rp, Rules(d).wp)) + (1 if per_bank else nbk * (1 + Rules(d).ppd)) + 60
        once += d.t["tRFCb"] if per_bank else d.t["tRFC"]
        post = once * (2 if per_bank else d.ranks + 1)
        if d.sref:
            post += d.t["tXS"] + d.t["tCKESR"]
        if per_bank:
            iv = d.t["tREFIb"] * nbk * d.ranks
            kind, keys = "refresh_bank", [(r, g, b) for r in range(d.ranks) for g in range(d.bg) for b in range(d.ba)]
        else:
            iv, kind, keys = d.t["tREFI"], "refresh", [(r,) for r in range(d.ranks)]
        other = "refresh" if per_bank else "refresh_bank"
        for i, cl in enumerate(x.cmds):
            at = collections.defaultdict(list)
            asleep = collections.defaultdict(list)
            for c in cl:
                if c[1] == kind:
                    at[c[2:5] if per_bank else (c[2],)].append(c[0])
                elif c[1] == other:
                    out.append(("kind", "channel %d clk %d: %s under policy %s" % (i, c[0], other, d.policy)))
                elif c[1] == "self_refresh_enter":
                    asleep[c[2]].append([c[0], x.end])
                elif c[1] == "self_refresh_exit" and asleep[c[2]]:
                    asleep[c[2]][-1][1] = c[0]
            for k in keys:
                ts = at[k]
                sl = asleep[k[0]]
                first = True
                prev = 0
                marks = sorted([(t, 0, t) for t in ts] + [(a, 1, b) for a, b in sl] + [(x.end, 2, x.end)])
                for t, what, nxt in marks:
                    lim = iv + post + (iv if first else 0)
                    if t - prev > lim:
                        out.append(("gap", "channel %d %s %s: no refresh from clk %d to clk %d, the interval is %d (slack %d)" % (
                            i, "bank" if per_bank else "rank", k, prev, t, iv, lim - iv)))
                        break
                    first = what == 1   # a refresh that fell due during self refresh is skipped
                    prev = nxt if what == 1 else t
                awake = x.end - sum(b - a for a, b in sl)
                want = awake / iv
                div = (iv // d.ranks * d.ranks) if not per_bank else iv
                if not sl and not (want - 2 - post / iv <= len(ts) <= x.end / max(1, div) + 2):
                    out.append(("rate", "channel %d %s: %d refreshes in %d cycles, the interval is %d" % (
                        i, k, len(ts), x.end, iv)))
        return out


PROPS = [P12(), P13(), P14()]
