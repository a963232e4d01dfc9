"""P29: the memory controller uses every cycle it may use, reads take exactly their latency."""
import collections

from dst import core, dramcfg
from dst.props import common
from dst.props.dram import KIND, NEG, STARVE, Dev, Dram, DramProp, Rules, device, setp


class State:
    """Banks of one channel as the commands so far leave them, and when the next command is legal."""

    def __init__(self, d):
        self.d, self.R, self.t = d, Rules(d), d.t
        neg = lambda: NEG
        self.row = {}
        self.act, self.closed = collections.defaultdict(neg), collections.defaultdict(neg)
        self.ready, self.preok = collections.defaultdict(neg), collections.defaultdict(neg)
        self.gact = collections.defaultdict(neg)
        self.col = {"R": collections.defaultdict(neg), "W": collections.defaultdict(neg)}
        self.acts = collections.defaultdict(list)
        self.lastpre = {}

    def next(self, ra, bg, ba, ro, w):
        """The command a request needs now and the first cycle in which it is legal."""
        key, d, R, t = (ra, bg, ba), self.d, self.R, self.t
        if key not in self.row:
            e = max(self.closed[key], self.act[key] + d.trc, self.ready[key])
            for g in range(d.bg):
                e = max(e, self.gact[(ra, g)] + (R.aa_l if g == bg else R.aa_s))
            f = self.acts[ra]
            if len(f) >= 4:
                e = max(e, f[-4] + t["tFAW"])
            if d.gddr and len(f) >= 32:
                e = max(e, f[-32] + t["t32AW"])
            return "activate", e
        if self.row[key] != ro:
            e = max(self.act[key] + t["tRAS"], self.preok[key])
            p = self.lastpre.get(ra)
            if p and p[1] != key:
                e = max(e, p[0] + R.ppd)
            return "precharge", e
        e = self.act[key] + (R.ar if w == "R" else R.aw)
        for rr in range(d.ranks):
            for g in range(d.bg):
                if rr != ra:
                    fr, fw = (R.rr_o, R.wr_o) if w == "R" else (R.rw, R.ww_o)
                elif g == bg:
                    fr, fw = (R.rr_l, R.wr_l) if w == "R" else (R.rw, R.rr_l)
                else:
                    fr, fw = (R.rr_s, R.wr_s) if w == "R" else (R.rw, R.rr_s)
                e = max(e, self.col["R"][(rr, g)] + fr, self.col["W"][(rr, g)] + fw)
        return w, e

    def apply(self, c):
        now, k, ra, bg, ba, ro, co = c
        key, d, R, t = (ra, bg, ba), self.d, self.R, self.t
        if k in ("refresh", "refresh_bank"):
            # the simulator lets no bank of the rank activate while one is refreshed
            for g in range(d.bg):
                for b in range(d.ba):
                    self.ready[(ra, g, b)] = max(self.ready[(ra, g, b)], now + t["tRFC" if k == "refresh" else "tRFCb"])
        elif k == "activate":
            self.row[key] = ro
            self.act[key] = self.gact[(ra, bg)] = now
            self.acts[ra].append(now)
            del self.acts[ra][:-40]
        elif k == "precharge":
            if key in self.row:
                self.lastpre[ra] = (now, key)
                self.closed[key] = now + t["tRP"]
                del self.row[key]
        elif k in KIND:
            w = KIND[k]
            self.col[w][(ra, bg)] = now
            p = now + (R.rp if w == "R" else R.wp)
            self.preok[key] = max(self.preok[key], p)
            if k.endswith("_p"):
                self.row.pop(key, None)
                # the simulator starts the precharge of a read only after its burst
                self.closed[key] = p + t["tRP"] + (d.burst if w == "R" else 0)


def scenario(r, tier):
    while True:
        name, text, d, changes = device(r, "P29")
        if d.hmc:
            continue
        text = setp(text, "system", "enable_self_refresh", "false")
        text = setp(text, "timing", "tREFI", max(d.t["tREFI"], r.choice([8000, 20000])))
        text = setp(text, "timing", "tREFIb", max(d.t["tREFIb"], 4000))
        text = setp(text, "system", "cmd_queue_size", r.choice([1, 2, 4, 8, 16]))
        d = Dev(text)
        if d.ok:
            break
    unified = d.p.get("unified_queue", "False").lower() in ("true", "1", "yes", "on")
    maxclk = max(6000, min(40000 if tier == "quick" else 150000, 60000 // d.channels))
    chs = r.sample(range(d.channels), min(d.channels, r.choice([1, 1, 2])))
    evts, seen, kinds, writes = [], set(), [], 0
    t = r.choice([0, 5, 300])
    clients = r.choice([1, 1, 3])
    slow = d.trc + d.wl + d.rl + d.burst + d.t["tWR"] + d.t["tRP"] + d.t["tRCD"] + d.t["tRCDRD"]

    def loc(**f):
        b = dict(ch=r.choice(chs), ra=r.randrange(d.ranks), bg=r.randrange(d.bg), ba=r.randrange(d.ba), ro=r.randrange(d.rows), co=r.randrange(d.wcols))
        b.update(f)
        return b
    last = loc()
    while t < maxclk * 0.9:
        k = r.choice(["alone", "alone", "alone", "group", "group", "hits", "banks", "rows"])
        kinds.append(k)
        n = 1 if k == "alone" else r.randint(2, r.choice([max(2, d.cq), 12, 60]))
        b = r.choice([last, last, loc()])
        pace = r.choice([[0], [0, 0, 1], [1], [1, 1, 1, 2, 6]])
        for i in range(n):
            f = dict(alone=lambda: r.choice([dict(b, co=r.randrange(d.wcols)), dict(b, ro=r.randrange(d.rows), co=r.randrange(d.wcols)), loc()]),
                     group=loc, hits=lambda: dict(b, co=r.randrange(d.wcols)),
                     banks=lambda: dict(b, bg=r.randrange(d.bg), ba=r.randrange(d.ba), ra=r.choice([b["ra"], r.randrange(d.ranks)]), co=r.randrange(d.wcols)),
                     rows=lambda: dict(b, ro=r.choice([b["ro"], r.randrange(d.rows)]), co=r.randrange(d.wcols)))[k]()
            a = d.addr(**f)
            last = f
            if a in seen:
                continue
            seen.add(a)
            # with one queue for both kinds writes are served like reads, otherwise a few stay in the write buffer
            wr = r.random() < 0.4 if unified else r.random() < 0.1 and writes < min(8, d.tq - 1)
            writes += wr
            evts.append("p %d %s %d %d 0 %d 1 0" % (r.randrange(clients), "W" if wr else "R", t, maxclk, a))
            t += r.choice(pace)
        t += r.choice([0, 3, 20, slow // 2, slow, 2 * slow, 400])
    return dict(bin="dramdrv", cfg=None, files={"dev.ini": text}, head=["dramcfg dev.ini", "id 3", "maxclk %d" % maxclk, "drain 600"],
                evts=evts, collect=["dramsim3_3ch_%dcmd.trace" % i for i in range(d.channels)], seed=0,
                meta=dict(device=name, changes=changes, kinds=kinds, maxclk=maxclk, unified=unified))


class P29(DramProp):
    id = "P29"
    quick_n = 1500
    nontrivial = "at least 20 transactions completed"
    assumptions = DramProp.assumptions + ["requests are for different words; no self refresh, no hybrid memory cube; without a common queue no more writes than the "
                                          "write buffer keeps"]

    def gen(self, r, tier):
        return scenario(r, tier)

    def stats(self, plan, h):
        c, sig, nt, ns = DramProp.stats(self, plan, h)
        return c, sig, c["transactions_completed"] >= 20, ns

    def check(self, plan, h):
        out = common.crashed(h)
        if out:
            return out
        x = Dram(plan, h)
        d = x.d
        per_rank = d.p.get("queue_structure", "PER_BANK") == "PER_RANK"
        acc = [[] for _ in range(d.channels)]
        for t, k, a in x.acc:
            if k == "R" or plan["meta"]["unified"]:
                acc[d.loc(a)[0]].append((t, k, a))
        done = collections.defaultdict(list)
        for t, k, a in x.done:
            done[(k, a)].append(t)
        at = {}       # column command of every request
        idle = checked = 0
        # a refresh closes what is open first, and everything of the rank waits for it
        R = Rules(d)
        ref = 2 * (d.trc + max(R.rp, R.wp)) + d.bg * d.ba * (1 + R.ppd) + 60 + max(d.t["tRFC"], d.t["tRFCb"]) * d.ranks
        for ch, cl in enumerate(x.cmds):
            refs = [c[0] for c in cl if c[1] in ("refresh", "refresh_bank")]
            s = State(d)
            waiting, sched = [], {}      # in the controller's queue; handed to the command queues and not issued, in order
            room = collections.Counter()
            new, i, ri, clk = acc[ch], 0, 0, 0
            byt = collections.defaultdict(list)
            for c in cl:
                byt[c[0]].append(c)
            prev = -1

            def hand_over(upto):
                """One request per cycle goes to the command queues, the oldest whose queue has room."""
                nonlocal i, clk
                while clk < upto:
                    if not waiting and (i == len(new) or new[i][0] > clk):
                        clk = upto if i == len(new) else min(upto, new[i][0])
                        continue
                    while i < len(new) and new[i][0] <= clk:
                        waiting.append(new[i])
                        i += 1
                    for n, (t, k, a) in enumerate(waiting):
                        l = d.loc(a)[1:]
                        q = l[:1] if per_rank else l[:3]
                        if room[q] < d.cq:
                            room[q] += 1
                            sched[a] = (clk, k, l, q)
                            del waiting[n]
                            break
                    clk += 1

            for now in sorted(byt) + [x.end]:
                hand_over(now)
                # the bus was free from prev + 1 to now - 1
                while ri < len(refs) and refs[ri] < prev:
                    ri += 1
                blocked = now == x.end or (ri < len(refs) and refs[ri] - ref <= now)
                if now > prev + 1 and sched and not blocked and now - min(v[0] for v in sched.values()) < STARVE - 10:
                    first, hit = {}, set()
                    for a, (t, k, l, q) in sched.items():
                        first.setdefault(l[:3], a)
                        if s.row.get(l[:3]) == l[3]:
                            hit.add(l[:3])
                    for a, (t, k, l, q) in sched.items():
                        cmd, e = s.next(l[0], l[1], l[2], l[3], k)
                        if cmd == "precharge" and (first[l[:3]] != a or l[:3] in hit):
                            continue
                        e = max(e, prev + 1, t + 1)
                        checked += 1
                        if e < now:
                            out.append(("idle", "channel %d: %s of %#x (rank %d group %d bank %d row %#x) waits from clk %d, its %s is legal from clk %d, "
                                        "nothing was issued until clk %d" % (ch, "read" if k == "R" else "write", a, l[0], l[1], l[2], l[3], t, {
                                            "R": "read command", "W": "write command"}.get(cmd, cmd), e, now)))
                for c in byt.get(now, []):
                    s.apply(c)
                    if c[1] in KIND:
                        a = d.addr(ch=ch, ra=c[2], bg=c[3], ba=c[4], ro=c[5], co=c[6])
                        at[(KIND[c[1]], a)] = now
                        if a in sched:
                            room[sched.pop(a)[3]] -= 1
                prev = now
                if len(out) > 5:
                    return out
        for (k, a), t in sorted(at.items(), key=lambda m: m[1]):
            if k == "R":
                want = t + d.rl + d.burst
                got = done.get((k, a), [None])[0]
                if got != want and (got is not None or want < x.end - 2):
                    out.append(("latency", "read of %#x: column command at clk %d, completed at clk %s, the read latency makes it clk %d" % (a, t, got, want)))
        h.counters["waits_checked"] = checked
        return out


PROPS = [P29()]
