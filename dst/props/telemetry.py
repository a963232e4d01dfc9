"""P18: the recorded statistics against what happened at the ports."""
import collections, re
from dst import core, gen
from dst.props.common import *
from dst.props import axis, aximm

COLS = ["id", "noc_id", "src", "dest", "dataw", "hops", "t_init", "t_packet", "t_inject", "t_eject", "t_depacket",
        "t_receive", "latency"]
EPS = 0.002       # ns; hand-over times are recorded in ps


def close(a, b, rel=2e-5):
    return abs(a - b) <= 1e-9 + rel * max(abs(a), abs(b))


def routers(net, a, b):
    """Routers on the route between two nodes, or None where the topology leaves it open."""
    k, t = net["dim"], net["topo"]
    if t in ("mesh", "torus"):
        d = 0
        for _ in range(2):
            x = abs(a % k - b % k)
            d += min(x, k - x) if t == "torus" else x
            a, b = a // k, b // k
        return d + 1, d + 1
    if t == "anynet":
        home, adj = {}, collections.defaultdict(set)
        for line in net["anynet"].split("\n"):
            w = line.split()
            i, cur = 2, w[1] if w else None
            while w and i < len(w):
                if w[i] == "node":
                    home[int(w[i + 1])] = cur
                else:
                    adj[cur].add(w[i + 1])
                    adj[w[i + 1]].add(cur)
                i += 2
                if i < len(w) and w[i].isdigit():
                    i += 1
        q, seen = [(home[a], 1)], {home[a]}
        for x, n in q:
            if x == home[b]:
                return n, n
            for y in sorted(adj[x]):
                if y not in seen:
                    seen.add(y)
                    q.append((y, n + 1))
        return None
    return (1, 1) if a == b else (1, 2 * k)


class P18(core.Prop):
    id = "P18"
    quick_n = 1500
    bins = ["sys_a", "sys_b", "sys_c", "sys_d", "sys_e"]
    real = ["NoCTransactionTelemetry (records, DumpStatsToFile, DumpTrafficFlows)", "NoC adapters (AXI-S and AXI-MM)",
            "portal and inter-device link", "radsim_noc, Booksim network", "RADSimDesignContext, config.py", "SystemC kernel"]
    stub = ["user modules (plan-driven senders, receivers, initiators, targets)", "order of coincident clock edges (seeded scheduler)"]
    assumptions = axis.ASSUME + aximm.ASSUME + [
        "a memory-mapped transfer counts as received when the adapter presents it to the port, one module clock cycle before the module takes it"]
    nontrivial = ("one run = one random system (one or two networks, streaming or memory-mapped, or several devices with a link) run to its end "
                  "or cut off in the middle, whose statistics files are compared with the hand-overs at the ports; non-trivial when "
                  "completed transactions were compared")

    def gen(self, r, tier):
        k = r.random()
        if k < 0.45:
            s = gen.axis_system(r, num_nocs=r.choice([1, 1, 2]), nmsg=(20, 150), scale=r.choice([1] * 20 + [60, 1000]))
            kind = "axis"
        elif k < 0.7:
            s = gen.aximm_system(r, nops=(10, 70))
            kind = "mm"
        else:
            s = gen.multirad_system(r, nmsg=(20, 150))
            kind = "multi"
        m = s.meta
        m["kind"] = kind
        m["cut"] = r.random() < 0.3
        if m["cut"]:
            s.head = [("maxns %.3f" % (m["qend"] * r.uniform(0.1, 0.9)) if l.startswith("maxns") else l) for l in s.head]
        cyc = r.randint(1000, 100000)
        s.head += ["telem stats.csv", "flows flows %d" % cyc]
        m["cycles"] = cyc
        m["nocs"] = len(m["info"])
        s.collect = ["stats.csv"] + ["flows_r%d_noc%d.xml" % (d, n) for d in range(s.rads) for n in range(m["nocs"])]
        late = r.choice([0] * 9 + [12000, 50000, 101000])
        return gen.later(s.plan(), late + r.randint(0, 9999)) if late else s.plan()

    # ---------------------------------------------------------------- what must have been recorded
    def wanted(self, plan, h):
        """Hand-overs at the user modules' ports: (rad, noc, src, dest, dataw, type, t_init, arrival, hops)."""
        m = plan["meta"]
        node = {}
        for l in h.kind("N"):
            node[(int(l[1]), l[2])] = int(l[3])
        width, typ, per, portal = {}, {}, {}, {}
        for l in plan["head"]:
            w = l.split()
            if w[0] == "port":
                width[(int(w[1]), w[2] + "." + w[3])] = int(w[5])
                typ[(int(w[1]), w[2] + "." + w[3])] = int(w[6])
            elif w[0] == "mod":
                per[(int(w[1]), w[2])] = float(w[3])
        noc = {}
        for f, text in plan["files"].items():
            g = re.search(r"r(\d+)\.place$", f)
            if g:
                for l in text.split("\n"):
                    w = l.split()
                    if w:
                        noc[(int(g.group(1)), w[0])] = int(w[1])
                        if w[0].startswith("portal"):
                            portal[int(g.group(1))] = int(w[2])
        out = []
        if m["kind"] != "mm":
            ax = Axis(plan, h)
            got = {x["tag"]: x for x in ax.rcvd}
            for s in ax.sent:
                p, g = (s["rad"], s["port"]), got.get(s["tag"])
                if s["rad"] == s["drad"]:
                    dst, arr = node[(s["drad"], s["dport"])], (g["t"] if g else None)
                else:
                    dst, arr = portal[s["rad"]], -1
                out.append(dict(rad=s["rad"], noc=noc[p], src=node[p], dest=dst, dataw=width[p], type=typ[p], t=s["t"], arr=arr,
                                slack=0, what="message %d of %s" % (s["tag"], s["port"])))
            self.second = [(x, node[(x["rad"], x["port"])], portal.get(x["rad"])) for x in ax.rcvd
                           for s in [next((s for s in ax.sent if s["tag"] == x["tag"]), None)] if s and s["rad"] != s["drad"]]
        else:
            self.second = []
            x = aximm.Mm(plan, h)
            T = dict(AR=0, AW=1, W=2, R=3, B=4)
            got = collections.defaultdict(list)
            for g in x.got:
                got[(g["ch"], x.op_of(g["u"]), x.beat_of(g["u"]) if g["ch"] == "W" else 0)].append(g)
            for q in x.req:
                p, tg = (0, q["port"]), (0, x.ops[q["op"]]["tgt"])
                g = got.get((q["ch"], q["op"], q["beat"]))
                out.append(dict(rad=0, noc=noc[p], src=node[p], dest=node[tg], dataw=width[p], type=T[q["ch"]], t=q["t"],
                                arr=g[0]["t"] if g else None, slack=per[(0, tg[1].split(".")[0])],
                                what="%s of operation %d beat %d" % (q["ch"], q["op"], q["beat"])))
            back = collections.defaultdict(list)
            for g in x.back:
                back[(g["port"], g["ch"], g["h"])].append(g)
            for q in x.rsp:
                p, tg = (0, q["port"]), (0, x.uid.get((q["u"] >> 24) & 0xff))
                b = back.get((tg[1], q["ch"], q["h"]))
                g = b.pop(0) if b else None
                out.append(dict(rad=0, noc=noc[p], src=node[p], dest=node.get(tg, -1), dataw=width[p], type=T[q["ch"]], t=q["t"],
                                arr=g["t"] if g else None, slack=per.get((0, (tg[1] or "").split(".")[0]), 0),
                                what="%s response of operation %d" % (q["ch"], x.op_of(q["u"]))))
        return out

    def records(self, h):
        text = h.files.get("stats.csv")
        if text is None:
            return None, [("report", "no statistics file was written")]
        rows = [l for l in text.split("\n") if l.strip()]
        if not rows or [c.strip() for c in rows[0].split(",")] != COLS:
            return None, [("report", "unexpected header of the statistics file: %s" % rows[:1])]
        out, v = [], []
        for l in rows[1:]:
            w = [float(c) for c in l.split(",")]
            if len(w) != len(COLS):
                v.append(("report", "bad row %r" % l))
                continue
            out.append(dict(zip(COLS, w)))
        return out, v

    def check(self, plan, h):
        v = crashed(h)
        if h.end not in ("done", "quiet", "max"):
            return v
        m = plan["meta"]
        recs, bad = self.records(h)
        v += bad
        if recs is None:
            return v
        want = self.wanted(plan, h)
        types = {int(l[1]): int(l[2]) for l in h.kind("G")}
        rads = {int(l[1]): int(l[3]) for l in h.kind("G")}
        ids = collections.Counter(int(x["id"]) for x in recs)
        for i, n in ids.items():
            if n > 1:
                v.append(("duplicate", "%d records of transaction %d" % (n, i)))
        key = lambda i, noc, src, t: (rads.get(int(i)), int(noc), int(src), int(round(t * 1000)))
        pool = collections.defaultdict(list)
        for x in recs:
            pool[key(x["id"], x["noc_id"], x["src"], x["t_init"])].append(x)
        used = set()
        done = 0
        for w in want:
            c = pool.get((w["rad"], w["noc"], w["src"], w["t"]), [])
            c = [x for x in c if id(x) not in used]
            if not c:
                v.append(("missing", "%s (network %d, node %d, %d ps) has no record" % (w["what"], w["noc"], w["src"], w["t"])))
                continue
            x = c[0]
            used.add(id(x))
            if int(x["dest"]) != w["dest"]:
                v.append(("wrong", "%s goes to node %d, recorded is node %d" % (w["what"], w["dest"], x["dest"])))
                continue
            if int(x["dataw"]) != w["dataw"]:
                v.append(("wrong", "%s is %d bits wide, recorded are %d" % (w["what"], w["dataw"], x["dataw"])))
            if types.get(int(x["id"])) != w["type"]:
                v.append(("wrong", "%s is of type %d, recorded is %s" % (w["what"], w["type"], types.get(int(x["id"])))))
            if w["arr"] is None or w["arr"] < 0:
                continue
            done += 1
            tr = x["t_receive"] * 1000
            lo = w["arr"] - w["slack"] * 1000 - 2
            if not lo <= tr <= w["arr"] + 2:
                v.append(("wrong", "%s arrived at %d ps, recorded are %d ps" % (w["what"], w["arr"], tr)))
            n = routers(m["info"][w["noc"]], w["src"], w["dest"])
            if n and not n[0] <= x["hops"] <= n[1]:
                v.append(("hops", "%s crosses %d routers, recorded are %d" % (w["what"], n[0], x["hops"])))
        self.done = done
        # what the portals sent on, and nothing else
        rest = [x for x in recs if id(x) not in used]
        if m["kind"] == "multi":
            byarr = collections.defaultdict(list)
            for x in rest:
                byarr[(rads.get(int(x["id"])), int(x["dest"]), int(round(x["t_receive"] * 1000)))].append(x)
            for x, dst, src in self.second:
                c = [y for y in byarr.get((x["rad"], dst, x["t"]), []) if int(y["src"]) == src and id(y) not in used]
                if not c:
                    v.append(("missing", "message %d came from portal node %d to node %d of device %d at %d ps without a record" % (
                        x["tag"], src, dst, x["rad"], x["t"])))
                else:
                    used.add(id(c[0]))
                    done += 1
            rest = [x for x in rest if id(x) not in used]
            if not m["cut"]:
                rest = [x for x in rest if x["t_receive"] > 0]
            else:
                rest = []
        for x in rest[:3]:
            v.append(("invented", "record %d (network %d, node %d to %d, %g ns) belongs to no hand-over" % (
                x["id"], x["noc_id"], x["src"], x["dest"], x["t_init"])))
        # causality inside each record
        for x in recs:
            T = {c[2:]: x[c] for c in COLS if c.startswith("t_")}
            # the head may leave before the tail is packetised; a memory-mapped adapter hands all flits over at once and
            # then stays busy for the time of its packetisation
            for a, b in (("init", "packet"), ("init", "inject"), ("init" if m["kind"] == "mm" else "packet", "eject"), ("inject", "eject"), ("eject", "depacket"),
                         ("depacket", "receive")):
                if T[b] > 0 and (T[a] > T[b] + EPS or T[a] <= 0):
                    v.append(("causality", "record %d: %s at %g ns, %s at %g ns" % (x["id"], a, T[a], b, T[b])))
            if T["receive"] > 0 and abs(x["latency"] - (x["t_receive"] - x["t_init"])) > EPS:
                v.append(("latency", "record %d: %g ns from %g to %g" % (x["id"], x["latency"], x["t_init"], x["t_receive"])))
        return v + self.flows(plan, h, recs, want)

    def flows(self, plan, h, recs, want):
        """Aggregates per device and network against the records."""
        m, v = plan["meta"], []
        drv = plan["cfg"]["cluster"]["sim_driver_period"] * 1e-9
        names = collections.defaultdict(set)
        for f, text in plan["files"].items():
            g = re.search(r"r(\d+)\.place$", f)
            if g:
                for l in text.split("\n"):
                    w = l.split()
                    if w:
                        names[(int(g.group(1)), int(w[1]), int(w[2]))].add(w[0].split(".")[0])
        agg = {(int(l[1]), int(l[2])): float(l[3]) for l in h.kind("F")}
        if m["kind"] == "multi":
            exp = collections.Counter()
            for w in want:
                exp[(w["rad"], w["noc"], w["src"], w["dest"])] += w["dataw"]
            full = False
        else:
            exp = collections.Counter()
            for x in recs:
                exp[(0, int(x["noc_id"]), int(x["src"]), int(x["dest"]))] += int(x["dataw"])
            full = True
        rads = len({int(l[1]) for l in h.kind("F")})
        for d in range(rads):
            for n in range(m["nocs"]):
                text = h.files.get("flows_r%d_noc%d.xml" % (d, n))
                if text is None:
                    v.append(("report", "no traffic-flow file of device %d network %d" % (d, n)))
                    continue
                seen = collections.Counter()
                for g in re.finditer(r'src="\.\*noc_router_(\S+?)\.\*" dst="\.\*noc_router_(\S+?)\.\*" bandwidth="([^"]+)"', text):
                    seen[(g.group(1), g.group(2))] += float(g.group(3))
                e, unknown = collections.Counter(), False
                for (rd, nc, s, t), bits in exp.items():
                    if (rd, nc) == (d, n):
                        a, b = names.get((d, n, s)), names.get((d, n, t))
                        if not a or not b:
                            unknown = True
                            continue
                        e[(min(a), min(b))] += bits / (m["cycles"] * drv)
                for k in sorted(set(e) | set(seen)):
                    portal = any(x.startswith("portal") for x in k[:1])
                    if not full and portal:
                        continue     # sent by the portal itself
                    if not close(e[k], seen[k], 1e-4):
                        v.append(("flows", "device %d network %d: flow %s to %s is reported with %g bits/s, the records give %g" % (
                            d, n, k[0], k[1], seen[k], e[k])))
                if full and not unknown:
                    hops = {}
                    for x in recs:
                        if int(x["noc_id"]) == n and x["hops"] > 0:
                            hops[(int(x["src"]), int(x["dest"]))] = x["hops"] - 1
                    tot = sum(bits / (m["cycles"] * drv) * hops.get((s, t), 0) for (rd, nc, s, t), bits in exp.items() if nc == n)
                    if not close(tot, agg.get((d, n), -1), 1e-4):
                        v.append(("aggregate", "network %d: the reported bandwidth over all hops is %g, the records give %g" % (
                            n, agg.get((d, n), -1), tot)))
        return v

    def stats(self, plan, h):
        c = base_counters(h)
        recs, _ = self.records(h)
        n = len(recs or [])
        done = sum(1 for x in recs or [] if x["t_receive"] > 0)
        c["records_checked"] += n
        c["records_completed"] += done
        c["runs_cut_off"] += bool(plan["meta"]["cut"])
        return c, sched_sig(h), done > 0, h.sim_ps * 1e-12


FCOLS = "t_trace, link_src_router, link_dest_router, flit_id, flit_type, is_channel_output"


class P27(P18):
    id = "P27"
    real = ["NoCFlitTelemetry, FlitChannel::Trace, SimTraceRecording, GetSimulationCycle"] + P18.real
    nontrivial = ("one run = one random system (one or two networks, streaming or memory-mapped, or several devices with a link) run to its end "
                  "or cut off in the middle, whose flit and event traces are compared with the records, the routes and the hand-overs; "
                  "non-trivial when flits that crossed at least one link between routers were followed")

    def gen(self, r, tier):
        p = super().gen(r, tier)
        p["cfg"]["cluster"]["telemetry_traces"] = ["sent", "received"]
        p["head"] = [l for l in p["head"] if not l.startswith("flows")] + ["ftrace flits.csv", "etrace events.txt"]
        p["collect"] = ["stats.csv", "flits.csv", "events.txt"]
        return p

    def rows(self, h):
        t = h.files.get("flits.csv")
        if t is None:
            return None, [("report", "no flit trace was written")]
        l = t.split("\n")
        if l[0].strip() != FCOLS:
            return None, [("report", "unexpected header of the flit trace: %r" % l[0])]
        out, v = [], []
        for x in l[1:]:
            if x:
                w = x.split(",")
                try:
                    t = float(w[0]) * 1000
                    if abs(t - round(t)) > 0.1:
                        v.append(("time", "row %r is not at a whole picosecond" % x))
                    out.append((int(round(t)),) + tuple(int(c) for c in w[1:6]))
                except (ValueError, IndexError):
                    return None, [("report", "bad row %r" % x)]
        return out, v

    def check(self, plan, h):
        v = crashed(h)
        if h.end not in ("done", "quiet", "max"):
            return v
        m = plan["meta"]
        recs, bad = self.records(h)
        rows, bad2 = self.rows(h)
        v += bad + bad2
        if recs is None or rows is None:
            return v
        rec = {int(x["id"]): x for x in recs}
        types = {int(l[1]): int(l[2]) for l in h.kind("G")}
        rads = {int(l[1]): int(l[3]) for l in h.kind("G")}
        per = lambda i: int(round(m["info"][int(rec[i]["noc_id"])]["per"] * 1000))
        ways = collections.defaultdict(lambda: collections.defaultdict(list))
        waits = collections.defaultdict(list)
        once = set()
        for t, a, b, i, ty, o in rows:
            if i not in rec:
                v.append(("invented", "flits of unknown transaction %d between routers %d and %d" % (i, a, b)))
                continue
            if types.get(i) != ty:
                v.append(("wrong", "a flit of transaction %d of type %s is traced as type %d" % (i, types.get(i), ty)))
            if t % per(i):
                v.append(("time", "a flit of transaction %d is traced at %d ps, between cycles of %d ps" % (i, t, per(i))))
            if o:
                k = (rads[i], int(rec[i]["noc_id"]), a, b, t)
                # terminals of one router share the name -1
                if a >= 0 and b >= 0 and k in once and m["info"][k[1]]["topo"] != "torus":
                    v.append(("wrong", "two flits leave the link from router %d to %d at %d ps" % (a, b, t)))
                once.add(k)
                ways[i][(a, b)].append(t)
            else:
                waits[(i, a, b)].append(t)
            if len(v) > 8:
                return v
        size = {}
        for i, x in rec.items():
            w = dict(ways.get(i, {}))
            net = m["info"][int(x["noc_id"])]
            full = x["t_receive"] > 0
            if not w:
                if full:
                    v.append(("missing", "transaction %d was received, but none of its flits is in the trace" % i))
                continue
            at, prev, n, path = -1, None, None, []
            while w:
                nxt = [k for k in w if k[0] == at]
                if len(nxt) != 1:
                    v.append(("route", "transaction %d: links %s follow router %d in the trace" % (i, sorted(nxt), at)))
                    break
                ts = w.pop(nxt[0])
                path.append(nxt[0])
                if ts != sorted(set(ts)):
                    v.append(("time", "transaction %d: flits leave link %s at %s" % (i, nxt[0], ts[:6])))
                if prev is not None:
                    if len(ts) > len(prev) or full and len(ts) != len(prev):
                        v.append(("missing", "transaction %d: %d flits leave the link to router %d, %d the next one" % (i, len(prev), at, len(ts))))
                    if any(b <= a for a, b in zip(prev, ts)):
                        v.append(("time", "transaction %d: flits leave link %s at %s, the one before at %s" % (i, nxt[0], ts[:6], prev[:6])))
                prev, at = ts, nxt[0][1]
                if at == -1:
                    if w:
                        v.append(("route", "transaction %d: links %s are beyond its destination" % (i, sorted(w))))
                    break
            if v:
                return v[:8]
            if full:
                if at != -1:
                    v.append(("route", "transaction %d was received, its trace ends at router %d" % (i, at)))
                    continue
                if len(path) - 1 != x["hops"]:
                    v.append(("route", "transaction %d crosses %d routers in the trace, its record says %d" % (i, len(path) - 1, x["hops"])))
                if net["topo"] in ("mesh", "torus") and (path[0][1], path[-1][0]) != (x["src"], x["dest"]):
                    v.append(("route", "transaction %d from node %d to %d: the trace enters router %d and leaves router %d" % (
                        i, x["src"], x["dest"], path[0][1], path[-1][0])))
                if prev[-1] > x["t_eject"] * 1000 + 2:
                    v.append(("time", "transaction %d is ejected at %g ns, its last flit leaves the network at %d ps" % (i, x["t_eject"], prev[-1])))
                k = (rads[i], int(x["dataw"]), types[i])
                if size.setdefault(k, len(prev)) != len(prev):
                    v.append(("missing", "transaction %d has %d flits, others of its kind have %d" % (i, len(prev), size[k])))
                for l in path:
                    z = waits.get((i,) + l, [])
                    if len(z) % len(prev):
                        v.append(("wrong", "transaction %d: %d waiting rows of %d flits on link %s" % (i, len(z), len(prev), l)))
            first = ways[i][path[0]][0]
            if x["t_inject"] <= 0 or first < x["t_inject"] * 1000 - 2:
                v.append(("time", "transaction %d is injected at %g ns, its first flit enters at %d ps" % (i, x["t_inject"], first)))
            if len(v) > 8:
                return v
        self.links = sum(1 for w in ways.values() for a, b in w if a >= 0 and b >= 0)
        # events
        drv = plan["cfg"]["cluster"]["sim_driver_period"]
        t = (h.files.get("events.txt") or "").split("\n")
        if len(t) < 2:
            return v + [("report", "no event trace was written")]
        for line, kind, name in ((t[0], "S", "sent"), (t[1], "R", "received")):
            got = [int(c) for c in line.split()]
            ps = [int(l[1]) for l in h.kind(kind)]
            if len(got) != len(ps):
                v.append(("events", "%d %s events, %d in the trace" % (len(ps), name, len(got))))
            else:
                for c, x in zip(got, ps):
                    y = x / (drv * 1000)
                    if not y - 1e-6 <= c < y + 1 + 1e-6:
                        v.append(("events", "a %s event at %d ps (cycle %.3f) is recorded in cycle %d" % (name, x, y, c)))
                        break
        return v

    def stats(self, plan, h):
        c = base_counters(h)
        rows, _ = self.rows(h)
        links = sum(1 for r in rows or [] if r[1] >= 0 and r[2] >= 0)
        c["flit_rows_checked"] += len(rows or [])
        c["flit_rows_between_routers"] += links
        c["runs_cut_off"] += bool(plan["meta"]["cut"])
        return c, sched_sig(h), links > 0, h.sim_ps * 1e-12


PROPS = [P18(), P27()]
