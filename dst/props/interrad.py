"""P15..P17: the link between devices and messages across it."""
import bisect, collections
from dst import core, gen
from dst.props.common import *
from dst.props.axis import REAL as AREAL

FULL = "WRITE FIFO FULL"


def reports(h):
    return sum(1 for l in h.out.split("\n") if FULL in l)


class Link:
    """Hand-overs at the link's own ports, in link clock cycles."""

    def __init__(self, plan, h):
        self.per = plan["meta"]["drv"] * 1000
        self.acc, self.rcv = [], []
        for l in h.lines:
            if l[0] == "S":
                self.acc.append(dict(t=int(l[1]), src=int(l[2]), tag=int(l[4]), h=l[5], dst=int(l[6]), dest=l[7]))
            elif l[0] == "R":
                self.rcv.append(dict(t=int(l[1]), dst=int(l[2]), tag=int(l[4]), h=l[5], td=int(l[7], 16)))
        self.by = {a["tag"]: a for a in self.acc}
        self.got = collections.defaultdict(list)
        for x in self.rcv:
            self.got[x["tag"]].append(x)

    def cyc(self, t):
        return int(round(t / self.per))


class LinkProp(core.Prop):
    bins = ["sys_b"]
    quick_n = 2500
    real = ["RADSimInterRad", "RADSimCluster", "config.py (latency, bandwidth, buffer knobs)", "SystemC kernel"]
    stub = ["portals and devices (one plan-driven sender and receiver per device on the link's clock)",
            "order of coincident clock edges (seeded scheduler)"]
    assumptions = ["receivers on the link always accept, as the portals do", "the share of bandwidth is at least 0.001 of a message per cycle"]
    nontrivial = ("one run = a link of 2 to 6 devices with random latency, bandwidth, buffer depth and clock, random, bursty, converging or "
                  "sparse traffic and pauses of senders; non-trivial when messages were delivered and several devices or a throttled or full "
                  "buffer were involved")

    def stats(self, plan, h):
        c = base_counters(h)
        k = Link(plan, h)
        c["messages_accepted"] += len(k.acc)
        c["messages_delivered"] += len(k.rcv)
        c["buffer_overflows"] += reports(h)
        return c, sched_sig(h), bool(k.rcv) and (c["axis_sender_wait_cycles"] + reports(h) > 0 or plan["meta"]["rads"] > 1), h.sim_ps * 1e-12


class P15(LinkProp):
    id = "P15"

    def gen(self, r, tier):
        return gen.link_system(r).plan()

    def check(self, plan, h):
        v = crashed(h)
        k = Link(plan, h)
        pos, cnt = {}, collections.Counter()
        for a in k.acc:
            f = (a["src"], a["dst"])
            pos[a["tag"]] = (f, cnt[f])
            cnt[f] += 1
        last = {}
        for x in k.rcv:
            a = k.by.get(x["tag"])
            if a is None:
                v.append(("invented", "%d ps: device %d received message %d that nobody sent" % (x["t"], x["dst"], x["tag"])))
                continue
            if x["dst"] != a["dst"]:
                v.append(("misdelivered", "message %d for device %d arrived at device %d" % (x["tag"], a["dst"], x["dst"])))
                continue
            if x["h"] != a["h"]:
                v.append(("corrupted", "message %d from device %d to %d changed on the link" % (x["tag"], a["src"], a["dst"])))
            w = a["dest"].split(":")
            fw = 4
            local, rad = x["td"] & ((1 << fw) - 1), (x["td"] >> (2 * fw)) & ((1 << fw) - 1)
            if local != int(w[2]) or rad != a["dst"]:
                v.append(("corrupted", "message %d for node %s of device %d arrived with node %d of device %d" % (
                    x["tag"], w[2], a["dst"], local, rad)))
            f, p = pos[x["tag"]]
            if p < last.get(f, -1):
                v.append(("reordered", "device %d to %d: message %d overtaken" % (f[0], f[1], x["tag"])))
            last[f] = max(last.get(f, -1), p)
        for tag, xs in k.got.items():
            if len(xs) > 1:
                v.append(("duplicated", "message %d delivered %d times" % (tag, len(xs))))
        if h.end in ("done", "quiet"):
            lost = [a for a in k.acc if a["tag"] not in k.got]
            rep = reports(h)
            if rep != len(lost):
                v.append(("loss-report", "%d messages were lost, %d losses were reported" % (len(lost), rep)))
            slots = plan["meta"]["slots"]
            arr = collections.defaultdict(list)
            for x in k.rcv:
                arr[x["dst"]].append(x["t"])
            kept = collections.Counter()
            for a in sorted(k.acc, key=lambda a: (a["t"], a["src"])):
                occ = kept[a["dst"]] - bisect.bisect_right(arr[a["dst"]], a["t"])
                if a["tag"] in k.got:
                    kept[a["dst"]] += 1
                    if occ >= slots:
                        v.append(("capacity", "%d ps: the buffer of device %d holds %d messages, configured are %d" % (a["t"], a["dst"], occ + 1, slots)))
                elif occ < slots:
                    v.append(("lost", "%d ps: message %d from device %d to %d was lost although its buffer held %d of %d messages" % (
                        a["t"], a["tag"], a["src"], a["dst"], occ, slots)))
        elif h.end == "max":
            v.append(("slow", "not finished within the bound"))
        return v


class P16(LinkProp):
    id = "P16"
    quick_n = 1500

    def gen(self, r, tier):
        return gen.link_system(r, saturate=r.random() < 0.4, nmsg=(20, 250)).plan()

    def check(self, plan, h):
        v = crashed(h)
        k = Link(plan, h)
        m = plan["meta"]
        drv = m["drv"]
        lat_c = max(1, -int(-(m["lat"] / drv) // 1))
        prev = {}
        order = collections.defaultdict(list)
        for x in k.rcv:
            if x["tag"] in k.by:
                order[x["dst"]].append(x)
        for d, xs in order.items():
            free = -1
            for x in xs:
                a = k.by[x["tag"]]
                dt = x["t"] - a["t"]
                if dt < m["lat"] * 1000 - 2:
                    v.append(("fast", "message %d crossed in %d ps, the configured latency is %g ns" % (x["tag"], dt, m["lat"])))
                ca, cx = k.cyc(a["t"]), k.cyc(x["t"])
                latest = max(ca + lat_c + 2, free + 1)
                if cx > latest:
                    v.append(("late", "message %d crossed in %d cycles, %d are configured and nothing was in its way" % (x["tag"], cx - ca, lat_c)))
                free = cx
        # bandwidth in any 1000 cycles, per device
        share = min(1.0, m["bw"] * drv / m["width"])
        allow = max(1, int(round(share * 1000)))
        sent = collections.defaultdict(list)
        for a in k.acc:
            sent[a["src"]].append(k.cyc(a["t"]))
        for s, ts in sorted(sent.items()):
            j = 0
            for i, t in enumerate(ts):
                while ts[j] <= t - 1000:
                    j += 1
                if i - j + 1 > allow + 1:
                    v.append(("bandwidth", "device %d sent %d messages within 1000 cycles, its share allows %d" % (s, i - j + 1, allow)))
                    break
            if m["saturate"] and h.end in ("done", "quiet", "max") and ts:
                span = ts[-1] - ts[0]
                for w in range(span // 1000):
                    lo = ts[0] + w * 1000
                    n = bisect.bisect_left(ts, lo + 1000) - bisect.bisect_left(ts, lo)
                    if n < allow - 1:
                        v.append(("throttled", "device %d always had messages to send and got %d across in 1000 cycles, its share is %d" % (s, n, allow)))
                        break
        return v

    def stats(self, plan, h):
        c, s, nt, ss = super().stats(plan, h)
        c["saturating_runs"] += plan["meta"]["saturate"]
        return c, s, nt, ss


class P17(core.Prop):
    id = "P17"
    quick_n = 1200
    bins = ["sys_b"]
    real = AREAL + ["portal", "RADSimInterRad", "RADSimCluster", "RADSimDesignTop"]
    stub = ["user modules (plan-driven streaming senders and receivers)", "order of coincident clock edges (seeded scheduler)"]
    assumptions = ["the portal runs at the link's clock (sim_driver_period), as in the shipped two-device design",
                   "one virtual channel per packet type (several: known finding KF1)",
                   "ports that receive from other devices have the full streaming width (narrower: known finding KF3)"]
    nontrivial = ("one run = two or three devices with their own clocks and placement, one network configuration, portals and link "
                  "(latency, share, buffer depth), local and remote messages and receiver stalls; non-trivial when remote messages arrived")

    def gen(self, r, tier):
        return gen.multirad_system(r, narrow=r.random() < 0.04).plan()

    def check(self, plan, h):
        v = crashed(h)
        ax = Axis(plan, h)
        bad = ax.delivery(h.end in ("done", "quiet")) + ax.order()
        rep = reports(h)
        remote = {s["tag"] for s in ax.sent if s["rad"] != s["drad"]}
        lost = [x for x in bad if x[0] == "lost"]
        if rep:
            rl = [x for x in lost if int(x[1].split()[1]) in remote]
            if len(rl) <= rep:
                bad = [x for x in bad if x not in rl]
            else:
                bad.append(("loss-report", "%d remote messages were lost, %d losses were reported" % (len(rl), rep)))
        if h.end == "max":
            bad.append(("slow", "not finished within the bound"))
        if h.end == "quiet":
            stuck, miss = ax.undone()
            for s in stuck[:2]:
                bad.append(("stuck", "%s of device %d still offers message %d to %s of device %d" % (s["port"], s["rad"], s["tag"], s["dport"], s["drad"])))
        if plan["meta"]["narrow"]:
            bad = [("narrow-remote" if k == "duplicated" else k, t) for k, t in bad]
        return v + bad

    def stats(self, plan, h):
        ax = Axis(plan, h)
        c = axis_counters(h, ax)
        rem = {s["tag"] for s in ax.sent if s["rad"] != s["drad"]}
        c["remote_messages_delivered"] += sum(1 for x in ax.rcvd if x["tag"] in rem)
        c["link_overflows"] += reports(h)
        c["stall_windows_planned"] += sum(1 for e in plan["evts"] if e.startswith(("stall", "duty")))
        return c, sched_sig(h), c["remote_messages_delivered"] > 0, h.sim_ps * 1e-12


PROPS = [P15(), P16(), P17()]
