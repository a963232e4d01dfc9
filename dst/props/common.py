"""Oracle pieces shared by the properties."""
import collections, hashlib

CRASH = ("exit", "crash", "died", "hang", None)


def crashed(h):
    """The simulation itself ended abnormally on a legal system."""
    if h.end in CRASH:
        tail = " | ".join(l.strip()[:160] for l in h.out.strip().split("\n")[-3:])
        return [("crash", "simulation ended with %s (%s)" % (h.end, tail))]
    return []


def base_counters(h):
    c = collections.Counter(h.counters)
    z = h.sched
    if z:
        c["coincident_edge_groups"] += int(z[1])
        c["coincident_edge_groups_permuted"] += int(z[2])
    return c


def sched_sig(h):
    z = h.sched
    return (z[3] if z else "") + ":" + h.sha[:12]


class Axis:
    """Streaming hand-overs of a history."""

    def __init__(self, plan, h):
        self.sent, self.rcvd = [], []
        for l in h.lines:
            if l[0] == "S":
                self.sent.append(dict(t=int(l[1]), rad=int(l[2]), port=l[3], tag=int(l[4]), h=l[5],
                                      drad=int(l[6]), dport=l[7]))
            elif l[0] == "R":
                self.rcvd.append(dict(t=int(l[1]), rad=int(l[2]), port=l[3], tag=int(l[4]), h=l[5],
                                      tid=int(l[6], 16), dest=int(l[7], 16)))
        self.nodes = {}
        for l in h.lines:
            if l[0] == "N":
                self.nodes[(int(l[1]), l[2])] = (int(l[3]), int(l[4]))
        self.planned = []
        for e in plan["evts"]:
            w = e.split()
            if w[0] == "beat":
                self.planned.append(dict(rad=int(w[1]), port=w[2], t=int(w[3]), drad=int(w[4]), dport=w[5],
                                         tag=int(w[6])))

    def delivery(self, finished):
        """Exactly once, intact, at the addressee."""
        out = []
        by = {}
        for s in self.sent:
            by[s["tag"]] = s
        seen = {}
        for r in self.rcvd:
            s = by.get(r["tag"])
            if s is None:
                out.append(("invented", "%d ps: port %s received tag %d that nobody sent" % (r["t"], r["port"], r["tag"])))
                continue
            if (s["drad"], s["dport"]) != (r["rad"], r["port"]):
                out.append(("misdelivered", "message %d from %s to %s arrived at rad%d %s" % (
                    r["tag"], s["port"], s["dport"], r["rad"], r["port"])))
                continue
            if r["t"] <= s["t"]:
                out.append(("invented", "message %d arrived before it was sent" % r["tag"]))
            if s["h"] != r["h"]:
                out.append(("corrupted", "message %d from %s to %s changed on the way" % (r["tag"], s["port"], r["port"])))
            if r["tag"] in seen:
                out.append(("duplicated", "message %d from %s to %s delivered again at %d ps" % (
                    r["tag"], s["port"], r["port"], r["t"])))
            seen[r["tag"]] = r
        if finished:
            for s in self.sent:
                if s["tag"] not in seen:
                    out.append(("lost", "message %d sent by %s to %s at %d ps was never delivered" % (
                        s["tag"], s["port"], s["dport"], s["t"])))
        return out

    def order(self):
        out = []
        pos = {}
        cnt = collections.Counter()
        for s in self.sent:
            k = (s["rad"], s["port"], s["drad"], s["dport"])
            pos[s["tag"]] = (k, cnt[k])
            cnt[k] += 1
        lastp = {}
        for r in self.rcvd:
            if r["tag"] not in pos:
                continue
            k, p = pos[r["tag"]]
            if p < lastp.get(k, (-1, 0))[0]:
                out.append(("reordered", "flow %s -> %s: message %d (number %d of the flow) delivered after message %d (number %d)" % (
                    k[1], k[3], r["tag"], p, lastp[k][1], lastp[k][0])))
            lastp[k] = max(lastp.get(k, (-1, 0)), (p, r["tag"]))
        return out

    def undone(self):
        sent = {s["tag"] for s in self.sent}
        got = {r["tag"] for r in self.rcvd}
        stuck = [p for p in self.planned if p["tag"] not in sent]
        miss = [s for s in self.sent if s["tag"] not in got]
        return stuck, miss


def axis_counters(h, ax):
    c = base_counters(h)
    c["messages_sent"] += len(ax.sent)
    c["messages_delivered"] += len(ax.rcvd)
    return c
