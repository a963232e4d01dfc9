"""Command line:
  python3 -m dst.main check P01 [--tier quick|thorough] [--n N] [--secs S]
  python3 -m dst.main replay FILE
  python3 -m dst.main determinism [P01 ...] [--n N]
  python3 -m dst.main build
Exit 0: held on everything explored; 1: violation (with a VIOLATION line);
2: the check itself could not decide (build failure, a violation that does not
replay, ...)."""
import argparse, collections, json, os, sys, time, traceback

from dst import build as bld
from dst import core

REPLAYS = os.path.join(bld.VERIF, "replays")


def registry():
    from dst import props
    return props.all_props()


def seed_of():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def tree_id():
    import hashlib
    h = hashlib.sha256()
    for d, dn, fn in sorted(os.walk(os.path.join(bld.RADSIM, "sim"))):
        for f in sorted(fn):
            if f.endswith((".cpp", ".hpp", ".cc", ".h", ".c")):
                try:
                    h.update(open(os.path.join(d, f), "rb").read())
                except OSError:
                    pass
    return h.hexdigest()[:16]


def confirm(prop, plan, kind, times=2):
    """Gate: the same plan in fresh processes gives the same history and the
    same violation."""
    shas = set()
    msg = None
    for _ in range(times):
        h = prop.execute(plan)
        v = [m for k, m in core.violations(prop, plan, h) if k == kind]
        if not v:
            return None, None
        msg = v[0]
        shas.add(h.sha)
    if len(shas) != 1:
        return None, None
    return shas.pop(), msg


def write_replay(prop, plan, kind, msg, sha, base, idx):
    os.makedirs(REPLAYS, exist_ok=True)
    p = os.path.join(REPLAYS, "%s-s%d-i%d.json" % (prop.id, base, idx))
    with open(p, "w") as f:
        json.dump(dict(property=prop.id, kind=kind, message=msg, history_sha=sha, base_seed=base, index=idx,
                       tree=tree_id(), plan=plan), f, indent=1)
    return p


def match_known(prop, kind, msg):
    for k in core.known_findings():
        if k.get("property") == prop.id and k.get("kind") == kind and k.get("match", "") in msg:
            return k
    return None


def cmd_check(a):
    t0 = time.time()
    base = seed_of() if a.seed is None else a.seed
    prop = registry()[a.property]
    bld.build(prop.bins)
    t_build = time.time() - t0
    n = a.n or (2 * prop.quick_n if a.tier == "quick" else 10 ** 7)
    cap = a.secs or (prop.quick_s if a.tier == "quick" else prop.thorough_s)
    ev = dict(property=prop.id, tier=a.tier, seed=base, level="exploration")
    cnt = collections.Counter()
    ends = collections.Counter()
    sigs, shas = set(), set()
    samples = []
    runs = nontriv = 0
    sim_s = 0.0
    errs = []
    found = []       # (idx, kind, msg, plan)
    known = {}
    unconfirmed = []
    t1 = time.time()
    rerun = {}
    for r in core.search(prop, base, a.tier, n, cap):
        if "err" in r:
            errs.append((r["idx"], r["err"]))
            if len(errs) > 5:
                break
            continue
        runs += 1
        c, sig, nt, ss = r["st"]
        for k, v in c.items():
            cnt[k] += v
        sim_s += ss
        if nt:
            nontriv += 1
            sigs.add(sig)
        shas.add(r["sha"])
        if r["idx"] < 4:
            rerun[r["idx"]] = r["sha"]
        if len(samples) < 3 and nt:
            samples.append(dict(index=r["idx"], history_sha=r["sha"], counters=c))
        bad = False
        for kind, msg in r["v"]:
            k = match_known(prop, kind, msg)
            if k:
                known.setdefault(k["id"], [k, 0])[1] += 1
                continue
            found.append((r["idx"], kind, msg, r["plan"]))
            bad = True
        if bad:
            break
    search_s = time.time() - t1
    # reproducibility gate on a sample of the runs
    same = diff = 0
    for idx, sha in sorted(rerun.items()):
        try:
            plan = prop.gen(core.rng_of(base, prop.id, idx), a.tier)
            plan["origin"] = {"property": prop.id, "base_seed": base, "index": idx}
            if prop.execute(plan).sha == sha:
                same += 1
            else:
                diff += 1
        except Exception as e:
            errs.append((idx, "rerun: %r" % e))
    verdict = 0
    viol_line = None
    if found:
        verdict = 2
        for idx, kind, msg, plan in found[:3]:
            sha, m = confirm(prop, plan, kind)
            if not sha:
                unconfirmed.append((idx, kind, msg))
                continue
            small = core.minimise(prop, plan, kind, 30 if a.tier == "quick" else 120)
            s2, m2 = confirm(prop, small, kind, 2)
            if s2:
                plan, sha, m = small, s2, m2
            p = write_replay(prop, plan, kind, m, sha, base, idx)
            print("seed %d index %d: %s: %s" % (base, idx, kind, m))
            print("minimised to %d events, history %s" % (len(plan.get("evts", [])), sha))
            viol_line = "VIOLATION property=%s replay=%s" % (prop.id, p)
            verdict = 1
            break
    elif errs or runs == 0:
        verdict = 2
    ev["coverage"] = dict(
        evaluations=runs, distinct_nontrivial=len(sigs), rule=prop.nontrivial, samples=samples or [{"none": True}],
        nontrivial_runs=nontriv, distinct_histories=len(shas), interleaving_measure=prop.sig_rule,
        simulated_seconds=sim_s, runs_per_hour=int(runs / max(search_s, 1e-9) * 3600),
        seeds_per_hour=int(runs / max(search_s, 1e-9) * 3600), faults_and_workload=dict(sorted(cnt.items())),
        real_components=prop.real, stubs=prop.stub, replay_same_history=same, replay_different_history=diff,
        known_findings_hit={k: v[1] for k, v in known.items()}, build_s=round(t_build, 1),
        search_s=round(search_s, 1), unconfirmed=len(unconfirmed))
    ev["assumptions"] = prop.assumptions
    ev["violations"] = 1 if verdict == 1 else 0
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(bld.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(bld.VERIF, "evidence", prop.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in core.known_findings():
        if k.get("property") == prop.id:
            print("KNOWN-FINDING: property=%s %s" % (prop.id, k["text"]))
    print("%s %s seed=%d runs=%d distinct=%d sim=%.3gs wall=%.1fs (build %.1fs) counters=%s" % (
        prop.id, a.tier, base, runs, len(sigs), sim_s, time.time() - t0, t_build, dict(cnt)))
    for i, e in errs[:3]:
        print("ERROR index %s: %s" % (i, e))
    for u in unconfirmed:
        print("UNCONFIRMED (does not replay) index %d %s: %s" % u)
    if viol_line:
        print(viol_line)
    return verdict


def cmd_replay(a):
    d = json.load(open(a.file))
    prop = registry()[d["property"]]
    bld.build(prop.bins)
    plan = d["plan"]
    h = prop.execute(plan)
    v = core.violations(prop, plan, h)
    for k, m in v:
        print("%s: %s" % (k, m))
    print("history %s (recorded %s)%s" % (h.sha, d["history_sha"], "" if h.sha == d["history_sha"] else "  DIFFERENT"))
    if a.dump:
        for l in h.lines:
            print(" ".join(l))
        print(h.out[-3000:])
    if any(k == d["kind"] for k, _ in v):
        print("VIOLATION property=%s replay=%s" % (prop.id, a.file))
        return 1
    return 0


def cmd_determinism(a):
    """Every seed several times: different worker counts, with and without
    address-space randomisation, other environment; histories must be equal."""
    bad = 0
    total = 0
    reg = registry()
    for pid in a.props or sorted(reg):
        prop = reg[pid]
        bld.build(prop.bins)
        ref = {}
        for procs, aslr in ((8, False), (3, False), (8, True), (16, True)):
            core.ASLR = aslr
            for r in core.search(prop, 4242, "quick", a.n, 3600, procs=procs):
                if "err" in r:
                    print("ERR", pid, r["idx"], r["err"][-300:])
                    bad += 1
                    continue
                total += 1
                if ref.setdefault(r["idx"], r["sha"]) != r["sha"]:
                    print("DIFF", pid, r["idx"], procs, aslr)
                    bad += 1
        core.ASLR = False
        print(pid, "seeds", len(ref), "runs so far", total, "different", bad, flush=True)
    return 1 if bad else 0


def cmd_show(a):
    prop = registry()[a.property]
    bld.build(prop.bins)
    plan = prop.gen(core.rng_of(a.seed or 1, prop.id, a.idx), "quick")
    plan["origin"] = {"property": prop.id, "base_seed": a.seed or 1, "index": a.idx}
    h = prop.execute(plan)
    print(json.dumps(plan.get("meta"), default=str)[:3000])
    print("\n".join(plan.get("head", [])))
    print(plan.get("cfg"))
    print(len(h.lines), h.lines[-2:], h.rc)
    print(h.out[-1500:])
    print(core.violations(prop, plan, h)[:10])
    print(prop.stats(plan, h))
    if a.save:
        json.dump(dict(property=prop.id, kind="x", message="", history_sha=h.sha, plan=plan), open(a.save, "w"), indent=1)
    return 0


def main():
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest="cmd", required=True)
    c = sp.add_parser("check")
    c.add_argument("property")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    c.add_argument("--n", type=int)
    c.add_argument("--secs", type=float)
    c.add_argument("--seed", type=int)
    r = sp.add_parser("replay")
    r.add_argument("file")
    r.add_argument("--dump", action="store_true")
    d = sp.add_parser("determinism")
    d.add_argument("props", nargs="*")
    d.add_argument("--n", type=int, default=100)
    s = sp.add_parser("show")
    s.add_argument("property")
    s.add_argument("idx", type=int)
    s.add_argument("--seed", type=int)
    s.add_argument("--save")
    sp.add_parser("build")
    a = ap.parse_args()
    try:
        if a.cmd == "build":
            bld.build(None, quiet=False)
            rc = 0
        else:
            rc = dict(check=cmd_check, replay=cmd_replay, determinism=cmd_determinism, show=cmd_show)[a.cmd](a)
    except bld.BuildError as e:
        print("BUILD ERROR\n" + str(e))
        rc = 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
