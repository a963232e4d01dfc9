"""Plans, runs, histories, gating, minimisation, replay, evidence.

A plan is a JSON-able dict that fixes one simulated execution completely:
  bin    executable base name (sys_a, dramdrv, nocdrv, design_add, ...)
  cfg    RADSim configuration (YAML content) or None
  files  {relative name: text} extra files placed in the run folder
  head   plan lines that describe the system (modules, ports, limits)
  evts   plan lines that are inputs and faults: beat/op/stall/duty/...
  seed   scheduler seed (order of coincident clock edges), 0 = kernel order
  meta   what the generator wants to tell the oracle
The plan itself is the replay file."""
import glob, hashlib, json, os, random, resource, shutil, subprocess, sys, tempfile, time, multiprocessing, signal

from dst import config as cfgmod
from dst import build as bld

VERIF = bld.VERIF
CPU_LIMIT = 30
SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=0:exitcode=98:quarantine_size_mb=64:hard_rss_limit_mb=3500:"
                           "handle_abort=1:allocator_may_return_null=0:detect_odr_violation=0"}
ASLR = False       # address-space randomisation of the simulated process
SCRATCH = os.environ.get("DST_SCRATCH", "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp")


class HarnessError(Exception):
    pass


def rng_of(*parts):
    h = hashlib.sha256("|".join(map(str, parts)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


class Hist:
    """Parsed history."""
    __slots__ = ("lines", "end", "sha", "rc", "out", "files", "extra", "counters")

    def __init__(self, text, rc, out, files):
        self.sha = hashlib.sha256((text + "\0" + json.dumps(files, sort_keys=True)).encode()).hexdigest()[:24]
        self.lines = [l.split() for l in text.split("\n") if l]
        self.end = None
        if self.lines and self.lines[-1][0] == "END":
            self.end = self.lines[-1][1]
        self.rc, self.out, self.files = rc, out, files
        self.extra = []          # further runs that belong to the same simulation
        self.counters = {l[1]: int(l[2]) for l in self.lines if l[0] == "K"}

    def join(self, *others):
        self.extra = list(others)
        self.sha = hashlib.sha256("|".join([self.sha] + [o.sha for o in others]).encode()).hexdigest()[:24]
        return self

    def kind(self, k):
        return [l for l in self.lines if l[0] == k]

    @property
    def sim_ps(self):
        l = self.lines[-1] if self.lines else []
        try:
            return int(l[2])
        except (IndexError, ValueError):
            return 0

    @property
    def sched(self):
        z = self.kind("Z")
        return z[0] if z else None


try:
    import ctypes
    _libc = ctypes.CDLL(None, use_errno=True)
except Exception:
    _libc = None


def _limits(cpu=CPU_LIMIT, mem=True):
    if not ASLR and _libc is not None:
        try:
            _libc.personality(0x0040000)  # ADDR_NO_RANDOMIZE: memory layout is not a hidden input
        except Exception:
            pass
    resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    if mem:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))


def run(plan, keep=None, env=None, wrap=None, sub=None):
    """One simulated execution of the plan in a fresh process and folder."""
    top = root = keep or tempfile.mkdtemp(prefix="dst", dir=SCRATCH)
    try:
        if sub:
            root = os.path.join(root, sub)
            os.makedirs(root)
        design = plan.get("design", "simdut")
        dd = os.path.join(root, "example-designs", design)
        if plan.get("cfg") is not None:
            cfgmod.make_root(root, plan["cfg"], design)
            cfgmod.run_config(root, design)
        for n, t in (plan.get("files") or {}).items():
            p = os.path.join(root, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(t)
        pl = ["seed %d" % plan.get("seed", 0), "out hist"]
        if plan.get("cfg") is not None:
            pl.append("knobs sim/radsim_knobs")
        pl += plan.get("head", []) + plan.get("evts", [])
        with open(os.path.join(root, "plan.txt"), "w") as f:
            f.write("\n".join(pl) + "\n")
        e = {"PATH": "/usr/bin:/bin", "DST_ROOT": root, "LC_ALL": "C"}
        if plan["bin"].endswith("_san"):
            e.update(SAN_ENV)
        if env:
            e.update(env)
        cmd = [os.path.join(bld.BUILD, "bin", plan["bin"]), "plan.txt"]
        if wrap:
            cmd = wrap + cmd
        with open(os.path.join(root, "stdout"), "wb") as so:
            r = subprocess.run(cmd, cwd=root, stdout=so, stderr=subprocess.STDOUT, env=e,
                               stdin=subprocess.DEVNULL, preexec_fn=lambda: _limits(plan.get("cpu", CPU_LIMIT), not plan["bin"].endswith("_san")))
        with open(os.path.join(root, "stdout"), errors="replace") as f:
            out = f.read(4 << 20).replace(root, "<root>")
        try:
            with open(os.path.join(root, "hist"), errors="replace") as f:
                text = f.read()
        except OSError:
            text = ""
        if r.returncode in (-signal.SIGXCPU, -signal.SIGKILL):
            # cut at the last full line, the verdict is that it never ends
            text = text[:text.rfind("\n") + 1] + "END hang\n"
        elif not text.endswith("\n") or "\nEND" not in "\n" + text[-200:]:
            text = text[:text.rfind("\n") + 1] + "END died\n"
        files = {}
        for n in plan.get("collect", []):
            if "*" in n:
                names = sorted(os.path.relpath(p, root) for p in glob.glob(os.path.join(root, n)))
            else:
                names = [n]
            for n in names:
                p = os.path.join(root, n)
                if not os.path.exists(p):
                    continue
                with open(p, errors="replace") as f:
                    files[n] = f.read(64 << 20)
        return Hist(text, r.returncode, out, files)
    finally:
        if not keep:
            shutil.rmtree(top, ignore_errors=True)


# ------------------------------------------------------------------ properties
class Prop:
    """One property's machinery."""
    id = "P00"
    bins = []          # executables it needs
    quick_n = 200      # simulated runs in the quick tier
    quick_s = 40       # wall-clock cap of the quick search
    thorough_s = 900
    faults_rule = ""
    real = ""
    stub = ""
    assumptions = []
    nontrivial = "a run counts as non-trivial when ..."
    sig_rule = "hash of the order in which coincident clock edges ran and of the complete history"

    def gen(self, r, tier):
        raise NotImplementedError

    def check(self, plan, h):
        """-> list of (kind, message); empty when the property held"""
        raise NotImplementedError

    def stats(self, plan, h):
        """-> (counters dict, signature string, nontrivial bool, sim seconds)"""
        return {}, h.sha, True, 0.0

    def execute(self, plan):
        return run(plan)

    def shrinkable(self, plan):
        return True


def violations(prop, plan, h):
    if h.rc == 127 or h.rc == 126:
        raise HarnessError("cannot run %s" % plan["bin"])
    return prop.check(plan, h)


# ------------------------------------------------------------------ search
def _job(a):
    prop, base, idx, tier = a
    r = rng_of(base, prop.id, idx)
    t0 = time.time()
    try:
        plan = prop.gen(r, tier)
        plan["origin"] = {"property": prop.id, "base_seed": base, "index": idx}
        h = prop.execute(plan)
        v = violations(prop, plan, h)
        st = prop.stats(plan, h)
    except HarnessError:
        raise
    except cfgmod.ConfigRejected as e:
        return dict(idx=idx, err="config rejected: %s" % e, plan=plan)
    except Exception as e:
        import traceback
        return dict(idx=idx, err=traceback.format_exc()[-1500:])
    return dict(idx=idx, v=v[:5], st=st, sha=h.sha, plan=plan if v else None, t=time.time() - t0)


def search(prop, base, tier, n, cap_s, stop_on=None, procs=None, start=0):
    """Runs seeded simulations; yields results as they come."""
    procs = procs or len(os.sched_getaffinity(0)) or 8
    t0 = time.time()
    ctx = multiprocessing.get_context("fork")
    pool = ctx.Pool(procs)
    try:
        def jobs():
            for i in range(start, start + n):
                if time.time() - t0 > cap_s:
                    return
                yield (prop, base, i, tier)
        # bounded look-ahead so that the cap works
        pend = []
        it = jobs()
        done = False
        while True:
            while not done and len(pend) < procs * 2:
                try:
                    pend.append(pool.apply_async(_job, (next(it),)))
                except StopIteration:
                    done = True
            if not pend:
                break
            k = None
            for j, p in enumerate(pend):
                if p.ready():
                    k = j
                    break
            if k is None:
                pend[0].wait(0.02)
                continue
            r = pend.pop(k).get()
            yield r
    finally:
        pool.terminate()
        pool.join()


# ------------------------------------------------------------------ minimise
def ddmin(evts, test, budget_s=60, max_tests=400):
    """Classic delta debugging on the list of event lines."""
    t0 = time.time()
    n = 2
    tests = 0
    while len(evts) >= 2 and time.time() - t0 < budget_s and tests < max_tests:
        chunk = max(1, len(evts) // n)
        some = False
        i = 0
        while i < len(evts):
            cand = evts[:i] + evts[i + chunk:]
            tests += 1
            if time.time() - t0 > budget_s:
                break
            if test(cand):
                evts = cand
                n = max(n - 1, 2)
                some = True
            else:
                i += chunk
        if not some:
            if chunk == 1:
                break
            n = min(len(evts), n * 2)
    return evts


def minimise(prop, plan, kind, budget_s):
    def test(evts):
        p = dict(plan)
        p["evts"] = evts
        try:
            h = prop.execute(p)
            return any(k == kind for k, _ in violations(prop, p, h))
        except Exception:
            return False
    if not prop.shrinkable(plan) or budget_s <= 0:
        return plan
    best = ddmin(list(plan.get("evts", [])), test, budget_s)
    p = dict(plan)
    p["evts"] = best
    # simpler scheduling if it still fails
    if p.get("seed"):
        q = dict(p)
        q["seed"] = 0
        h = prop.execute(q)
        if any(k == kind for k, _ in violations(prop, q, h)):
            p = q
    return p


# ------------------------------------------------------------------ known findings
def known_findings():
    """lines 'KNOWN property=<id> match=<substring of kind+message> :: text' and
    'fixed: ...' (which suppress nothing)"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                out.append(json.loads(l))
    return out
