"""Builds the simulators out of /repo's current working tree.

/repo/rad-sim/sim is mirrored by content into build/src (so that object files
are rebuilt exactly when a file's content changes), one radsim_defines.hpp per
variant is produced by running the tree's own config.py, and ninja compiles
  booksim + DRAMsim3 (once, common)        -> common objects
  sim/*.cpp, noc/*.cpp, dram/mem_controller (per variant)
  /verif/sim/*.cpp (harness)
Everything lives in the git-ignored folder /verif/build."""
import fcntl, glob, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
RADSIM = os.path.join(REPO, "rad-sim")
BUILD = os.environ.get("DST_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(BUILD, "src")

from dst import config as cfgmod

VARIANTS = {
    # name: (header-relevant parameters)
    "a": dict(payload_width=166, axis=512, user=75, axi4=512, axi4_user=64, num_rads=1, vcs=5, types=5),
    "b": dict(payload_width=82, axis=512, user=75, axi4=512, axi4_user=64, num_rads=2, vcs=5, types=5),
    "c": dict(payload_width=71, axis=128, user=32, axi4=128, axi4_user=64, num_rads=1, vcs=5, types=5),
    "d": dict(payload_width=620, axis=512, user=75, axi4=512, axi4_user=66, num_rads=1, vcs=5, types=5),
    "e": dict(payload_width=66, axis=256, user=40, axi4=512, axi4_user=64, num_rads=1, vcs=5, types=5),
}

CXX = os.environ.get("DST_CXX", "g++")
FLAGS = "-O2 -w -std=c++17 -U_FORTIFY_SOURCE -DFMT_HEADER_ONLY=1"
# second build for P30: every access and every undefined operation is checked while the simulation runs
SAN = ("-fsanitize=address,bounds,integer-divide-by-zero,signed-integer-overflow,shift-exponent,return,unreachable,bool,enum")
FLAGS_SAN = "-O1 -g1 -w -std=c++17 -U_FORTIFY_SOURCE -DFMT_HEADER_ONLY=1 -D_GLIBCXX_ASSERTIONS " + SAN
SAN_VARIANTS = ("a", "b")
SAN_DESIGNS = ("mlp", "dlrm_two_rad")


class BuildError(Exception):
    pass


def _write_if_changed(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def sync_sources():
    os.makedirs(SRC, exist_ok=True)
    subprocess.run(
        ["rsync", "-rc", "--delete", "--exclude=/radsim_defines.hpp", "--exclude=/main.cpp",
         "--exclude=/radsim_knobs", "--exclude=/noc/noc*_config", "--exclude=*.txt",
         "--exclude=/dram/DRAMsim3/tests",
         os.path.join(RADSIM, "sim") + "/", SRC + "/"], check=True, stdout=subprocess.DEVNULL)
    # mlp_int8 etc. for the shipped-design checks
    ex = os.path.join(BUILD, "designs")
    os.makedirs(ex, exist_ok=True)
    subprocess.run(["rsync", "-rc", "--delete", "--exclude=/*/compiler/embedding*",
                    os.path.join(RADSIM, "example-designs") + "/", ex + "/"],
                   check=True, stdout=subprocess.DEVNULL)


def variant_header(v):
    p = VARIANTS[v]
    text = cfgmod.header_for_variant(p)
    return text


INC = ["", "noc", "noc/booksim"] + ["noc/booksim/" + d for d in
       ("routers", "allocators", "arbiters", "networks", "power")] + [
       "dram", "dram/DRAMsim3", "dram/DRAMsim3/src", "dram/DRAMsim3/ext/headers",
       "dram/DRAMsim3/ext/fmt/include", "dram/DRAMsim3/ext/fmt/include/fmt"]


DESIGNS = ("add", "mult", "mlp", "dlrm", "dlrm_two_rad")


def _flags(incs):
    return " ".join("-I" + i for i in incs)


def gen_ninja(variants, extra=()):
    booksim = sorted(glob.glob(SRC + "/noc/booksim/*.cpp"))
    for d in ("allocators", "arbiters", "networks", "power", "routers"):
        booksim += sorted(glob.glob(SRC + "/noc/booksim/" + d + "/*.cpp"))
    booksim += [SRC + "/noc/booksim/y.tab.c", SRC + "/noc/booksim/lex.yy.c"]
    dram = [SRC + "/dram/DRAMsim3/src/" + f + ".cc" for f in
            ("bankstate", "channel_state", "command_queue", "common", "configuration",
             "controller", "dram_system", "hmc", "refresh", "simple_stats", "timing",
             "memory_system")]
    simc = [f for f in sorted(glob.glob(SRC + "/*.cpp"))
            if os.path.basename(f) != "main.cpp"]
    simc += sorted(glob.glob(SRC + "/noc/*.cpp"))
    simc += [SRC + "/dram/mem_controller.cpp"]
    out = ["ninja_required_version = 1.5",
           "rule cxx",
           "  command = %s %s $flags -MMD -MF $out.d -c $in -o $out" % (CXX, FLAGS),
           "  depfile = $out.d", "  deps = gcc", "  description = CXX $out",
           "rule cc",
           "  command = gcc -O2 -w $flags -MMD -MF $out.d -c $in -o $out",
           "  depfile = $out.d", "  deps = gcc", "  description = CC $out",
           "rule cxxsan",
           "  command = %s %s $flags -MMD -MF $out.d -c $in -o $out" % (CXX, FLAGS_SAN),
           "  depfile = $out.d", "  deps = gcc", "  description = CXX $out",
           "rule linksan",
           "  command = %s %s $in -o $out $libs" % (CXX, SAN),
           "  description = LINK $out",
           "rule so",
           "  command = gcc -O1 -fno-builtin -shared -fPIC -w $in -o $out",
           "  description = SO $out",
           "rule link",
           "  command = %s $in -o $out $libs" % CXX,
           "  description = LINK $out", ""]
    incs = [os.path.join(SRC, i) for i in INC]
    targets = []

    def section(sfx, vs, designs):
        """sfx '' = as shipped, '_san' = with checks on every access"""
        def obj(src, odir, flags):
            o = os.path.join(BUILD, "obj", odir + sfx, os.path.relpath(src, SRC if src.startswith(SRC) else VERIF).replace("/", "_") + ".o")
            return objto(o, src, flags)

        def objto(o, src, flags):
            out.append("build %s: %s %s\n  flags = %s" % (o, "cc" if src.endswith(".c") else "cxx" + sfx.strip("_"), src, flags))
            return o

        def link(name, objs):
            exe = os.path.join(BUILD, "bin", name + sfx)
            out.append("build %s: link%s %s\n  libs = -Wl,--as-needed -lsystemc -lpthread" % (exe, sfx.strip("_"), " ".join(objs)))
            targets.append(exe)

        # common part gets variant 'a' header only for networks/anynet.hpp's include chain
        cinc = _flags([os.path.join(BUILD, "gen", "a")] + incs)
        cb = [obj(s, "common", cinc) for s in booksim]
        cd = [obj(s, "common", cinc + " -DCMD_TRACE") for s in dram]
        sys_a = []
        for v in vs:
            vinc = _flags([os.path.join(BUILD, "gen", v)] + incs + [hb])
            objs = [obj(s, v, vinc) for s in simc]
            if v == "a":
                sys_a = objs
            hs = [obj(os.path.join(hb, "harness.cpp"), v, vinc),
                  obj(os.path.join(hb, "sched.cpp"), v, vinc + " -fno-access-control")]
            link("sys_" + v, hs + objs + cb + cd)
        for name, src, needs in (("dramdrv", "dramdrv.cpp", cd), ("nocdrv", "nocdrv.cpp", cb + cd + sys_a)):
            o = obj(os.path.join(hb, src), "drv", cinc + " -I" + hb + (" -DCMD_TRACE" if name == "dramdrv" else ""))
            link(name, [o] + needs)
        designs_dir = os.path.join(BUILD, "designs")
        for d in designs:
            g = os.path.join(BUILD, "gen", "design_" + d)
            if not os.path.exists(os.path.join(g, "radsim_defines.hpp")):
                continue
            dd = os.path.join(designs_dir, d)
            dinc = _flags([g] + incs + [dd, os.path.join(dd, "modules"), designs_dir, hb])
            objs = [obj(s, "design_" + d, dinc) for s in simc]
            dsrc = sorted(glob.glob(dd + "/*.cpp") + glob.glob(dd + "/modules/*.cpp"))
            od = os.path.join(BUILD, "obj", "design_" + d + sfx)
            for s in dsrc:
                objs.append(objto(os.path.join(od, "d_" + os.path.relpath(s, dd).replace("/", "_") + ".o"), s, dinc))
            objs.append(objto(os.path.join(od, "main.o"), os.path.join(g, "main.cpp"), dinc + " -Dsc_main=design_sc_main"))
            objs.append(obj(os.path.join(hb, "sched.cpp"), "design_" + d, dinc + " -fno-access-control"))
            objs.append(obj(os.path.join(hb, "designprobe.cpp"), "design_" + d, dinc))
            link("design_" + d, objs + cb + cd)

    hb = os.path.join(VERIF, "sim")
    section("", variants, DESIGNS)
    section("_san", [v for v in variants if v in SAN_VARIANTS], SAN_DESIGNS)
    so = os.path.join(BUILD, "bin", "perturb.so")
    out.append("build %s: so %s" % (so, os.path.join(hb, "perturb.c")))
    targets.append(so)
    _write_if_changed(os.path.join(BUILD, "build.ninja"), "\n".join(out) + "\n")
    return targets


def build(targets=None, variants=None, quiet=True):
    """targets: list of binary base names (sys_a, dramdrv, ...); None = all"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sync_sources()
        for v in VARIANTS:
            _write_if_changed(os.path.join(BUILD, "gen", v, "radsim_defines.hpp"), variant_header(v))
        if os.path.exists(os.path.join(VERIF, "sim", "designprobe.cpp")):
            for d in DESIGNS:
                h, m = cfgmod.design_gen(d)
                g = os.path.join(BUILD, "gen", "design_" + d)
                _write_if_changed(os.path.join(g, "radsim_defines.hpp"), h)
                _write_if_changed(os.path.join(g, "main.cpp"), m)
        all_t = gen_ninja(list(VARIANTS))
        want = all_t if targets is None else [os.path.join(BUILD, "bin", t) for t in targets]
        r = subprocess.run(["ninja", "-C", BUILD, "-f", os.path.join(BUILD, "build.ninja")] + want,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(r.stdout[-6000:])
        if not quiet:
            sys.stdout.write(r.stdout[-2000:])
    return BUILD


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    build(sys.argv[1:] or None, quiet=False)
