"""Runs the tree's own rad-sim/config.py (the shipped configuration generator)
against a scratch root and returns what it generated.  os.system (the cmake
call) is stubbed, everything else is the real code."""
import contextlib, io, os, shutil, sys, tempfile, json

REPO = os.environ.get("DST_REPO", "/repo")
RADSIM = os.path.join(REPO, "rad-sim")
_code = {}


class ConfigRejected(Exception):
    pass


def _compiled():
    p = os.path.join(RADSIM, "config.py")
    st = os.stat(p)
    key = (p, st.st_mtime_ns, st.st_size)
    if key not in _code:
        _code.clear()
        _code[key] = compile(open(p).read(), p, "exec")
    return _code[key]


class _OsProxy:
    """os with system() stubbed and getcwd() pinned, so config.py can run in a
    worker without changing the process' cwd."""

    def __init__(self, root):
        self._root = root

    def __getattr__(self, k):
        return getattr(os, k)

    def getcwd(self):
        return self._root

    def system(self, *_):
        return 0

    def makedirs(self, *_a, **_k):
        return None


def run_config(root, design):
    """Executes config.py as `cd root; python config.py design`."""
    import builtins
    glb = {"__name__": "__main__", "__file__": os.path.join(RADSIM, "config.py")}
    real_import = builtins.__import__
    proxy = _OsProxy(root)

    class _NoShutil:
        def rmtree(self, *_a, **_k):
            return None

    def imp(name, g=None, l=None, fromlist=(), level=0):
        if g is glb and name == "os":
            return proxy
        if g is glb and name == "shutil":
            return _NoShutil()
        return real_import(name, g, l, fromlist, level)

    b = dict(vars(builtins))
    b["__import__"] = imp
    glb["__builtins__"] = b
    argv = sys.argv
    out = io.StringIO()
    try:
        sys.argv = ["config.py", design]
        with contextlib.redirect_stdout(out):
            try:
                exec(_compiled(), glb)
            except SystemExit as e:
                if e.code not in (0, None):
                    raise ConfigRejected("exit %r: %s" % (e.code, out.getvalue()[-300:]))
    finally:
        sys.argv = argv
    return out.getvalue()


def _yaml(v):
    return json.dumps(v)


def yaml_text(cfg):
    """cfg: ordered dict section -> dict (of dicts for 'config X')."""
    lines = []
    for sec, body in cfg.items():
        lines.append("%s:" % sec)
        for k, v in body.items():
            if isinstance(v, dict):
                lines.append("  %s:" % k)
                for kk, vv in v.items():
                    lines.append("    %s: %s" % (kk, _yaml(vv)))
            else:
                lines.append("  %s: %s" % (k, _yaml(v)))
    return "\n".join(lines) + "\n"


def make_root(root, cfg, design="simdut"):
    """Creates the scratch rad-sim root with the YAML in place."""
    os.makedirs(os.path.join(root, "example-designs", design), exist_ok=True)
    os.makedirs(os.path.join(root, "sim", "noc"), exist_ok=True)
    os.makedirs(os.path.join(root, "sim", "dram", "DRAMsim3"), exist_ok=True)
    os.makedirs(os.path.join(root, "logs"), exist_ok=True)
    with open(os.path.join(root, "example-designs", design, "config.yml"), "w") as f:
        f.write(yaml_text(cfg))
    cdir = os.path.join(root, "sim", "dram", "DRAMsim3", "configs")
    os.makedirs(cdir, exist_ok=True)
    for sec, body in cfg.items():
        for n in (body.get("dram") or {}).get("config_files", []) if sec.startswith("config ") else []:
            src = os.path.join(RADSIM, "sim", "dram", "DRAMsim3", "configs", n + ".ini")
            dst = os.path.join(cdir, n + ".ini")
            if os.path.exists(src) and not os.path.lexists(dst):
                shutil.copy(src, dst)


def base_cfg(payload_width=166, axis=512, user=75, axi4=512, axi4_user=64, num_rads=1,
             vcs=5, types=5, dim=4, design="simdut"):
    cfg = {
        "noc": dict(type=["2d"], num_nocs=1, clk_period=[1.0], payload_width=[payload_width],
                    topology=["mesh"], dim_x=[dim], dim_y=[dim], routing_func=["dim_order"],
                    vcs=[vcs], vc_buffer_size=[8], output_buffer_size=[8],
                    num_packet_types=[types], router_uarch=["iq"], vc_allocator=["islip"],
                    sw_allocator=["islip"], credit_delay=[1], routing_delay=[1],
                    vc_alloc_delay=[1], sw_alloc_delay=[1]),
        "noc_adapters": dict(clk_period=[1.25], fifo_size=[16], obuff_size=[2],
                             in_arbiter=["fixed_rr"], out_arbiter=["priority_rr"],
                             vc_mapping=["direct"]),
        "interfaces": dict(max_axis_tdata_width=axis, axis_tuser_width=user,
                           axi_user_width=axi4_user, max_axi_data_width=axi4),
    }
    names = []
    for i in range(num_rads):
        cfg["config rad%d" % i] = dict(design=dict(name=design, noc_placement=["simdut.place"],
                                                    clk_periods=[5.0]))
        names.append("rad%d" % i)
    cfg["cluster"] = dict(sim_driver_period=5.0, telemetry_log_verbosity=0, telemetry_traces=[],
                          num_rads=num_rads, cluster_configs=names)
    return cfg


def header_text(root):
    t = open(os.path.join(root, "sim", "radsim_defines.hpp")).read()
    return t.replace(root, "/nonexistent")


def header_for_variant(p):
    root = tempfile.mkdtemp(prefix="dstcfg")
    try:
        make_root(root, base_cfg(**p))
        run_config(root, "simdut")
        return header_text(root)
    finally:
        shutil.rmtree(root)


def design_gen(d):
    """radsim_defines.hpp and main.cpp of a shipped design, by config.py; the
    root is read from the environment so that one binary serves many roots."""
    root = tempfile.mkdtemp(prefix="dstcfg")
    try:
        make_root(root, {}, d)
        shutil.copy(os.path.join(RADSIM, "example-designs", d, "config.yml"),
                    os.path.join(root, "example-designs", d, "config.yml"))
        run_config(root, d)
        h = header_text(root).replace('"/nonexistent"', 'std::string(getenv("DST_ROOT"))')
        m = open(os.path.join(root, "sim", "main.cpp")).read()
        return h, m
    finally:
        shutil.rmtree(root)
