def all_props():
    from dst.props import axis
    mods = [axis]
    for name in ("aximm", "memory", "dram", "isolation", "interrad", "noc", "telemetry", "config", "repro", "designs", "dramstats", "dramtime", "memsafe", "fresh"):
        try:
            mods.append(__import__("dst.props." + name, fromlist=["x"]))
        except ModuleNotFoundError as e:
            if ("dst.props." + name) not in str(e):
                raise
    out = {}
    for m in mods:
        for p in m.PROPS:
            out[p.id] = p
    return out
