"""What the shipped DRAM configurations say, read from the .ini files."""
import glob, os, re
from dst.build import RADSIM

DIR = os.path.join(RADSIM, "sim", "dram", "DRAMsim3", "configs")


def params(text):
    out = {}
    for l in text.split("\n"):
        l = re.split(r"[;#]", l)[0]
        m = re.match(r"\s*([A-Za-z_0-9]+)\s*=\s*(\S+)", l)
        if m:
            out[m.group(1)] = m.group(2)
    return out


_cache = {}


def load(name):
    if name not in _cache:
        with open(os.path.join(DIR, name + ".ini")) as f:
            _cache[name] = (f.read(),)
    return _cache[name][0]


def names():
    return sorted(os.path.basename(p)[:-4] for p in glob.glob(os.path.join(DIR, "*.ini")))


class Geometry:
    def __init__(self, name, text=None):
        p = params(text if text is not None else load(name))
        self.p = p
        self.name = name
        g = lambda k, d: int(float(p.get(k, d)))
        self.proto = p.get("protocol", "DDR3")
        self.bl = g("BL", 8)
        self.bus = g("bus_width", 64)
        self.tck = float(p.get("tCK", 1.0))
        self.channels = g("channels", 1)
        self.cols = g("columns", 1024)
        hbm = self.proto in ("HBM", "HBM2")
        if self.bl == 0:
            self.bl = 4 if hbm else 8
        if hbm:
            self.cols *= 2
        if self.proto.startswith("GDDR"):
            self.cols *= self.bl
        self.rows = g("rows", 65536)
        self.bg = g("bankgroups", 2)
        self.ba = g("banks_per_group", 2)
        dev = g("device_width", 8)
        page = g("columns", 1024) * (self.bl if self.proto.startswith("GDDR") else 2 if hbm else 1) * dev // 8
        megs = page * (self.rows // 1024) // 1024 * self.bg * self.ba * (self.bus // dev)
        size = g("channel_size", 1024)
        self.ranks = 1 if megs > size or megs == 0 else size // megs
        self.word = self.bl * self.bus // 8
        self.wcols = self.cols // self.bl
        self.words = self.ranks * self.bg * self.ba * self.rows * self.wcols
        self.ctrl = round(self.bl * self.tck / 2, 6)

    def addr(self, _, co, ba, ro, bg, ra):
        """Byte offset in the controller's user-visible layout."""
        a = ra
        a = a * self.bg + bg
        a = a * self.rows + ro
        a = a * self.ba + ba
        a = a * self.wcols + co
        return a * self.word


def pow2(x):
    return x > 0 and x & (x - 1) == 0


def usable(max_bytes=64):
    """Configurations the memory controller can be built with."""
    out = []
    for n in names():
        try:
            g = Geometry(n)
        except (ValueError, KeyError):
            continue
        if g.proto == "HMC" or g.word > max_bytes:
            continue
        if 2.0 * g.ctrl / g.tck != g.bl or abs(g.ctrl * 1000 - round(g.ctrl * 1000)) > 1e-6:
            continue
        if not all(pow2(x) for x in (g.channels, g.ranks, g.bg, g.ba, g.rows, g.wcols)):
            continue
        out.append(n)
    return out
