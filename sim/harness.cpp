// System harness: runs the real RADSim system (NoC adapters, Booksim network,
// portals, inter-RAD link, memory controllers, DRAMsim3) under a plan file that
// fixes every input, stall, clock and scheduling decision, and records the
// complete history of hand-overs at the module ports.
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

#include <systemc.h>

#include <design_context.hpp>
#include <design_system.hpp>
#include <design_top.hpp>
#include <mem_controller.hpp>
#include <radsim_cluster.hpp>
#include <radsim_config.hpp>
#include <radsim_inter_rad.hpp>
#include <radsim_telemetry.hpp>

#include "sched.hpp"

RADSimConfig radsim_config;
std::ostream *gWatchOut;
SimLog sim_log;
SimTraceRecording sim_trace_probe;

typedef unsigned long long u64;

// ---------------------------------------------------------------- history
static std::string g_log;
static int g_fd = -1;
static u64 g_last_activity = 0, g_events = 0;
static void flush_log() {
  size_t off = 0;
  while (g_fd >= 0 && off < g_log.size()) {
    ssize_t w = write(g_fd, g_log.data() + off, g_log.size() - off);
    if (w <= 0) break;
    off += w;
  }
  g_log.clear();
}
static bool g_ended = false;
static void hlog(const char *fmt, ...) {
  char b[1024];
  va_list a;
  va_start(a, fmt);
  int n = vsnprintf(b, sizeof b, fmt, a);
  va_end(a);
  g_log.append(b, n);
  g_log += '\n';
  if (g_log.size() > (1u << 20)) flush_log();
}
static void on_exit_hook() {
  if (!g_ended) {
    g_ended = true;
    g_log += "END exit\n";
  }
  flush_log();
}
static void on_signal(int s) {
  if (!g_ended) {
    g_ended = true;
    hlog("END crash %d", s);
  }
  fflush(stdout);
  flush_log();
  _exit(99);
}

static inline u64 mix(u64 z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static inline u64 now_ps() { return sc_time_stamp().value(); }

template <int W> static sc_bv<W> gen_bits(u64 seed, int bits) {
  sc_bv<W> v;
  v = 0;
  if (bits > W) bits = W;
  for (int i = 0; i * 32 < bits; i++) {
    unsigned w = (unsigned)mix(seed + i * 0x1234567ull);
    int left = bits - i * 32;
    if (left < 32) w &= (1u << left) - 1;
    v.set_word(i, w);
  }
  return v;
}
static u64 hash_bits(const sc_bv_base &v, int bits, u64 h = 1469598103934665603ull) {
  if (bits > v.length()) bits = v.length();
  for (int i = 0; i * 32 < bits; i++) {
    unsigned w = v.get_word(i);
    int left = bits - i * 32;
    if (left < 32) w &= (1u << left) - 1;
    h = (h ^ w) * 1099511628211ull;
    h ^= h >> 29;
  }
  return h;
}
static u64 hash_u(u64 x, u64 h) {
  h = (h ^ (x & 0xffffffffull)) * 1099511628211ull;
  h ^= h >> 29;
  h = (h ^ (x >> 32)) * 1099511628211ull;
  h ^= h >> 29;
  return h;
}

// ---------------------------------------------------------------- plan
struct Win { u64 from, to; };
struct Duty { u64 seed; unsigned num, blk; u64 from, to; };
struct Pattern {
  std::vector<Win> wins;
  std::vector<Duty> duties;
  // is the port stalled in the cycle that starts now (cycle number n)?
  bool stalled(u64 t, u64 n) const {
    for (auto &w : wins)
      if (t >= w.from && t < w.to) return true;
    for (auto &d : duties)
      if (t >= d.from && t < d.to && (mix(d.seed + n / d.blk) & 255) < d.num) return true;
    return false;
  }
};
static std::map<std::string, Pattern> g_pat; // key "rad mod.port[.chan]"

struct Beat { u64 earliest; int drad; std::string dport; unsigned tag; u64 dseed; bool last; };
struct Op {
  int idx; char kind; u64 earliest; int trad; std::string tport; u64 offset;
  int len, size, burst, axid; u64 dseed; int after; unsigned wgap; int rbeats;
};
struct TgtCfg { u64 seed = 1; unsigned maxdelay = 0; int waitaw = 0; };
struct PortSpec { std::string name, kind; int dataw, type; };
struct ModSpec { int rad; std::string name; double period; std::vector<PortSpec> ports; };
struct MemSpec { int rad; std::string name; int dram; std::string init; double period; };
struct DirectSpec { int rad; std::string port, mem; int ch; };
struct InitSpec { int rad; std::string mem; int ch; u64 addr, dseed; };

static struct {
  u64 seed = 0;
  std::string out = "/dev/stdout", knobs;
  std::map<int, std::string> place, clks;
  int rads = 1;
  double maxns = 100000, quietns = 5000, drainns = 300, rstns = 25, chunkns = 50;
  u64 quietfrom = 0;
  bool nonoc = false, link = false;
  std::string telem, flows, ftrace, etrace;
  bool memstats = false, teardown = false;
  bool by_period = false;
  unsigned flow_cycles = 1000;
  std::vector<ModSpec> mods;
  std::vector<MemSpec> mems;
  std::vector<DirectSpec> directs;
  std::vector<InitSpec> inits;
  std::map<std::string, std::deque<Beat>> beats;
  std::map<std::string, std::vector<Op>> ops;
  std::map<std::string, TgtCfg> tgts;
  std::map<std::string, int> awahead;
} P;

static RADSimCluster *g_cluster;
static u64 g_beats_planned = 0, g_beats_sent = 0, g_beats_rcvd = 0;
static u64 g_ops_planned = 0, g_ops_done = 0;
static std::map<std::string, u64> g_cnt;

static std::string key(int rad, const std::string &p) { return std::to_string(rad) + " " + p; }

static void parse_plan(const char *fn) {
  std::ifstream f(fn);
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream s(line);
    std::string k;
    if (!(s >> k) || k[0] == '#') continue;
    if (k == "seed") s >> P.seed;
    else if (k == "out") s >> P.out;
    else if (k == "knobs") s >> P.knobs;
    else if (k == "rads") s >> P.rads;
    else if (k == "place") { int r; std::string f; s >> r >> f; P.place[r] = f; }
    else if (k == "clks") { int r; std::string f; s >> r >> f; P.clks[r] = f; }
    else if (k == "maxns") s >> P.maxns;
    else if (k == "quietns") s >> P.quietns;
    else if (k == "drainns") s >> P.drainns;
    else if (k == "rstns") s >> P.rstns;
    else if (k == "chunkns") s >> P.chunkns;
    else if (k == "quietfrom") s >> P.quietfrom;
    else if (k == "nonoc") P.nonoc = true;
    else if (k == "link") P.link = true;
    else if (k == "byperiod") P.by_period = true;
    else if (k == "memstats") P.memstats = true;
    else if (k == "teardown") P.teardown = true;
    else if (k == "telem") s >> P.telem;
    else if (k == "ftrace") s >> P.ftrace;
    else if (k == "etrace") s >> P.etrace;
    else if (k == "flows") s >> P.flows >> P.flow_cycles;
    else if (k == "mod") {
      ModSpec m; m.period = 5;
      s >> m.rad >> m.name >> m.period;
      P.mods.push_back(m);
    } else if (k == "port") {
      int r; std::string m; PortSpec p;
      s >> r >> m >> p.name >> p.kind >> p.dataw >> p.type;
      for (auto &x : P.mods) if (x.rad == r && x.name == m) x.ports.push_back(p);
    } else if (k == "mem") {
      MemSpec m; m.period = 5;
      s >> m.rad >> m.name >> m.dram >> m.init >> m.period;
      P.mems.push_back(m);
    } else if (k == "direct") {
      DirectSpec d; s >> d.rad >> d.port >> d.mem >> d.ch;
      P.directs.push_back(d);
    } else if (k == "init") {
      InitSpec d; s >> d.rad >> d.mem >> d.ch >> d.addr >> d.dseed;
      P.inits.push_back(d);
    } else if (k == "beat") {
      int r; std::string p; Beat b; int last;
      s >> r >> p >> b.earliest >> b.drad >> b.dport >> b.tag >> b.dseed >> last;
      b.last = last;
      P.beats[key(r, p)].push_back(b);
      g_beats_planned++;
    } else if (k == "stall") {
      int r; std::string p; Win w;
      s >> r >> p >> w.from >> w.to;
      g_pat[key(r, p)].wins.push_back(w);
    } else if (k == "duty") {
      int r; std::string p; Duty d;
      s >> r >> p >> d.seed >> d.num >> d.blk >> d.from >> d.to;
      g_pat[key(r, p)].duties.push_back(d);
    } else if (k == "op") {
      int r; std::string p; Op o;
      s >> r >> p >> o.idx >> o.kind >> o.earliest >> o.trad >> o.tport >> o.offset >> o.len >>
          o.size >> o.burst >> o.axid >> o.dseed >> o.after >> o.wgap;
      if (!(s >> o.rbeats)) o.rbeats = o.len + 1;
      P.ops[key(r, p)].push_back(o);
      g_ops_planned++;
    } else if (k == "awahead") {
      int r, n; std::string p;
      s >> r >> p >> n;
      P.awahead[key(r, p)] = n;
    } else if (k == "tgt") {
      int r; std::string p; TgtCfg t;
      s >> r >> p >> t.seed >> t.maxdelay >> t.waitaw;
      P.tgts[key(r, p)] = t;
    } else {
      fprintf(stderr, "bad plan line: %s\n", line.c_str());
      exit(2);
    }
  }
}

// ---------------------------------------------------------------- agents
struct Agent {
  int rad;
  std::string name; // mod.port
  int dataw;
  Pattern *pat;
  virtual void reset() = 0;
  virtual void step(u64 now, u64 cyc, bool rst) = 0;
  void act() { g_last_activity = now_ps(); g_events++; }
  virtual ~Agent() {}
};

static sc_bv<AXIS_DESTW> make_dest(int rad, const std::string &dport, int drad, unsigned &tid) {
  sc_bv<AXIS_DESTW> d;
  d = 0;
  if (dport.compare(0, 4, "raw:") == 0) {
    unsigned lo = 0, re = 0;
    sscanf(dport.c_str(), "raw:%u:%u:%u", &lo, &re, &tid);
    DEST_LOCAL_NODE(d) = lo;
    DEST_REMOTE_NODE(d) = re;
    DEST_RAD(d) = drad;
    return d;
  }
  std::string n = dport;
  unsigned node = g_cluster->all_rads[drad]->GetPortDestinationID(n);
  tid = g_cluster->all_rads[drad]->GetPortInterfaceID(n);
  DEST_RAD(d) = drad;
  if (drad == rad) {
    DEST_LOCAL_NODE(d) = node;
    DEST_REMOTE_NODE(d) = 0;
  } else {
    DEST_LOCAL_NODE(d) = g_cluster->all_rads[rad]->GetPortalSlaveID();
    DEST_REMOTE_NODE(d) = node;
    tid = 0; // the stream id addresses the portal's only stream
  }
  return d;
}

struct AxisSender : Agent {
  axis_master_port *p;
  std::deque<Beat> *q;
  bool driving = false;
  u64 h = 0;
  void reset() override { p->Reset(); }
  void step(u64 now, u64 cyc, bool rst) override {
    if (rst) { p->tvalid.write(false); driving = false; return; }
    if (driving && p->tready.read()) {
      Beat &b = q->front();
      if (!P.etrace.empty()) sim_trace_probe.record_event(0);
      hlog("S %llu %d %s %u %llx %d %s", now, rad, name.c_str(), b.tag, h, b.drad, b.dport.c_str());
      g_beats_sent++;
      act();
      q->pop_front();
      driving = false;
    }
    if (driving) g_cnt["axis_sender_wait_cycles"]++;
    if (!driving) {
      bool st = pat->stalled(now, cyc);
      if (st && !q->empty() && q->front().earliest <= now) g_cnt["axis_sender_paused_cycles"]++;
      if (!q->empty() && q->front().earliest <= now && !st) {
        Beat &b = q->front();
        sc_bv<AXIS_MAX_DATAW> d = gen_bits<AXIS_MAX_DATAW>(b.dseed, dataw);
        sc_bv<AXIS_USERW> u = gen_bits<AXIS_USERW>(b.dseed ^ 0x55aa, AXIS_USERW);
        u.range(27, 0) = b.tag & 0xfffffff;
        unsigned tid = 0;
        sc_bv<AXIS_DESTW> dst = make_dest(rad, b.dport, b.drad, tid);
        p->tvalid.write(true);
        p->tdata.write(d);
        p->tuser.write(u);
        p->tlast.write(b.last);
        p->tdest.write(dst);
        p->tid.write(tid);
        h = hash_bits(d, dataw);
        h = hash_bits(u, AXIS_USERW, h);
        h = hash_u(b.last, h);
        driving = true;
      } else {
        p->tvalid.write(false);
      }
    }
  }
};

struct AxisReceiver : Agent {
  axis_slave_port *p;
  bool ready = false, pv = false, pr = false;
  u64 ph = 0;
  unsigned ptag = 0;
  void reset() override { p->tready.write(false); }
  void step(u64 now, u64 cyc, bool rst) override {
    if (rst) { p->tready.write(false); ready = false; pv = false; return; }
    bool v = p->tvalid.read();
    u64 fh = 0;
    unsigned tag = 0;
    if (v) {
      sc_bv<AXIS_USERW> u = p->tuser.read();
      tag = u.range(27, 0).to_uint();
      u64 h = hash_bits(p->tdata.read(), dataw);
      h = hash_bits(u, AXIS_USERW, h);
      h = hash_u(p->tlast.read(), h);
      u64 tid = p->tid.read().to_uint64(), td = p->tdest.read().to_uint64();
      fh = hash_u(td, hash_u(tid, h));
      if (ready) {
        if (!P.etrace.empty()) sim_trace_probe.record_event(1);
        hlog("R %llu %d %s %u %llx %llx %llx", now, rad, name.c_str(), tag, h, tid, td);
        g_beats_rcvd++;
        act();
      }
    }
    if (pv && !pr && (!v || fh != ph)) {
      hlog("V %llu %d %s %s %u %u", now, rad, name.c_str(), v ? "changed" : "withdrawn", ptag, tag);
    }
    if (v && !ready) g_cnt["axis_backpressure_cycles"]++;
    pv = v; pr = ready; ph = fh; ptag = tag;
    ready = !pat->stalled(now, cyc);
    p->tready.write(ready);
  }
};

// What a 64-bit user tag looks like: routing bits on top (as the initiator's
// base address), | beat(8) | initiator uid(8) | op(24)
struct MmInitiator : Agent {
  aximm_master_port *p;
  bool pulse = false; // drive one-cycle pulses, as the network's adapter does
  std::vector<Op> *ops;
  std::vector<int> rq, wq;
  size_t ri = 0, wi = 0, ai = 0; // next read, next write data, next write address
  size_t ahead = 0;              // write addresses that may run ahead of the write data
  std::vector<bool> done;
  std::vector<int> beats_left;
  unsigned uid;
  bool ar_drv = false, aw_drv = false, w_drv = false, burst = false;
  int wbeat = 0;
  bool rr = false, br = false;
  u64 ar_h = 0, aw_h = 0, w_h = 0, w_dh = 0, w_user = 0;
  u64 w_next = 0;
  Pattern *rpat, *bpat;
  u64 base_user = 0;
  void init() {
    for (size_t i = 0; i < ops->size(); i++) {
      ((*ops)[i].kind == 'R' ? rq : wq).push_back(i);
      beats_left.push_back((*ops)[i].kind == 'R' ? (*ops)[i].rbeats : 1);
    }
    done.assign(ops->size(), false);
    std::map<int, int> pos; // "after" names an op by its index
    for (size_t i = 0; i < ops->size(); i++) pos[(*ops)[i].idx] = i;
    for (auto &o : *ops) o.after = pos.count(o.after) ? pos[o.after] : -1;
  }
  void reset() override { p->Reset(); }
  u64 tag(const Op &o) { return base_user | ((u64)uid << 24) | (u64)(o.idx & 0xffffff); }
  bool may(const Op &o, u64 now) {
    return o.earliest <= now && (o.after < 0 || done[o.after]);
  }
  u64 addr_of(const Op &o) {
    if (pulse) return o.offset;
    std::string n = o.tport;
    return g_cluster->all_rads[o.trad]->GetPortBaseAddress(n) | o.offset;
  }
  sc_bv<AXI4_USERW> user_bits(u64 u, u64 seed) {
    sc_bv<AXI4_USERW> b;
    b = 0;
    b.range(63, 0) = u;
    if (AXI4_USERW > 64)
      b.range(AXI4_USERW - 1, AXI4_USERW > 64 ? 64 : 0) = (unsigned)(mix(seed) & ((1u << ((AXI4_USERW - 64) & 31)) - 1));
    return b;
  }
  void log_req(const char *ch, u64 now, const Op &o, u64 h, u64 dh, int beat, bool last) {
    hlog("> %llu %d %s %s %d %d %llx %llx %d", now, rad, name.c_str(), ch, o.idx, beat, h, dh, (int)last);
    act();
  }
  void drive_ar(const Op &o) {
    u64 a = addr_of(o), t = tag(o);
    sc_bv<AXI4_USERW> u = user_bits(t, o.dseed);
    p->arvalid.write(true); p->araddr.write(a); p->arid.write(o.axid); p->arlen.write(o.len);
    p->arsize.write(o.size); p->arburst.write(o.burst); p->aruser.write(u);
    u64 h = hash_u(a, 7); h = hash_u(o.axid, h); h = hash_u(o.len, h); h = hash_u(o.size, h);
    h = hash_u(o.burst, h); ar_h = hash_bits(u, AXI4_USERW, h);
  }
  void drive_aw(const Op &o) {
    u64 a = addr_of(o), t = tag(o);
    sc_bv<AXI4_USERW> u = user_bits(t, o.dseed);
    p->awvalid.write(true); p->awaddr.write(a); p->awid.write(o.axid); p->awlen.write(o.len);
    p->awsize.write(o.size); p->awburst.write(o.burst); p->awuser.write(u);
    u64 h = hash_u(a, 7); h = hash_u(o.axid, h); h = hash_u(o.len, h); h = hash_u(o.size, h);
    h = hash_u(o.burst, h); aw_h = hash_bits(u, AXI4_USERW, h);
  }
  void drive_w(const Op &o) {
    sc_bv<AXI4_MAX_DATAW> d = gen_bits<AXI4_MAX_DATAW>(o.dseed + 1000 * (wbeat + 1), dataw);
    sc_bv<AXI4_USERW> u = user_bits(tag(o) | ((u64)wbeat << 32), o.dseed + wbeat);
    bool last = wbeat == o.len;
    p->wvalid.write(true); p->wdata.write(d); p->wid.write(o.axid); p->wlast.write(last); p->wuser.write(u);
    w_dh = hash_bits(d, dataw);
    u64 h = hash_bits(d, dataw); h = hash_u(o.axid, h); h = hash_u(last, h);
    w_h = hash_bits(u, AXI4_USERW, h);
  }
  void finish(u64 user, bool is_r) {
    unsigned id = (user >> 24) & 0xff;
    int op = user & 0xffffff;
    if (id != (uid & 0xff)) return;
    for (size_t i = 0; i < ops->size(); i++)
      if ((*ops)[i].idx == op && ((*ops)[i].kind == 'R') == is_r) {
        if (beats_left[i] > 0 && --beats_left[i] == 0) { done[i] = true; g_ops_done++; }
        return;
      }
  }
  void step(u64 now, u64 cyc, bool rst) override {
    if (rst) {
      p->arvalid.write(false); p->awvalid.write(false); p->wvalid.write(false);
      p->rready.write(false); p->bready.write(false);
      return;
    }
    if (p->rvalid.read() && (!pulse || rr)) {
      sc_bv<AXI4_USERW> u = p->ruser.read();
      u64 dh = hash_bits(p->rdata.read(), dataw);
      u64 h = hash_u(p->rid.read().to_uint(), dh);
      h = hash_u(p->rresp.read().to_uint(), h);
      h = hash_u(p->rlast.read(), h);
      h = hash_bits(u, AXI4_USERW, h);
      u64 ul = u.range(63, 0).to_uint64();
      hlog("< %llu %d %s R %llx %llx %llx %d %d", now, rad, name.c_str(), ul, h, dh, (int)p->rlast.read(), (int)rr);
      act();
      finish(ul, true);
    }
    if (p->bvalid.read() && (!pulse || br)) {
      sc_bv<AXI4_USERW> u = p->buser.read();
      u64 h = hash_u(p->bid.read().to_uint(), 3);
      h = hash_u(p->bresp.read().to_uint(), h);
      h = hash_bits(u, AXI4_USERW, h);
      u64 ul = u.range(63, 0).to_uint64();
      hlog("< %llu %d %s B %llx %llx 0 1 %d", now, rad, name.c_str(), ul, h, (int)br);
      act();
      finish(ul, false);
    }
    bool rs = rpat->stalled(now, cyc), bs = bpat->stalled(now, cyc);
    rr = !rs; br = !bs;
    if (rs) g_cnt["mm_R_stalled_cycles"]++;
    if (bs) g_cnt["mm_B_stalled_cycles"]++;
    p->rready.write(rr); p->bready.write(br);

    if (!pulse) {
      if (ar_drv && p->arready.read()) { log_req("AR", now, (*ops)[rq[ri]], ar_h, 0, 0, 0); ar_drv = false; ri++; }
      if (!ar_drv) {
        if (ri < rq.size() && may((*ops)[rq[ri]], now)) { drive_ar((*ops)[rq[ri]]); ar_drv = true; }
        else p->arvalid.write(false);
      }
      if (w_drv && p->wready.read()) {
        const Op &o = (*ops)[wq[wi]];
        log_req("W", now, o, w_h, w_dh, wbeat, wbeat == o.len);
        w_drv = false;
        if (wbeat == o.len) { wi++; wbeat = 0; burst = false; }
        else { wbeat++; w_next = cyc + (o.wgap ? mix(o.dseed + wbeat) % (o.wgap + 1) : 0); }
      }
      if (aw_drv && p->awready.read()) {
        log_req("AW", now, (*ops)[wq[ai]], aw_h, 0, 0, 0);
        aw_drv = false; ai++;
      }
      if (!aw_drv) {
        if (ai <= wi + ahead && ai < wq.size() && may((*ops)[wq[ai]], now)) {
          if (ai > wi) g_cnt["mm_write_addresses_ahead"]++;
          drive_aw((*ops)[wq[ai]]); aw_drv = true;
        } else p->awvalid.write(false);
      }
      if (!burst && ai > wi) {
        const Op &o = (*ops)[wq[wi]];
        burst = true; wbeat = 0; w_next = cyc + (o.wgap ? mix(o.dseed) % (o.wgap + 1) : 0);
      }
      if ((ar_drv && !p->arready.read()) || (aw_drv && !p->awready.read()) || (w_drv && !p->wready.read()))
        g_cnt["mm_initiator_wait_cycles"]++;
      if (!w_drv) {
        if (burst && cyc >= w_next) { drive_w((*ops)[wq[wi]]); w_drv = true; }
        else p->wvalid.write(false);
      }
    } else {
      // one channel per cycle, one-cycle pulses, issued on seeing ready
      p->arvalid.write(false); p->awvalid.write(false); p->wvalid.write(false);
      bool did = false;
      bool prefer_r = mix(cyc ^ uid) & 1;
      for (int k = 0; k < 2 && !did; k++) {
        if ((k == 0) == prefer_r) {
          if (ri < rq.size() && may((*ops)[rq[ri]], now) && p->arready.read()) {
            const Op &o = (*ops)[rq[ri]];
            drive_ar(o); log_req("AR", now, o, ar_h, 0, 0, 0); ri++; did = true;
          }
        } else if (burst) {
          const Op &o = (*ops)[wq[wi]];
          if (cyc >= w_next && p->wready.read()) {
            drive_w(o); log_req("W", now, o, w_h, w_dh, wbeat, wbeat == o.len);
            if (wbeat == o.len) { burst = false; wi++; } else { wbeat++; w_next = cyc + 1 + (o.wgap ? mix(o.dseed + wbeat) % (o.wgap + 1) : 0); }
            did = true;
          }
        } else if (wi < wq.size() && may((*ops)[wq[wi]], now) && p->awready.read()) {
          const Op &o = (*ops)[wq[wi]];
          drive_aw(o); log_req("AW", now, o, aw_h, 0, 0, 0);
          burst = true; wbeat = 0; w_next = cyc + 1; did = true;
        }
      }
    }
  }
};

struct MmTarget : Agent {
  aximm_slave_port *p;
  TgtCfg cfg;
  Pattern *arp, *awp, *wp, *rp, *bp;
  struct Rsp { u64 user_lo; sc_bv<AXI4_USERW> user; unsigned id; int beats; u64 at; u64 seed; };
  struct Wr { sc_bv<AXI4_USERW> user; unsigned id; };
  std::deque<Rsp> rq, bq;
  std::deque<Wr> aw;
  int wl = 0;
  u64 n = 0;
  bool r_drv = false, b_drv = false;
  int rbeat = 0;
  u64 r_h = 0, b_h = 0, r_dh = 0;
  void reset() override { p->Reset(); }
  void step(u64 now, u64 cyc, bool rst) override {
    if (rst) { p->Reset(); return; }
    if (p->arvalid.read()) {
      sc_bv<AXI4_USERW> u = p->aruser.read();
      u64 a = p->araddr.read().to_uint64();
      unsigned id = p->arid.read().to_uint(), len = p->arlen.read().to_uint();
      u64 h = hash_u(a, 7); h = hash_u(id, h); h = hash_u(len, h);
      h = hash_u(p->arsize.read().to_uint(), h); h = hash_u(p->arburst.read().to_uint(), h);
      h = hash_bits(u, AXI4_USERW, h);
      u64 ul = u.range(63, 0).to_uint64();
      hlog("< %llu %d %s AR %llx %llx 0 0 0 %llx %u %u %u %u", now, rad, name.c_str(), ul, h, a, id, len, p->arsize.read().to_uint(), p->arburst.read().to_uint());
      act();
      n++;
      rq.push_back(Rsp{ul, u, id, (int)len + 1, cyc + (cfg.maxdelay ? mix(cfg.seed + n) % (cfg.maxdelay + 1) : 0), mix(cfg.seed * 77 + n)});
    }
    if (p->awvalid.read()) {
      sc_bv<AXI4_USERW> u = p->awuser.read();
      u64 a = p->awaddr.read().to_uint64();
      unsigned id = p->awid.read().to_uint(), len = p->awlen.read().to_uint();
      u64 h = hash_u(a, 7); h = hash_u(id, h); h = hash_u(len, h);
      h = hash_u(p->awsize.read().to_uint(), h); h = hash_u(p->awburst.read().to_uint(), h);
      h = hash_bits(u, AXI4_USERW, h);
      hlog("< %llu %d %s AW %llx %llx 0 0 0 %llx %u %u %u %u", now, rad, name.c_str(), (u64)u.range(63, 0).to_uint64(), h, a, id, len, p->awsize.read().to_uint(), p->awburst.read().to_uint());
      act();
      aw.push_back(Wr{u, id});
    }
    if (p->wvalid.read()) {
      sc_bv<AXI4_USERW> u = p->wuser.read();
      u64 dh = hash_bits(p->wdata.read(), dataw);
      u64 h = hash_u(p->wid.read().to_uint(), dh);
      h = hash_u(p->wlast.read(), h);
      h = hash_bits(u, AXI4_USERW, h);
      hlog("< %llu %d %s W %llx %llx %llx %d 0", now, rad, name.c_str(), (u64)u.range(63, 0).to_uint64(), h, dh, (int)p->wlast.read());
      act();
      if (p->wlast.read()) wl++;
    }
    while (wl > 0 && !aw.empty()) {
      n++;
      bq.push_back(Rsp{0, aw.front().user, aw.front().id, 1, cyc + (cfg.maxdelay ? mix(cfg.seed + n) % (cfg.maxdelay + 1) : 0), mix(cfg.seed * 99 + n)});
      aw.pop_front();
      wl--;
    }
    bool sa = arp->stalled(now, cyc), sw = awp->stalled(now, cyc), sd = wp->stalled(now, cyc);
    if (cfg.waitaw && aw.empty()) { sd = true; g_cnt["mm_target_waits_for_address_cycles"]++; }
    p->arready.write(!sa); p->awready.write(!sw); p->wready.write(!sd);
    if (sa) g_cnt["mm_AR_stalled_cycles"]++;
    if (sw) g_cnt["mm_AW_stalled_cycles"]++;
    if (sd) g_cnt["mm_W_stalled_cycles"]++;
    if (sa != sw || sw != sd) g_cnt["mm_unequal_ready_cycles"]++;
    // responses
    if (r_drv && p->rready.read()) {
      Rsp &q = rq.front();
      hlog("> %llu %d %s R %llx %d %llx %llx %d", now, rad, name.c_str(), q.user_lo, rbeat, r_h, r_dh, rbeat == q.beats - 1);
      act();
      r_drv = false;
      if (++rbeat == q.beats) { rq.pop_front(); rbeat = 0; }
    }
    if (!r_drv) {
      if (!rq.empty() && rq.front().at <= cyc && !rp->stalled(now, cyc)) {
        Rsp &q = rq.front();
        sc_bv<AXI4_MAX_DATAW> d = gen_bits<AXI4_MAX_DATAW>(q.seed + rbeat, dataw);
        unsigned resp = mix(q.seed + rbeat) & 3;
        bool last = rbeat == q.beats - 1;
        p->rvalid.write(true); p->rdata.write(d); p->rid.write(q.id); p->rresp.write(resp);
        p->rlast.write(last); p->ruser.write(q.user);
        r_dh = hash_bits(d, dataw);
        u64 h = hash_u(q.id, r_dh); h = hash_u(resp, h); h = hash_u(last, h);
        r_h = hash_bits(q.user, AXI4_USERW, h);
        r_drv = true;
      } else p->rvalid.write(false);
    }
    if (b_drv && p->bready.read()) {
      Rsp &q = bq.front();
      hlog("> %llu %d %s B %llx 0 %llx 0 1", now, rad, name.c_str(), (u64)q.user.range(63, 0).to_uint64(), b_h);
      act();
      b_drv = false;
      bq.pop_front();
    }
    if (!b_drv) {
      if (!bq.empty() && bq.front().at <= cyc && !bp->stalled(now, cyc)) {
        Rsp &q = bq.front();
        unsigned resp = mix(q.seed) & 3;
        p->bvalid.write(true); p->bid.write(q.id); p->bresp.write(resp); p->buser.write(q.user);
        u64 h = hash_u(q.id, 3); h = hash_u(resp, h);
        b_h = hash_bits(q.user, AXI4_USERW, h);
        b_drv = true;
      } else p->bvalid.write(false);
    }
  }
};

static std::vector<MmInitiator *> g_inits;

struct EP : RADSimModule {
  sc_in<bool> rst;
  ModSpec spec;
  std::vector<Agent *> agents;
  std::map<std::string, axis_master_port *> am;
  std::map<std::string, axis_slave_port *> as;
  std::map<std::string, aximm_master_port *> mi;
  std::map<std::string, aximm_slave_port *> mt;
  SC_HAS_PROCESS(EP);
  EP(const sc_module_name &n, RADSimDesignContext *d, const ModSpec &s)
      : RADSimModule(n, d), rst("rst"), spec(s) {
    RegisterModuleInfo();
    SC_CTHREAD(Tick, clk.pos());
  }
  void RegisterModuleInfo() override {
    for (auto &ps : spec.ports) {
      std::string pn = module_name + "." + ps.name;
      std::string k = key(spec.rad, pn);
      if (ps.kind == "am") {
        auto a = new AxisSender;
        a->p = new axis_master_port; am[ps.name] = a->p;
        a->q = &P.beats[k];
        a->pat = &g_pat[k];
        RegisterAxisMasterPort(pn, a->p, ps.dataw, ps.type);
        agents.push_back(a);
      } else if (ps.kind == "as") {
        auto a = new AxisReceiver;
        a->p = new axis_slave_port; as[ps.name] = a->p;
        a->pat = &g_pat[k];
        RegisterAxisSlavePort(pn, a->p, ps.dataw, ps.type);
        agents.push_back(a);
      } else if (ps.kind == "mi" || ps.kind == "md") {
        auto a = new MmInitiator;
        a->p = new aximm_master_port; mi[ps.name] = a->p;
        a->ops = &P.ops[k];
        a->pulse = ps.kind == "md";
        a->uid = g_inits.size() + 1;
        a->ahead = P.awahead.count(k) ? P.awahead[k] : 0;
        a->init();
        a->pat = a->rpat = &g_pat[k + ".r"];
        a->bpat = &g_pat[k + ".b"];
        g_inits.push_back(a);
        RegisterAximmMasterPort(pn, a->p, ps.dataw);
        agents.push_back(a);
        hlog("U %d %s %u", spec.rad, pn.c_str(), a->uid);
      } else if (ps.kind == "mt") {
        auto a = new MmTarget;
        a->p = new aximm_slave_port; mt[ps.name] = a->p;
        a->cfg = P.tgts[k];
        a->pat = a->arp = &g_pat[k + ".ar"];
        a->awp = &g_pat[k + ".aw"];
        a->wp = &g_pat[k + ".w"];
        a->rp = &g_pat[k + ".r"];
        a->bp = &g_pat[k + ".b"];
        RegisterAximmSlavePort(pn, a->p, ps.dataw);
        agents.push_back(a);
      }
      agents.back()->rad = spec.rad;
      agents.back()->name = pn;
      agents.back()->dataw = ps.dataw;
    }
  }
  void Tick() {
    u64 cyc = 0;
    for (auto a : agents) a->reset();
    while (true) {
      wait();
      u64 now = now_ps();
      if (cyc < 4) hlog("C %d %s %llu", spec.rad, module_name.c_str(), now);
      bool r = rst.read();
      for (auto a : agents) a->step(now, cyc, r);
      cyc++;
    }
  }
};

static std::string g_tmpinit;
static std::string write_init(const MemSpec &m) {
  if (m.init == "-") return "";
  std::map<int, std::vector<InitSpec>> by;
  int maxch = 63;
  for (auto &i : P.inits)
    if (i.rad == m.rad && i.mem == m.name) by[i.ch].push_back(i);
  for (int c = 0; c <= maxch; c++) {
    std::ofstream f(m.init + "_" + std::to_string(c) + ".dat");
    for (auto &i : by[c]) {
      sc_bv<AXI4_MAX_DATAW> d = gen_bits<AXI4_MAX_DATAW>(i.dseed, AXI4_MAX_DATAW);
      f << i.addr << " " << d.to_string() << "\n";
    }
  }
  return m.init + "_0";
}

// the memory's shape and the initial content of its words
static std::vector<mem_controller *> g_mems;
static void log_mem(const MemSpec &m, mem_controller *c) {
  g_mems.push_back(c);
  hlog("M %d %s %u %u %d", m.rad, m.name.c_str(), c->GetNumChannels(), c->GetAddressableWordSize(), m.dram);
  for (auto &i : P.inits)
    if (i.rad == m.rad && i.mem == m.name)
      hlog("I %d %s %d %llu %llx", m.rad, m.name.c_str(), i.ch, i.addr,
           hash_bits(gen_bits<AXI4_MAX_DATAW>(i.dseed, c->GetAddressableWordSize() * 8), c->GetAddressableWordSize() * 8));
}

struct Top : RADSimDesignTop {
  sc_in<bool> rst;
  std::vector<EP *> eps;
  std::vector<mem_controller *> mems;
  Top(const sc_module_name &n, RADSimDesignContext *d, int rad) : sc_module(n), RADSimDesignTop(d), rst("rst") {
    for (auto &m : P.mods)
      if (m.rad == rad) {
        EP *e = new EP(m.name.c_str(), d, m);
        e->rst(rst);
        eps.push_back(e);
      }
    for (auto &m : P.mems)
      if (m.rad == rad) {
        std::string init = write_init(m);
        mem_controller *c = new mem_controller(m.name.c_str(), m.dram, d, init);
        c->rst(rst);
        sc_clock *mc = new sc_clock((m.name + "_mclk").c_str(), 1.0, SC_NS);
        c->mem_clk(*mc);
        mems.push_back(c);
        log_mem(m, c);
      }
    this->connectPortalReset(&rst);
    d->BuildDesignContext(P.place[rad], P.clks[rad]);
    d->CreateSystemNoCs(rst);
    d->ConnectModulesToNoC();
    for (auto i : g_inits)
      if (i->rad == rad && !i->pulse) {
        std::string n = i->name;
        i->base_user = d->GetPortBaseAddress(n);
      }
  }
};

// holds memory channels nobody uses
struct Tie : sc_module {
  sc_vector<aximm_master_port> m;
  Tie(const sc_module_name &n, unsigned k) : sc_module(n), m("m", k) {}
};

struct Sys : RADSimDesignSystem {
  sc_signal<bool> rst_sig;
  Top *top;
  Sys(const sc_module_name &n, RADSimDesignContext *d, int rad) : sc_module(n) {
    top = new Top("top", d, rad);
    top->rst(rst_sig);
    design_dut_inst = top;
  }
};

int sc_main(int argc, char **argv) {
  sc_report_handler::set_actions(SC_WARNING, SC_DO_NOTHING);
  sc_report_handler::set_actions(SC_INFO, SC_DO_NOTHING);
  parse_plan(argv[1]);
  g_fd = open(P.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  atexit(on_exit_hook);
#ifndef __SANITIZE_ADDRESS__
  signal(SIGABRT, on_signal);
  signal(SIGSEGV, on_signal);
  signal(SIGFPE, on_signal);
  signal(SIGBUS, on_signal);
#endif

  radsim_config.ResizeAll(P.rads);
  ParseRADSimKnobs(P.knobs);
  g_cluster = new RADSimCluster(P.rads);
  gWatchOut = &std::cout;
  sim_log.SetLogSettings(radsim_config.GetIntKnobShared("telemetry_log_verbosity"), "/dev/null");
  sim_trace_probe.SetTraceRecordingSettings(P.etrace.empty() ? "/dev/null" : P.etrace, radsim_config.GetIntKnobShared("telemetry_num_traces"));

  std::vector<sc_signal<bool> *> rsts;
  std::vector<Sys *> systems;
#ifndef SINGLE_RAD
  RADSimInterRad *box = nullptr;
#endif
  double drv = radsim_config.GetDoubleKnobShared("sim_driver_period");
  if (P.nonoc) {
    auto r = new sc_signal<bool>("rst0");
    rsts.push_back(r);
    std::map<std::string, mem_controller *> mems;
    for (auto &m : P.mems) {
      std::string init = write_init(m);
      mem_controller *c = new mem_controller(m.name.c_str(), m.dram, g_cluster->all_rads[m.rad], init);
      c->rst(*r);
      sc_clock *mc = new sc_clock((m.name + "_mclk").c_str(), 1.0, SC_NS);
      c->mem_clk(*mc);
      sc_clock *cc = new sc_clock((m.name + "_clk").c_str(), m.period, SC_NS);
      c->clk(*cc);
      mems[m.name] = c;
      log_mem(m, c);
      std::vector<EP *> eps;
      std::set<int> used;
      for (auto &ms : P.mods) {
        EP *e = nullptr;
        for (auto &d : P.directs)
          if (d.mem == m.name && d.port.substr(0, d.port.find('.')) == ms.name) {
            if (!e) {
              e = new EP(ms.name.c_str(), g_cluster->all_rads[ms.rad], ms);
              e->rst(*r);
              e->clk(*cc); // the initiator side of a channel runs on the controller clock
            }
            if (d.ch >= (int)c->GetNumChannels()) { hlog("END badch"); g_ended = true; flush_log(); _exit(0); }
            auto sig = new aximm_signal;
            sig->Connect(*e->mi[d.port.substr(d.port.find('.') + 1)], c->mem_channels[d.ch]);
            used.insert(d.ch);
          }
      }
      int left = (int)c->GetNumChannels() - (int)used.size();
      Tie *tie = left ? new Tie((m.name + "_tie").c_str(), left) : nullptr;
      for (int ch = 0; ch < (int)c->GetNumChannels(); ch++)
        if (!used.count(ch)) {
          auto sig = new aximm_signal;
          sig->Connect(tie->m[--left], c->mem_channels[ch]);
        }
    }
  } else if (P.link) {
    auto r = new sc_signal<bool>("rst0");
    rsts.push_back(r);
    sc_clock *lc = new sc_clock("link_clk", drv, SC_NS);
    auto box = new RADSimInterRad("inter_rad_box", lc, g_cluster);
    for (auto &ms : P.mods) {
      EP *e = new EP(("r" + std::to_string(ms.rad) + "_" + ms.name).c_str(), g_cluster->all_rads[ms.rad], ms);
      e->rst(*r);
      sc_clock *c = new sc_clock(("c" + std::to_string(ms.rad)).c_str(), drv, SC_NS);
      e->clk(*c);
      box->all_axis_slave_signals[ms.rad]->Connect(*e->am["tx"], *box->all_axis_slave_ports[ms.rad]);
      box->all_axis_master_signals[ms.rad]->Connect(*box->all_axis_master_ports[ms.rad], *e->as["rx"]);
    }
  } else {
    for (int i = 0; i < P.rads; i++) {
      auto s = new Sys(("sys" + std::to_string(i)).c_str(), g_cluster->all_rads[i], i);
      g_cluster->StoreSystem(s);
      systems.push_back(s);
      rsts.push_back(&s->rst_sig);
    }
#ifndef SINGLE_RAD
    if (P.rads > 1) {
      sc_clock *lc = new sc_clock("link_clk", drv, SC_NS);
      box = new RADSimInterRad("inter_rad_box", lc, g_cluster);
      for (int i = 0; i < P.rads; i++) box->ConnectClusterInterfaces(i);
    }
#endif
    for (int r = 0; r < P.rads; r++)
      for (auto &m : P.mods)
        if (m.rad == r)
          for (auto &p : m.ports) {
            std::string n = m.name + "." + p.name;
            auto d = g_cluster->all_rads[r];
            bool mm = p.kind[0] == 'm';
            hlog("N %d %s %u %u %llx", r, n.c_str(), d->GetPortDestinationID(n), d->GetPortInterfaceID(n),
                 (u64)(mm ? d->GetPortBaseAddress(n) : 0));
          }
  }
  dst_install_scheduler(P.seed, P.by_period);

  for (auto r : rsts) r->write(true);
  sc_start(P.rstns, SC_NS);
  for (auto r : rsts) r->write(false);
  const char *why = "max";
  while (now_ps() < P.maxns * 1000) {
    sc_start(P.chunkns, SC_NS);
    if (g_beats_sent == g_beats_planned && g_beats_rcvd >= g_beats_sent && g_ops_done == g_ops_planned &&
        now_ps() >= g_last_activity + (u64)(P.drainns * 1000)) { why = "done"; break; }
    u64 base = std::max<u64>(g_last_activity, P.quietfrom);
    if (now_ps() > base + (u64)(P.quietns * 1000)) { why = "quiet"; break; }
  }
  if (!P.telem.empty()) {
    NoCTransactionTelemetry::DumpStatsToFile(P.telem);
    std::map<int, std::pair<int, int>> types;
    for (auto &e : NoCTransactionTelemetry::trace_bookkeeping)
      types[e.first] = {e.second.transaction_type, e.second.rad_id};
    for (auto &t : types) hlog("G %d %d %d", t.first, t.second.first, t.second.second);
  }
  if (!P.ftrace.empty()) NoCFlitTelemetry::DumpNoCFlitTracesToFile(P.ftrace);
  if (!P.etrace.empty()) sim_trace_probe.dump_traces();
  if (!P.flows.empty())
    for (int i = 0; i < P.rads; i++) {
      auto bw = NoCTransactionTelemetry::DumpTrafficFlows(P.flows + "_r" + std::to_string(i), P.flow_cycles,
                                                          g_cluster->all_rads[i]->GetNodeModuleNames(), i);
      for (size_t j = 0; j < bw.size(); j++) hlog("F %d %zu %.9g", i, j, bw[j]);
    }
  if (P.memstats)
    for (auto c : g_mems) c->PrintStats();
  for (auto &k : g_cnt) hlog("K %s %llu", k.first.c_str(), k.second);
  hlog("Z %llu %llu %llx %llu", (u64)dst_stats.coincident, (u64)dst_stats.permuted, (u64)dst_stats.sig, g_events);
  hlog("END %s %llu", why, now_ps());
  g_ended = true;
  fflush(stdout);
  std::cout.flush();
  flush_log();
  if (P.teardown) {
    // what the generated main and the designs' destructors do when the simulation is over
    sc_stop();
#ifndef SINGLE_RAD
    delete box;
#endif
    for (auto c : g_mems) delete c;
    sc_flit scf;
    scf.FreeAllFlits();
    Flit *f = Flit::New();
    f->FreeAll();
    Credit *c = Credit::New();
    c->FreeAll();
    delete g_cluster;
    std::cout << "teardown done" << std::endl;
  }
  _exit(0);
}
