// Drives one network fabric (Booksim Network) through its injection and
// ejection channels, with terminals of its own. All inputs come from the plan.
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <systemc.h>
#include <booksim_config.hpp>
#include <network.hpp>
#include <routefunc.hpp>
#include <random_utils.hpp>
#include <radsim_config.hpp>
#include <radsim_telemetry.hpp>
#include <radsim_utils.hpp>

typedef unsigned long long u64;
RADSimConfig radsim_config;
std::ostream *gWatchOut = nullptr;
SimLog sim_log;
SimTraceRecording sim_trace_probe;

static u64 mix(u64 z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
struct Rng {
  u64 s;
  u64 next() { return s = mix(s); }
  unsigned below(unsigned n) { return (unsigned)(next() % n); }
};
struct Pkt { u64 at; int src, dst, type, vcoff, len; u64 tag; };
struct Window { int node, vc; u64 from, to; };
struct Duty { int node; u64 seed; int num; u64 blk, from, to; };

static FILE *H;
static u64 cyc = 0;
static bool over = false;
static void fin(const char *how) {
  if (over || !H) return;
  over = true;
  fprintf(H, "END %s %llu\n", how, cyc);
  fclose(H);
}
static void at_exit_cb() { fin("exit"); }

static sc_bv<NOC_LINKS_PAYLOAD_WIDTH> contents(u64 tag, int idx) {
  sc_bv<NOC_LINKS_PAYLOAD_WIDTH> b;
  u64 v = mix(tag * 131 + idx);
  for (int i = 0; i < NOC_LINKS_PAYLOAD_WIDTH; i++) {
    if (i % 64 == 0) v = mix(v);
    b[i] = (bool)((v >> (i % 64)) & 1);
  }
  return b;
}
static u64 fhash(const sc_bv<NOC_LINKS_PAYLOAD_WIDTH> &b) {
  u64 h = 1469598103934665603ull;
  for (int i = 0; i < NOC_LINKS_PAYLOAD_WIDTH; i += 32) {
    u64 w = b.range(std::min(i + 31, NOC_LINKS_PAYLOAD_WIDTH - 1), i).to_uint64();
    h = mix(h ^ w);
  }
  return h & 0xffffffffffffull;
}

struct Queue { std::deque<Pkt> q; int idx = 0, vc = -1; };

int sc_main(int argc, char **argv) {
  std::ifstream in(argv[1]);
  std::string line, conf, out = "hist";
  u64 maxc = 10000, quiet = 2000, seed = 0, stop = ~0ull, rseed = 0;
  int types = 1, permute = 0;
  std::vector<Pkt> pkts;
  std::vector<Window> stalls, cstalls, istalls;
  std::vector<Duty> duties;
  while (std::getline(in, line)) {
    std::istringstream s(line);
    std::string k;
    s >> k;
    if (k == "out") s >> out;
    else if (k == "seed") s >> seed;
    else if (k == "rseed") s >> rseed;
    else if (k == "conf") s >> conf;
    else if (k == "types") s >> types;
    else if (k == "cycles") s >> maxc;
    else if (k == "quiet") s >> quiet;
    else if (k == "stop") s >> stop;      // no more injection of new packets after this
    else if (k == "permute") s >> permute;
    else if (k == "p") { Pkt p; s >> p.at >> p.src >> p.dst >> p.type >> p.vcoff >> p.len >> p.tag; pkts.push_back(p); }
    else if (k == "stall") { Window w; s >> w.node >> w.vc >> w.from >> w.to; stalls.push_back(w); }
    else if (k == "cstall") { Window w; s >> w.node >> w.vc >> w.from >> w.to; cstalls.push_back(w); }
    else if (k == "istall") { Window w; s >> w.node >> w.vc >> w.from >> w.to; istalls.push_back(w); }
    else if (k == "duty") { Duty d; s >> d.node >> d.seed >> d.num >> d.blk >> d.from >> d.to; duties.push_back(d); }
  }
  H = fopen(out.c_str(), "w");
  atexit(at_exit_cb);
  setvbuf(H, nullptr, _IOFBF, 1 << 20);
  gWatchOut = &std::cout;
  RandomSeed((long)rseed);

  BookSimConfig cfg;
  cfg.ParseFile(conf);
  InitializeRoutingMap(cfg);
  Network *net = Network::New(cfg, "net");
  int N = net->NumNodes(), V = cfg.GetInt("num_vcs"), D = cfg.GetInt("vc_buf_size");
  tRoutingFunction rf = gRoutingFunctionMap[cfg.GetStr("routing_function") + "_" + cfg.GetStr("topology")];
  bool la = !cfg.GetInt("routing_delay");
  const char *tn[] = {"read_request", "write_request", "write_data", "read_reply", "write_reply"};
  int bvc[5] = {0}, evc[5] = {0};
  for (int t = 0; t < types; t++) {
    bvc[t] = cfg.GetInt(std::string(tn[t]) + "_begin_vc");
    evc[t] = cfg.GetInt(std::string(tn[t]) + "_end_vc");
  }
  fprintf(H, "G %d %d %d", N, V, D);
  for (int t = 0; t < types; t++) fprintf(H, " %d-%d", bvc[t], evc[t]);
  fprintf(H, "\n");

  std::map<u64, Pkt> all;
  std::stable_sort(pkts.begin(), pkts.end(), [](const Pkt &a, const Pkt &b) { return a.at < b.at; });
  // one queue per node and VC: packets of one VC leave one after the other
  std::vector<std::vector<Queue>> q(N, std::vector<Queue>(V));
  u64 last_end = 0, injected = 0, ejected = 0, total = 0, flits_in = 0, flits_out = 0, blocked = 0, refused_out = 0;
  for (auto &p : pkts) {
    if (p.src >= N || p.dst >= N || p.type >= types) continue;
    int n = evc[p.type] - bvc[p.type] + 1;
    q[p.src][bvc[p.type] + p.vcoff % n].q.push_back(p);
    total++;
  }
  for (auto *v : {&stalls, &cstalls, &istalls})
    for (auto &w : *v) last_end = std::max(last_end, w.to);
  for (auto &d : duties) last_end = std::max(last_end, d.to);

  std::vector<std::vector<int>> credits(N, std::vector<int>(V, D)), held(N, std::vector<int>(V, 0));
  std::vector<std::vector<u64>> want(N, std::vector<u64>(V, 0));
  std::vector<std::deque<int>> fifo(N);              // received, not yet consumed (VCs in order)
  std::vector<std::vector<int>> owed(N, std::vector<int>(V, 0)); // consumed, credit not yet sent
  std::vector<int> rr(N, 0), crr(N, 0);
  Rng rng{seed};
  auto inside = [&](const std::vector<Window> &v, int node, int vc) {
    for (auto &w : v)
      if (w.node == node && (w.vc < 0 || w.vc == vc) && cyc >= w.from && cyc < w.to) return true;
    return false;
  };
  auto lazy = [&](int node) {
    for (auto &d : duties)
      if (d.node == node && cyc >= d.from && cyc < d.to && (mix(d.seed + cyc / d.blk) & 255) < (u64)d.num) return true;
    return false;
  };

  auto inject = [&](int n) {
    if (Credit *c = net->ReadCredit(n)) {
      for (int vc : c->vc) {
        if (vc < 0 || vc >= V) { fprintf(H, "X badcredit %llu %d %d\n", cyc, n, vc); continue; }
        if (++credits[n][vc] > D) { fprintf(H, "X extracredit %llu %d %d\n", cyc, n, vc); credits[n][vc] = D; }
      }
      c->Free();
    }
    // one flit per cycle and node; VCs take turns
    for (int k = 0; k < V; k++) {
      int vc = (rr[n] + k) % V;
      Queue &s = q[n][vc];
      if (s.q.empty() || (s.idx == 0 && (s.q.front().at > cyc || cyc >= stop))) continue;
      if (inside(istalls, n, vc)) continue;
      if (credits[n][vc] == 0) { blocked++; continue; }
      Pkt &p = s.q.front();
      Flit *f = Flit::New();
      f->id = (int)p.tag; f->pid = (int)p.tag; f->watch = false; f->subnetwork = 0;
      f->src = n; f->dest = p.dst; f->dest_rad = 0; f->dest_remote = p.dst; f->dest_interface = (int)(p.tag % 7);
      f->ctime = (int)cyc; f->itime = (int)cyc; f->cl = 0; f->pri = 0;
      f->head = s.idx == 0; f->tail = s.idx == p.len - 1;
      f->type = (Flit::FlitType)p.type; f->vc = vc;
      auto *body = new sc_bv<NOC_LINKS_PAYLOAD_WIDTH>(contents(p.tag, s.idx));
      f->data = body;
      if (la) {
        const FlitChannel *ic = net->GetInject(n);
        rf(ic->GetSink(), f, ic->GetSinkPort(), &f->la_route_set, false);
      }
      credits[n][vc]--;
      fprintf(H, "I %llu %d %llu %d %llx %d\n", cyc, n, p.tag, s.idx, fhash(*body), vc);
      flits_in++;
      net->WriteFlit(f, n);
      if (++s.idx == p.len) { s.idx = 0; s.q.pop_front(); injected++; }
      rr[n] = (vc + 1) % V;
      break;
    }
  };
  auto eject = [&](int n) {
    if (Flit *f = net->ReadFlit(n)) {
      flits_out++;
      int vc = f->vc;
      auto *body = (sc_bv<NOC_LINKS_PAYLOAD_WIDTH> *)f->data;
      fprintf(H, "E %llu %d %d %llx %d %d %d %d %d %d %d %d\n", cyc, n, f->pid, fhash(*body), (int)f->head, (int)f->tail, vc,
              (int)f->type, f->src, f->dest, f->dest_interface, f->hops);
      if (f->tail) ejected++;
      if (vc < 0 || vc >= V) fprintf(H, "X badvc %llu %d %d\n", cyc, n, vc);
      else {
        if (++held[n][vc] > D) fprintf(H, "X overrun %llu %d %d\n", cyc, n, vc);
        want[n][vc]++;
      }
      f->Free();
    }
    // consume: every VC has its own queue in the terminal
    if (!lazy(n))
      for (int vc = 0; vc < V; vc++) {
        if (!want[n][vc]) continue;
        if (inside(stalls, n, vc)) { refused_out++; continue; }
        owed[n][vc] += (int)want[n][vc];
        want[n][vc] = 0;
      }
    // one credit per cycle
    for (int k = 0; k < V; k++) {
      int vc = (crr[n] + k) % V;
      if (!owed[n][vc] || inside(cstalls, n, vc)) continue;
      Credit *c = Credit::New();
      c->vc.insert(vc);
      net->WriteCredit(c, n);
      owed[n][vc]--;
      held[n][vc]--;
      crr[n] = (vc + 1) % V;
      break;
    }
  };

  std::vector<int> order(2 * N);
  for (int i = 0; i < 2 * N; i++) order[i] = i;
  u64 last = 0, seen = 0, drained = 0;
  const char *why = "max";
  for (cyc = 0; cyc < maxc; cyc++) {
    SetSimTime((int)cyc);
    if (permute)
      for (int i = 2 * N - 1; i > 0; i--) std::swap(order[i], order[rng.below(i + 1)]);
    for (int i : order) i < N ? inject(i) : eject(i - N);
    net->ReadInputs();
    net->Evaluate();
    net->WriteOutputs();
    if (flits_out + flits_in != seen) { seen = flits_out + flits_in; last = cyc; }
    if (last < last_end) last = std::min(cyc, last_end);
    bool left = cyc < stop && injected < total;
    if (!left && flits_in == flits_out) {
      if (++drained > 200 && cyc > last_end + 200) { why = "done"; break; }
    } else drained = 0;
    u64 next = 0;
    if (left && flits_in == flits_out) last = cyc;  // idle until the next packet is due
    if (cyc > last + quiet) { why = "quiet"; break; }
    (void)next;
  }
  for (int n = 0; n < N; n++)
    for (int vc = 0; vc < V; vc++)
      if (credits[n][vc] != D) fprintf(H, "O %d %d %d\n", n, vc, D - credits[n][vc]);
  fprintf(H, "K flits_injected %llu\nK flits_ejected %llu\nK injection_blocked_cycles %llu\nK terminal_stalled_cycles %llu\n",
          flits_in, flits_out, blocked, refused_out);
  fin(why);
  std::cout.flush();
  fflush(nullptr);
  _exit(0);
}
