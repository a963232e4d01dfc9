#define SC_INCLUDE_DYNAMIC_PROCESSES
#include <systemc.h>
#include <sysc/kernel/sc_runnable.h>
#include <sysc/kernel/sc_simcontext.h>
#include <algorithm>
#include <map>
#include <vector>
#include "sched.hpp"

dst_sched_stats dst_stats;

namespace {
uint64_t g_state;
uint64_t rnd() {
  uint64_t z = (g_state += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
typedef sc_core::sc_process_b *P; // thread processes derive from it
uint64_t g_last_delta = ~0ull;
bool g_by_period = false;                      // fixed order: faster clocks first
std::map<const void *, uint64_t> g_period;     // clock edge event -> period in ps

// Runs first in the evaluate phase (method processes run before threads) and
// rearranges the kernel's list of runnable threads group-wise.
void permute() {
  sc_core::sc_simcontext *ctx = sc_get_curr_simcontext();
  uint64_t d = sc_delta_count();
  if (d == g_last_delta) return;
  g_last_delta = d;
  sc_core::sc_runnable *r = ctx->m_runnable;
  P head = (P)r->m_threads_push_head;
  P t = head->m_runnable_p;
  std::vector<std::vector<P>> groups;
  std::map<const void *, size_t> idx;
  while (t != (P)0xdb && t != nullptr) {
    const void *key = t->m_static_events.empty() ? (const void *)t
                                                 : (const void *)t->m_static_events[0];
    auto it = idx.find(key);
    if (it == idx.end()) {
      idx[key] = groups.size();
      groups.emplace_back();
      it = idx.find(key);
    }
    groups[it->second].push_back(t);
    t = t->m_runnable_p;
  }
  if (groups.size() < 2) return;
  dst_stats.coincident++;
  std::vector<size_t> ord(groups.size());
  for (size_t i = 0; i < ord.size(); i++) ord[i] = i;
  bool moved = false;
  if (g_by_period) {
    std::vector<uint64_t> per(groups.size());
    for (auto &k : idx) {
      auto it = g_period.find(k.first);
      per[k.second] = it == g_period.end() ? 0 : it->second;
    }
    std::stable_sort(ord.begin(), ord.end(), [&](size_t a, size_t b) { return per[a] < per[b]; });
  } else for (size_t i = ord.size() - 1; i > 0; i--) {
    size_t j = rnd() % (i + 1);
    std::swap(ord[i], ord[j]);
  }
  for (size_t i = 0; i < ord.size(); i++) {
    if (ord[i] != i) moved = true;
    dst_stats.sig = (dst_stats.sig ^ (ord[i] + 1)) * 1099511628211ull;
  }
  if (moved) dst_stats.permuted++;
  P prev = head;
  for (size_t g : ord)
    for (auto th : groups[g]) {
      prev->m_runnable_p = th;
      prev = th;
    }
  prev->m_runnable_p = (P)0xdb;
  r->m_threads_push_tail = (sc_core::sc_thread_handle)prev;
}

struct scheduler : public sc_core::sc_module {
  scheduler(sc_core::sc_module_name n) : sc_module(n) {}
  void collect(sc_core::sc_object *o, std::vector<sc_core::sc_clock *> &v) {
    if (auto c = dynamic_cast<sc_core::sc_clock *>(o)) v.push_back(c);
    for (auto ch : o->get_child_objects()) collect(ch, v);
  }
  void end_of_elaboration() override {
    std::vector<sc_core::sc_clock *> clks;
    for (auto o : sc_core::sc_get_top_level_objects()) collect(o, clks);
    if (clks.empty()) return;
    sc_core::sc_spawn_options opt;
    opt.spawn_method();
    opt.dont_initialize();
    for (auto c : clks) {
      opt.set_sensitivity(&c->posedge_event());
      g_period[&c->posedge_event()] = (uint64_t)(c->period().to_double() + 0.5);
    }
    sc_core::sc_spawn(&permute, "dst_permute", &opt);
  }
};
} // namespace

void dst_install_scheduler(uint64_t seed, bool by_period) {
  g_by_period = by_period;
  if (!seed && !by_period) return;
  g_state = seed;
  new scheduler("dst_scheduler");
}
