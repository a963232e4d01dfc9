// Drives one DRAMsim3 memory system through its public interface. All inputs
// come from the plan; one line per accepted and per completed transaction.
#include "memory_system.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>

struct Pat {
  uint64_t from, to, gap, base, count, step;
  bool wr;
  uint64_t i = 0, next = 0;
};

static FILE *H;
static uint64_t now_clk = 0;
static uint64_t accepted = 0, done = 0;
static bool finished = false;

static void fin(const char *how) {
  if (finished || !H) return;
  finished = true;
  fprintf(H, "END %s %llu\n", how, (unsigned long long)now_clk);
  fclose(H);
  H = nullptr;
}
static void at_exit_cb() { fin("exit"); }

int main(int argc, char **argv) {
  std::ifstream in(argv[1]);
  std::string line, cfg, out = "hist";
  unsigned id = 3;
  bool stats = false;
  uint64_t maxclk = 10000, drain = 0;
  std::map<int, std::deque<Pat>> clients;
  while (std::getline(in, line)) {
    std::istringstream s(line);
    std::string k;
    s >> k;
    if (k == "out") s >> out;
    else if (k == "dramcfg") s >> cfg;
    else if (k == "id") s >> id;
    else if (k == "maxclk") s >> maxclk;
    else if (k == "drain") s >> drain;
    else if (k == "stats") stats = true;
    else if (k == "p") {
      int c; std::string kind; Pat p;
      s >> c >> kind >> p.from >> p.to >> p.gap >> p.base >> p.count >> p.step;
      p.wr = kind == "W";
      p.next = p.from;
      clients[c].push_back(p);
    }
  }
  H = fopen(out.c_str(), "w");
  atexit(at_exit_cb);
  setvbuf(H, nullptr, _IOFBF, 1 << 20);
  auto rd = [&](uint64_t a) { done++; fprintf(H, "D %llu R %llx\n", (unsigned long long)now_clk, (unsigned long long)a); };
  auto wr = [&](uint64_t a) { done++; fprintf(H, "D %llu W %llx\n", (unsigned long long)now_clk, (unsigned long long)a); };
  dramsim3::MemorySystem *m = new dramsim3::MemorySystem(cfg, ".", rd, wr, id);
  fprintf(H, "G %d %d %d %d %d %d %d %d %d\n", m->GetChannels(), m->GetRanks(), m->GetBankGroups(),
          m->GetBanksPerGroup(), m->GetRows(), m->GetCols(), m->GetBurstLength(), m->GetBusBits(), m->GetQueueSize());
  uint64_t refused = 0;
  bool idle = false;
  uint64_t quiet_at = 0;
  for (now_clk = 0; now_clk < maxclk; now_clk++) {
    bool left = false;
    size_t n = clients.size();
    size_t k = 0;
    std::vector<std::deque<Pat> *> v;
    for (auto &c : clients) v.push_back(&c.second);
    for (k = 0; k < n; k++) {
      auto &q = *v[(k + now_clk) % n];  // no client is favoured
      while (!q.empty()) {
        Pat &p = q.front();
        if (now_clk >= p.to || (p.gap == 0 && p.i >= p.count)) { q.pop_front(); continue; }
        break;
      }
      if (q.empty()) continue;
      left = true;
      Pat &p = q.front();
      if (now_clk < p.next) continue;
      uint64_t a = p.base + (p.i % p.count) * p.step;
      if (m->WillAcceptTransaction(a, p.wr)) {
        bool ok = m->AddTransaction(a, p.wr);
        accepted++;
        fprintf(H, "A %llu %c %llx %d\n", (unsigned long long)now_clk, p.wr ? 'W' : 'R', (unsigned long long)a, (int)ok);
        p.i++;
        p.next = now_clk + (p.gap ? p.gap : 1);
      } else refused++;
    }
    m->ClockTick();
    if (!left && done >= accepted) {
      if (!idle) { idle = true; quiet_at = now_clk; }
      if (now_clk - quiet_at > drain) { now_clk++; fin("quiet"); break; }
    } else idle = false;
  }
  if (H) { fprintf(H, "K refused %llu\n", (unsigned long long)refused); fin("max"); }
  if (stats) m->PrintStats();
  std::cout.flush();
  fflush(nullptr);
  _exit(0);
}
