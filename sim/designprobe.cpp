// Runs a shipped example design (its generated main.cpp, compiled with
// sc_main renamed) under the seeded scheduler, with the wall clock replaced.
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <systemc.h>
#include <unistd.h>
#include "sched.hpp"

static FILE *H;
static bool over = false;
static long g_time = 1;
static void fin(const char *how) {
  if (over || !H) return;
  over = true;
  fprintf(H, "Z %llu %llu %llx 0\n", (unsigned long long)dst_stats.coincident, (unsigned long long)dst_stats.permuted,
          (unsigned long long)dst_stats.sig);
  fprintf(H, "END %s %llu\n", how, (unsigned long long)(sc_time_stamp().to_seconds() * 1e12 + 0.5));
  fclose(H);
}
static void at_exit_cb() { fin("exit"); }

// what the design drivers seed their inputs with
extern "C" time_t time(time_t *t) {
  if (t) *t = g_time;
  return g_time;
}

struct limiter : public sc_module {
  double ns;
  SC_HAS_PROCESS(limiter);
  limiter(sc_module_name n, double l) : sc_module(n), ns(l) { SC_THREAD(run); }
  void run() {
    wait(ns, SC_NS);
    fin("max");
    std::cout.flush();
    _exit(3);
  }
};

extern "C" int design_sc_main(int argc, char **argv);

int sc_main(int argc, char **argv) {
  std::ifstream in(argv[1]);
  std::string line, out = "hist";
  unsigned long long seed = 0;
  double maxns = 100000;
  bool byperiod = false;
  while (std::getline(in, line)) {
    std::istringstream s(line);
    std::string k;
    s >> k;
    if (k == "seed") s >> seed;
    else if (k == "out") s >> out;
    else if (k == "time") s >> g_time;
    else if (k == "maxns") s >> maxns;
    else if (k == "byperiod") byperiod = true;
  }
  H = fopen(out.c_str(), "w");
  atexit(at_exit_cb);
  dst_install_scheduler(seed, byperiod);
  new limiter("dst_limiter", maxns);
  int rc = design_sc_main(argc, argv);
  fprintf(H, "RC %d\n", rc);
  fin("done");
  std::cout.flush();
  fflush(nullptr);
  _exit(rc);
}
