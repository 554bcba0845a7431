// @bounds order: every completion order of 5 (thorough 7) tasks, any of them skipped, some with empty output, buffered or not
// @bounds interleave: 3 threads that write or skip 3 (thorough 5) tasks in all, each its own in any order, every schedule with at most 2 (thorough 3) interruptions; the streams are compared after every task and at the end
// @stub interleave: the mutex of the collector is a coroutine mutex under a solver-chosen schedule that may switch before every lock and, when no lock is held, before every access to the table of saved outputs and every write to either stream
// @harness order quick=25 thorough=300
// @harness interleave quick=30 thorough=400
#include "coro.h"
#include <iostream>
#include <pthread.h>
#define mutex sx_mutex
#define unique_lock sx_lock
#define lock_guard sx_lock
#define map sx_shared_map
#include <travatar/output-collector.h>
#include <lib/output-collector.cc>
#undef mutex
#undef unique_lock
#undef lock_guard
#undef map
using namespace travatar;
SX_HARNESS(order) {
  int n = sx::Q(5, 7); bool buf = sx::Pick("buffer", 0, 1);
  std::ostringstream o, e; OutputCollector c(&o, &e, buf);
  coro::start(0, 0);
  std::vector<int> done(n, 0); std::vector<std::string> ot(n), et(n);
  for (int i = 0; i < n; i++) {
    int k = sx::Pick(nm("next", i), 0, n - 1); sx::Assume(!done[k]); done[k] = 1;
    int kind = sx::Tier() || i < 2 ? sx::Pick(nm("kind", i), 0, 2) : 0;
    ot[k] = kind == 2 ? "" : std::string("out") + char('0' + k) + "\n"; et[k] = kind ? "" : std::string("err") + char('0' + k);
    if (kind == 2) c.Skip(k); else c.Write(k, ot[k], et[k]);
    std::string wo, we; for (int j = 0; j < n && done[j]; j++) { wo += ot[j]; we += et[j]; }
    sx::Assert(o.str() == wo, "the output so far is that of the finished prefix of tasks, in order");
    sx::Assert(e.str() == we, "the error output so far is that of the finished prefix of tasks, in order");
  }
  c.Flush();
  sx::Reach("end");
}
struct Slow : public std::streambuf {
  std::string got;
  virtual std::streamsize xsputn(const char *s, std::streamsize n) { coro::pointUnlocked(); got.append(s, n); return n; }
  virtual int overflow(int c) { coro::pointUnlocked(); got += (char)c; return c; }
};
static OutputCollector *col; static int n, owner[8], kind[8], turn[8], isDone[8]; static std::string ot[8], et[8]; static Slow *so, *se; static bool good;
static void worker(int t) {
  for (int i = 0; i < n; i++) if (int k = owner[turn[i]] == t ? turn[i] + 1 : 0) {
    k--; if (kind[k]) col->Skip(k); else col->Write(k, ot[k], et[k]);
    isDone[k] = 1;
    // everything up to the first unfinished task has been written, in order
    std::string wo, we; for (int j = 0; j < n && isDone[j]; j++) { wo += ot[j]; we += et[j]; }
    good = good && so->got.compare(0, wo.size(), wo) == 0 && se->got.compare(0, we.size(), we) == 0;
  }
}
SX_HARNESS(interleave) {
  n = sx::Q(3, 5); int seen = 0;
  for (int i = 0; i < n; i++) { turn[i] = sx::Pick(nm("order", i), 0, n - 1); for (int j = 0; j < i; j++) sx::Assume(turn[j] != turn[i]); isDone[i] = 0; }
  for (int i = 0; i < n; i++) { owner[i] = sx::Pick(nm("owner", i), 0, seen < 2 ? seen : 2); if (owner[i] == seen) seen++; kind[i] = i == 0 || sx::Tier() ? sx::Pick(nm("skip", i), 0, 1) : 0; ot[i] = kind[i] ? "" : std::string(1, 'a' + i) + "\n"; et[i] = kind[i] ? "" : std::string(1, 'A' + i); }
  so = new Slow; se = new Slow; std::ostream o(so), e(se); col = new OutputCollector(&o, &e, sx::Pick("buffer", 0, sx::Q(0, 1))); good = true;
  coro::start(sx::Q(2, 3), 0); int t[3]; for (int i = 0; i < 3; i++) t[i] = coro::spawn(boost::bind(worker, i));
  for (int i = 0; i < 3; i++) coro::join(t[i]);
  sx::Assert(good, "a finished prefix of tasks is on the streams, in order, under every interleaving");
  std::string wo, we; for (int j = 0; j < n; j++) { wo += ot[j]; we += et[j]; }
  sx::Assert(so->got == wo && se->got == we, "each output is written once, in order, under every interleaving");
  sx::Reach("end");
}
