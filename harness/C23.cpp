// @sources lib/global-debug.cc
// @bounds pool: 1..2 workers, 0..2 tasks (thorough: 3 workers, 4 tasks), no queue limit or a limit of 1 (thorough 1..2), stopping with or without waiting for the queue, or after waiting for the pool to be idle, tasks deleted by the pool or not; every schedule with at most 2 (thorough 3; 1 with 2 workers and 2 tasks) interruptions and any choice of the next thread when one blocks, and at most one spurious wake-up (thorough)
// @bounds clients: two client threads, one submitting 1..3 tasks to a pool of 1 worker (thorough 1..2) with a limit of 1, the other stopping it in either way
// @bounds several: one client submitting 1..3 tasks, and possibly another one submitting one or waiting for the pool (thorough: and two others waiting), 1 worker (thorough 1..2), a limit of 1 (thorough: or none), at most 1 (3) interruptions
// @harness several quick=25 thorough=300
// @stub boost::mutex, condition_variable and thread_group are coroutines under a solver-chosen schedule that may switch before every lock and notification, every unlocked access to the queue or the flags of the pool, and around the work of a task; accesses under the lock are atomic; sleeping returns at once
// @assume tasks do not throw
// @harness pool quick=40 thorough=600
// @harness clients quick=25 thorough=300
#include "coro.h"
#include <travatar/task.h>
#include <travatar/global-debug.h>
#include <pthread.h>
#include <unistd.h>
#define mutex sx_mutex
#define condition_variable sx_cv
#define thread_group sx_tg
#define unique_lock sx_lock
#define lock_guard sx_lock
#define queue sx_queue
#define bool SharedBool
#define sleep(x) coro::point()
#include <travatar/thread-pool.h>
#include <lib/thread-pool.cc>
#undef bool
#undef mutex
#undef condition_variable
#undef thread_group
#undef unique_lock
#undef lock_guard
#undef queue
#undef sleep
using namespace travatar;
static int runs[8], finished[8], deleted[8], order[8], started;
struct Work : public Task {
  int id; Work(int i) : id(i) { runs[i] = finished[i] = deleted[i] = 0; }
  void Run() { order[started++] = id; runs[id]++; coro::point(); finished[id] = !deleted[id]; }
  ~Work() { deleted[id]++; }
};
SX_HARNESS(pool) {
  int workers = sx::Pick("workers", 1, sx::Q(2, 3)), n = sx::Pick("tasks", 0, sx::Q(2, 4)), limit = sx::Pick("limit", 0, sx::Q(1, 2)), stop = sx::Pick("stop", 0, 2); bool del = sx::Pick("delete", 0, workers == 1 || sx::Tier() ? 1 : 0);
  coro::start(sx::Q(workers * n >= 4 ? 1 : 2, 3), sx::Q(0, 1)); started = 0; std::sx_queue<Task *>::longest() = 0;
  ThreadPool *pool = new ThreadPool(workers, limit); pool->SetDeleteTasks(del); std::vector<Work *> w;
  for (int i = 0; i < n; i++) { w.push_back(new Work(i)); pool->Submit(w[i]); }
  bool once = true, all = true, fifo = true;
  if (stop == 2) { pool->Wait(); for (int i = 0; i < n; i++) all = all && finished[i]; sx::Assert(all, "waiting returns when all tasks have finished"); }
  pool->Stop(stop != 1);
  for (int i = 0; i < n; i++) { once = once && runs[i] <= 1 && finished[i] == runs[i] && deleted[i] == (del ? runs[i] : 0); all = all && runs[i] == 1; if (i < started) fifo = fifo && order[i] == i; }
  sx::Assert(once, "no task is run twice, left unfinished or deleted too early");
  if (stop != 1) sx::Assert(all, "every task has run when stopping returns"); 
  if (workers == 1 || stop != 1) sx::Assert(workers > 1 || fifo, "one worker runs the tasks in the order of submission");
  sx::Assert(!limit || (int)std::sx_queue<Task *>::longest() <= limit, "the queue does not outgrow its limit");
  bool late = false; Work *x = new Work(7); SX_NOTHROW(pool->Submit(x), late);
  sx::Assert(!late && !runs[7], "nothing is accepted after stopping");
  pool->Stop(true);
  sx::Reach("end");
}
static ThreadPool *shared; static int accepted;
static void submitter(int n) { for (int i = 0; i < n; i++) { bool ok; Work *w = new Work(i); SX_NOTHROW(shared->Submit(w), ok); if (!ok) break; accepted++; } }
SX_HARNESS(clients) {
  int workers = sx::Pick("workers", 1, sx::Q(1, 2)), n = sx::Pick("tasks", 1, 3); bool wait = sx::Pick("wait", 0, 1);
  coro::start(sx::Q(3, 4), 0); started = 0; accepted = 0;
  shared = new ThreadPool(workers, 1); int c = coro::spawn(boost::bind(submitter, n));
  coro::point(); shared->Stop(wait);
  coro::join(c);
  bool once = true; int ran = 0; for (int i = 0; i < accepted; i++) { once = once && runs[i] <= 1 && finished[i] == runs[i]; ran += runs[i]; }
  sx::Assert(once, "no task is run twice");
  if (wait) sx::Assert(ran == accepted, "every accepted task has run when stopping and submitting have returned");
  if (accepted < n) sx::Reach("refused");
  sx::Reach("end");
}
// several threads submit to and wait for the same pool
static int acc[8];
static void submitFrom(int from, int n) { for (int i = from; i < from + n; i++) { shared->Submit(new Work(i)); acc[i] = 1; } }
static void waiter() {
  int before[8]; for (int i = 0; i < 8; i++) before[i] = acc[i];
  coro::point(); shared->Wait(); bool all = true; for (int i = 0; i < 8; i++) all = all && (!before[i] || finished[i]);
  sx::Assert(all, "waiting returns when all tasks submitted before have finished"); sx::Reach("waited");
}
SX_HARNESS(several) {
  int workers = sx::Pick("workers", 1, sx::Q(1, 2)), limit = sx::Pick("limit", sx::Q(1, 0), 1), b = sx::Pick("other tasks", 0, 1), waits = sx::Pick("waiters", 0, sx::Q(1 - b, 2)), a = sx::Pick("tasks", 1, sx::Q(3 - b, 3));
  coro::start(sx::Q(1, 3), 0); started = 0; for (int i = 0; i < 8; i++) acc[i] = runs[i] = finished[i] = 0;
  shared = new ThreadPool(workers, limit); std::vector<int> ts; std::sx_queue<Task *>::longest() = 0;
  ts.push_back(coro::spawn(boost::bind(submitFrom, 0, a))); if (b) ts.push_back(coro::spawn(boost::bind(submitFrom, 4, b))); for (int i = 0; i < waits; i++) ts.push_back(coro::spawn(waiter));
  for (size_t i = 0; i < ts.size(); i++) coro::join(ts[i]);
  waiter(); shared->Stop(true);
  bool once = true; for (int i = 0; i < 8; i++) once = once && runs[i] == acc[i] && finished[i] == acc[i] && (!acc[i] || deleted[i]);
  sx::Assert(once, "every submitted task runs once"); sx::Assert(!limit || (int)std::sx_queue<Task *>::longest() <= limit, "the queue does not outgrow its limit");
  sx::Reach("end");
}
// @reach several waited
// @reach clients refused
