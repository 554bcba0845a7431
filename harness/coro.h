// Threads as coroutines under a solver-chosen schedule: stand-ins for boost's mutex, condition variable and thread group.
// A switch may happen before every lock, before a notification, before an unlocked access to a shared variable declared
// through one of the Shared types, and wherever the harness calls coro::point(); the number of switches away from a
// thread that could go on is bounded.
#ifndef SX_CORO_H
#define SX_CORO_H
#include "common.h"
#include <boost/thread.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/condition_variable.hpp>
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <mutex>
#include <condition_variable>
#include <queue>
#include <ucontext.h>
#include <stdlib.h>
namespace coro {
enum State { READY, LOCK, WAIT, JOIN, DONE };
struct Th { ucontext_t ctx; boost::function<void()> fn; State st; const void *on; int held; };
static std::vector<Th *> th; static int cur, preempt, spurious, step; static const char *dead = "no interleaving deadlocks";
inline void start(int switches, int spuriousWakeups) { th.clear(); Th *m = new Th; m->st = READY; m->on = 0; m->held = 0; th.push_back(m); cur = 0; preempt = switches; spurious = spuriousWakeups; step = 0; }
inline void go(int k) { if (k == cur) return; int me = cur; cur = k; swapcontext(&th[me]->ctx, &th[k]->ctx); }
inline int choose(const std::vector<int> &c) { if (c.size() == 1) return c[0]; int s = step++; return c[sx::Pick(nm("switch", s / 100, s % 100), 0, (int)c.size() - 1)]; }
// the current thread cannot go on
inline void away() {
  std::vector<int> c; for (size_t i = 0; i < th.size(); i++) if (th[i]->st == READY) c.push_back(i);
  if (c.empty()) { sx::Assert(false, dead); sx::Assume(false); }
  go(choose(c));
}
// the current thread may be interrupted here
inline void point() {
  if (th.empty() || preempt <= 0) return;
  std::vector<int> c(1, cur); for (size_t i = 0; i < th.size(); i++) if ((int)i != cur && th[i]->st == READY) c.push_back(i);
  int k = choose(c); if (k != cur) { preempt--; go(k); }
}
inline void pointUnlocked() { if (!th.empty() && !th[cur]->held) point(); }
inline void wake(State st, const void *on) { for (size_t i = 0; i < th.size(); i++) if (th[i]->st == st && th[i]->on == on) th[i]->st = READY; }
inline void entry() { th[cur]->fn(); th[cur]->st = DONE; for (size_t i = 0; i < th.size(); i++) if (th[i]->st == JOIN) th[i]->st = READY; away(); }
inline int spawn(const boost::function<void()> &fn) {
  Th *t = new Th; t->fn = fn; t->st = READY; t->on = 0; t->held = 0;
  getcontext(&t->ctx); size_t n = 1 << 18; t->ctx.uc_stack.ss_sp = malloc(n); t->ctx.uc_stack.ss_size = n; t->ctx.uc_link = 0; makecontext(&t->ctx, entry, 0);
  th.push_back(t); return th.size() - 1;
}
inline void join(int k) { while (th[k]->st != DONE) { th[cur]->st = JOIN; away(); } }
}
namespace sx_sync {
class sx_mutex {
  int owner; sx_mutex(const sx_mutex &); sx_mutex &operator=(const sx_mutex &);
 public:
  sx_mutex() : owner(-1) {}
  void take() { while (owner >= 0) { coro::th[coro::cur]->st = coro::LOCK; coro::th[coro::cur]->on = this; coro::away(); } owner = coro::cur; coro::th[coro::cur]->held++; }
  void lock() { coro::point(); take(); }
  bool try_lock() { coro::point(); if (owner >= 0) return false; take(); return true; }
  void unlock() { coro::th[coro::cur]->held--; owner = -1; coro::wake(coro::LOCK, this); }
  class scoped_lock {
    sx_mutex *m; bool own; scoped_lock(const scoped_lock &); scoped_lock &operator=(const scoped_lock &);
   public:
    explicit scoped_lock(sx_mutex &x) : m(&x), own(true) { m->lock(); }
    ~scoped_lock() { if (own) m->unlock(); }
    void lock() { m->lock(); own = true; } void unlock() { m->unlock(); own = false; } bool owns_lock() const { return own; } sx_mutex *mutex() const { return m; }
  };
};
template <class M> class sx_lock : public M::scoped_lock { public: explicit sx_lock(M &x) : M::scoped_lock(x) {} };
class sx_cv {
 public:
  template <class L> void wait(L &l) {
    bool sp = false; if (coro::spurious > 0) { int s = coro::step++; sp = sx::Pick(nm("spurious", s / 100, s % 100), 0, 1); }
    sx_mutex *m = l.mutex(); m->unlock();
    if (sp) { coro::spurious--; coro::point(); } else { coro::th[coro::cur]->st = coro::WAIT; coro::th[coro::cur]->on = this; coro::away(); }
    m->take();
  }
  template <class L, class P> void wait(L &l, P p) { while (!p()) wait(l); }
  void notify_all() { coro::pointUnlocked(); coro::wake(coro::WAIT, this); }
  void notify_one() {
    coro::pointUnlocked(); std::vector<int> c; for (size_t i = 0; i < coro::th.size(); i++) if (coro::th[i]->st == coro::WAIT && coro::th[i]->on == this) c.push_back(i);
    if (!c.empty()) coro::th[coro::choose(c)]->st = coro::READY;
  }
};
class sx_tg {
  std::vector<int> ids;
 public:
  template <class F> void create_thread(F f) { ids.push_back(coro::spawn(boost::function<void()>(f))); }
  void join_all() { coro::pointUnlocked(); for (size_t i = 0; i < ids.size(); i++) coro::join(ids[i]); }
  size_t size() const { return ids.size(); }
};
}
namespace boost { using sx_sync::sx_mutex; using sx_sync::sx_cv; using sx_sync::sx_tg; using sx_sync::sx_lock; }
namespace std { using sx_sync::sx_mutex; using sx_sync::sx_cv; using sx_sync::sx_lock; }
// a variable that threads share
template <class T> class Shared {
  T v;
 public:
  Shared(T x = T()) : v(x) {} Shared(const Shared &o) : v(o) {}
  operator T() const { coro::pointUnlocked(); return v; }
  Shared &operator=(T x) { coro::pointUnlocked(); v = x; return *this; } Shared &operator=(const Shared &o) { return *this = (T)o; }
  T operator++() { coro::pointUnlocked(); return ++v; } T operator--() { coro::pointUnlocked(); return --v; } T operator++(int) { coro::pointUnlocked(); return v++; } T operator--(int) { coro::pointUnlocked(); return v--; }
  Shared &operator+=(T x) { coro::pointUnlocked(); v += x; return *this; } Shared &operator-=(T x) { coro::pointUnlocked(); v -= x; return *this; }
};
typedef Shared<bool> SharedBool; typedef Shared<int> SharedInt;
namespace std {
template <class T, class C = std::deque<T> > class sx_queue {
  std::queue<T, C> q;
 public:
  bool empty() const { coro::pointUnlocked(); return q.empty(); } size_t size() const { coro::pointUnlocked(); return q.size(); }
  T &front() { coro::pointUnlocked(); return q.front(); } T &back() { coro::pointUnlocked(); return q.back(); } void pop() { coro::pointUnlocked(); q.pop(); } void push(const T &x) { coro::pointUnlocked(); q.push(x); if (q.size() > longest()) longest() = q.size(); }
  static size_t &longest() { static size_t n; return n; }
};
template <class K, class V> class sx_shared_map {
  std::map<K, V> m;
 public:
  typedef typename std::map<K, V>::iterator iterator; typedef typename std::map<K, V>::const_iterator const_iterator; typedef typename std::map<K, V>::value_type value_type;
  iterator find(const K &k) { coro::pointUnlocked(); return m.find(k); } iterator begin() { coro::pointUnlocked(); return m.begin(); } iterator end() { return m.end(); }
  V &operator[](const K &k) { coro::pointUnlocked(); return m[k]; } void erase(iterator i) { coro::pointUnlocked(); m.erase(i); } size_t erase(const K &k) { coro::pointUnlocked(); return m.erase(k); }
  std::pair<iterator, bool> insert(const value_type &v) { coro::pointUnlocked(); return m.insert(v); } size_t size() const { coro::pointUnlocked(); return m.size(); } bool empty() const { coro::pointUnlocked(); return m.empty(); } size_t count(const K &k) const { coro::pointUnlocked(); return m.count(k); } void clear() { coro::pointUnlocked(); m.clear(); }
};
}
#endif
