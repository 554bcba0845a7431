// @sources lib/dict.cc lib/util.cc lib/cfg-data.cc lib/sparse-map.cc
// @bounds ops: every sequence of 4 (thorough 5) operations add/look up over strings of length 0..2 over {a,b} with symbolic characters, thread-safe and plain mode, then printing and re-reading the table and copying it
// @bounds words: the same through Dict::WID / WSym on symbolic words of length 1..2
// @bounds threads: 2 (thorough also 3) threads with 2 operations each (add or look up one of 2, thorough 3, strings, then look its id up) on a thread-safe table that may hold one of them already, every schedule with at most 2 (thorough 3) interruptions
// @stub threads: shared and upgradable locks of the table are coroutine locks under a solver-chosen schedule that may switch before every lock and, unless an exclusive lock is held, before every access to the table
// @harness threads quick=45 thorough=300
// @harness ops quick=25 thorough=300
// @harness words quick=10 thorough=100
#include "common.h"
#include <travatar/symbol-set.h>
#include "coro.h"
namespace sx_sync {
// readers, at most one reader that may become the writer, or one writer
class sx_shared_mutex {
  int readers; bool up, wr;
  template <class C> void await(C c) { while (c()) { coro::th[coro::cur]->st = coro::LOCK; coro::th[coro::cur]->on = this; coro::away(); } }
  void wake() { coro::wake(coro::LOCK, this); }
 public:
  sx_shared_mutex() : readers(0), up(false), wr(false) {}
  void lock() { coro::point(); await([this] { return wr || up || readers; }); wr = true; coro::th[coro::cur]->held++; } void unlock() { wr = false; coro::th[coro::cur]->held--; wake(); }
  bool try_lock() { coro::point(); if (wr || up || readers) return false; lock(); return true; }
  void lock_shared() { coro::point(); await([this] { return wr; }); readers++; } void unlock_shared() { readers--; wake(); }
  void lock_upgrade() { coro::point(); await([this] { return wr || up; }); up = true; } void unlock_upgrade() { up = false; wake(); }
  void unlock_upgrade_and_lock() { coro::point(); await([this] { return readers != 0; }); up = false; wr = true; coro::th[coro::cur]->held++; } void unlock_and_lock_upgrade() { wr = false; up = true; coro::th[coro::cur]->held--; wake(); }
};
template <class M, void (M::*L)(), void (M::*U)()> class sx_any_lock {
 protected:
  M *m; bool own; sx_any_lock(const sx_any_lock &); sx_any_lock &operator=(const sx_any_lock &);
 public:
  explicit sx_any_lock(M &x) : m(&x), own(true) { (m->*L)(); } ~sx_any_lock() { if (own) (m->*U)(); }
  void lock() { (m->*L)(); own = true; } void unlock() { (m->*U)(); own = false; } bool owns_lock() const { return own; } M *mutex() const { return m; }
};
template <class M> struct sx_unique_lock : sx_any_lock<M, &M::lock, &M::unlock> { explicit sx_unique_lock(M &x) : sx_any_lock<M, &M::lock, &M::unlock>(x) {} };
template <class M> struct sx_shared_lock : sx_any_lock<M, &M::lock_shared, &M::unlock_shared> { explicit sx_shared_lock(M &x) : sx_any_lock<M, &M::lock_shared, &M::unlock_shared>(x) {} };
template <class M> struct sx_upgrade_lock : sx_any_lock<M, &M::lock_upgrade, &M::unlock_upgrade> { explicit sx_upgrade_lock(M &x) : sx_any_lock<M, &M::lock_upgrade, &M::unlock_upgrade>(x) {} };
template <class M> struct sx_upgraded { sx_upgrade_lock<M> &l; explicit sx_upgraded(sx_upgrade_lock<M> &x) : l(x) { l.mutex()->unlock_upgrade_and_lock(); } ~sx_upgraded() { l.mutex()->unlock_and_lock_upgrade(); } };
}
namespace boost { using namespace sx_sync; template <class K, class V> class sx_shared_map : public std::sx_shared_map<K, V> {}; }
namespace std {
using namespace sx_sync;
template <class T> class sx_shared_vector : public std::vector<T> { typedef std::vector<T> B; public: void push_back(const T &x) { coro::pointUnlocked(); B::push_back(x); } size_t size() const { coro::pointUnlocked(); return B::size(); } T &operator[](size_t i) { coro::pointUnlocked(); return B::operator[](i); } const T &operator[](size_t i) const { coro::pointUnlocked(); return B::operator[](i); } };
}
#undef SYMBOL_SET_H__
#define travatar travatar_co
#define shared_mutex sx_shared_mutex
#define unique_lock sx_unique_lock
#define lock_guard sx_unique_lock
#define shared_lock sx_shared_lock
#define upgrade_lock sx_upgrade_lock
#define upgrade_to_unique_lock sx_upgraded
#define unordered_map sx_shared_map
#define vector sx_shared_vector
#include <travatar/symbol-set.h>
#undef travatar
#undef shared_mutex
#undef unique_lock
#undef lock_guard
#undef shared_lock
#undef upgrade_lock
#undef upgrade_to_unique_lock
#undef unordered_map
#undef vector
#include <travatar/dict.h>
using namespace travatar;
static void checkTable(SymbolSet<int> &s, const std::vector<std::string> &model) {
  sx::Assert(s.size() == model.size(), "one id per distinct string added");
  for (size_t i = 0; i < model.size(); i++) { sx::Assert(s.GetSymbol(i) == model[i], "an id gives back its string"); sx::Assert(s.GetId(model[i]) == (int)i && s.GetId(model[i], true) == (int)i, "a string gives its id"); }
  sx::Assert(s.size() == model.size(), "lookups do not change the table");
}
SX_HARNESS(ops) {
  bool safe = sx::Pick("safe", 0, 1); SymbolSet<int> s(safe); std::vector<std::string> model;
  int n = sx::Q(4, 5);
  for (int i = 0; i < n; i++) {
    std::string w = sx::Str(nm("chars", i), sx::Pick(nm("len", i), i ? 0 : 1, 2), "ab"); bool add = i == 0 || sx::Pick(nm("add", i), 0, 1);
    sx::ConcStr(w);
    int at = -1; for (size_t k = 0; k < model.size(); k++) if (model[k] == w) at = k;
    int id = s.GetId(w, add);
    if (at >= 0) sx::Assert(id == at, "a known string keeps its id");
    else if (add) { sx::Assert(id == (int)model.size(), "a new string gets the next id"); model.push_back(w); }
    else sx::Assert(id == -1, "an unknown string has no id");
    sx::Assert(s.size() == model.size(), "only adding grows the table");
  }
  checkTable(s, model);
  SymbolSet<int> c(s); std::string extra("new"); c.GetId(extra, true); checkTable(s, model);
  model.push_back(extra); checkTable(c, model);
  std::ostringstream os; c.ToStream(os); std::istringstream is(os.str());
  SymbolSet<int> *r = SymbolSet<int>::FromStream(is); checkTable(*r, model); delete r;
  sx::Reach("end");
}
SX_HARNESS(words) {
  std::vector<std::string> ws; std::vector<int> ids;
  for (int i = 0; i < 3; i++) {
    std::string w = sx::Str(nm("chars", i), sx::Pick(nm("len", i), 1, 2), "ab<"); sx::ConcStr(w);
    int known = -1; for (size_t k = 0; k < ws.size(); k++) if (ws[k] == w) known = ids[k];
    int id = Dict::WID(w);
    if (known >= 0) sx::Assert(id == known, "a known word keeps its id");
    if (id >= 0) { sx::Assert(Dict::WSym(id) == w, "a word id gives back the word"); for (size_t k = 0; k < ws.size(); k++) sx::Assert((ids[k] == id) == (ws[k] == w), "distinct words have distinct ids"); ws.push_back(w); ids.push_back(id); }
  }
  for (size_t i = 0; i < ws.size(); i++) sx::Assert(Dict::WSymEscaped(ids[i]) == "\"" + ws[i] + "\"", "escaped form of a word without quotes");
  sx::Assert(Dict::WSymEscaped(-2) == "-2", "variables print as their number");
  sx::Reach("end");
}
static travatar_co::SymbolSet<int> *shared_; static int what[3][2], got[3][2]; static bool adds[3][2]; static std::string back[3][2];
static void user(int t) { for (int i = 0; i < 2; i++) { got[t][i] = shared_->GetId(std::string(1, 'a' + what[t][i]), adds[t][i]); back[t][i] = got[t][i] >= 0 ? shared_->GetSymbol(got[t][i]) : ""; } }
SX_HARNESS(threads) {
  int nt = sx::Pick("threads", 2, sx::Q(2, 3)), voc = sx::Q(1, 2); coro::start(0, 0); shared_ = new travatar_co::SymbolSet<int>(true); bool before = sx::Pick("known before", 0, 1); if (before) shared_->GetId("a", true);
  for (int t = 0; t < nt; t++) for (int i = 0; i < 2; i++) { what[t][i] = sx::Pick(nm("string", t, i), 0, voc); adds[t][i] = sx::Pick(nm("add", t, i), 0, 1); }
  for (int t = 1; t < nt; t++) { int a = 0, b = 0; for (int i = 0; i < 2; i++) { a = a * 8 + what[t - 1][i] * 2 + adds[t - 1][i]; b = b * 8 + what[t][i] * 2 + adds[t][i]; } sx::Assume(a <= b); }   // the threads are alike
  coro::preempt = sx::Q(2, 3); std::vector<int> th; for (int t = 0; t < nt; t++) th.push_back(coro::spawn(boost::bind(user, t))); for (int t = 0; t < nt; t++) coro::join(th[t]);
  coro::preempt = 0; std::map<int, int> id; bool same = true, known = true, text = true; if (before) id[0] = 0;
  for (int t = 0; t < nt; t++) for (int i = 0; i < 2; i++) { int g = got[t][i], w = what[t][i]; if (adds[t][i]) known &= g >= 0; if (before && w == 0) known &= g == 0; if (i && w == what[t][0] && got[t][0] >= 0) known &= g == got[t][0]; if (g >= 0) { same &= !id.count(w) || id[w] == g; id[w] = g; text &= back[t][i] == std::string(1, 'a' + w); } }
  sx::Assert(same, "all threads get the same id for a string"); sx::Assert(known, "a string that was added is found"); sx::Assert(text, "an id gives back its string at once");
  sx::Assert(shared_->size() == id.size() && shared_->hashCapacity() == id.size(), "one id per distinct string added by any thread"); std::set<int> ids; for (std::map<int, int>::iterator it = id.begin(); it != id.end(); ++it) { ids.insert(it->second); sx::Assert(it->second >= 0 && it->second < (int)id.size() && shared_->GetSymbol(it->second) == std::string(1, 'a' + it->first), "the ids are dense and give back their strings"); } sx::Assert(ids.size() == id.size(), "distinct strings have distinct ids"); sx::Reach("end");
}
