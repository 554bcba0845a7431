// @sources kenlm/util/exception.cc kenlm/util/scoped.cc
// @bounds fixed: tables of 2..5 buckets, every sequence of 4 (thorough 5) operations (insert of a new key, find-or-insert, in-place update) over keys 1..6, then every key looked up
// @bounds growing: initial sizes 0..3, every sequence of 4 (thorough 6) insertions of keys 1..7 through either entry point
// @bounds memory: values are symbolic 0..1000
// @harness fixed quick=25 thorough=300
// @harness growing quick=25 thorough=300
// @harness doubling quick=20 thorough=200
#include "common.h"
#include "util/probing_hash_table.hh"
#include <cstring>
struct Entry { typedef unsigned Key; unsigned key; int value; unsigned GetKey() const { return key; } void SetKey(unsigned k) { key = k; } };
typedef util::ProbingHashTable<Entry, util::IdentityHash> Table;
typedef util::AutoProbing<Entry, util::IdentityHash> Auto;
typedef std::map<unsigned, int> Model;
template <class T> static void checkAll(const T &t, const Model &m, unsigned maxKey) {
  for (unsigned k = 1; k <= maxKey; k++) {
    typename T::ConstIterator it; bool f = t.Find(k, it);
    sx::Assert(f == (m.count(k) > 0), "a key is found if and only if it was inserted");
    if (f) sx::Assert(it->key == k && it->value == m.find(k)->second, "a key is found with its value");
    if (f) sx::Assert(t.MustFind(k) == it, "MustFind agrees with Find");
  }
}
SX_HARNESS(fixed) {
  int buckets = sx::Pick("buckets", 2, 5), n = sx::Q(4, 5); std::vector<Entry> mem(buckets);
  Table t(&mem[0], buckets * sizeof(Entry)); t.Clear(); Model m;
  for (int i = 0; i < n; i++) {
    Entry e; e.key = sx::Pick(nm("key", i), 1, sx::Q(5, 6)); e.value = sx::Int(nm("value", i), 0, 1000); int op = sx::Pick(nm("op", i), 0, 1);
    bool full = (int)m.size() + 1 >= buckets, threw = false; Table::MutableIterator it = 0;
    if (op == 0 && !m.count(e.key)) {
      try { it = t.Insert(e); } catch (util::ProbingSizeException &) { threw = true; }
      sx::Assert(threw == full, "inserting into a full table is reported"); if (threw) break;
      m[e.key] = e.value; sx::Assert(it->key == e.key && it->value == e.value, "Insert returns the entry");
    } else {
      bool found = false; bool had = m.count(e.key);
      try { found = t.FindOrInsert(e, it); } catch (util::ProbingSizeException &) { threw = true; }
      sx::Assert(threw == (full && !had), "find-or-insert into a full table is reported"); if (threw) break;
      sx::Assert(found == had, "find-or-insert tells whether the key was there");
      if (!had) m[e.key] = e.value; sx::Assert(it->key == e.key && it->value == m[e.key], "find-or-insert returns the entry of the key");
      it->value = e.value; m[e.key] = e.value;
    }
    sx::Assert(t.SizeNoSerialization() == m.size(), "the size is the number of distinct keys");
    checkAll(t, m, 6);
  }
  int seen = 0; for (int i = 0; i < buckets; i++) if (mem[i].key) { seen++; sx::Assert(m.count(mem[i].key) > 0, "only inserted keys are stored"); }
  sx::Assert(seen <= (int)m.size() + 0, "every key is stored once");
  std::vector<Entry> moved(mem); t.Relocate(&moved[0]); mem.assign(buckets, Entry()); checkAll(t, m, 6);
  t.Clear(); sx::Assert(t.SizeNoSerialization() == 0, "a cleared table is empty"); checkAll(t, Model(), 6);
  sx::Reach("end");
}
SX_HARNESS(growing) {
  Auto t(sx::Pick("initial", 0, 3)); Model m; int n = sx::Q(4, 6);
  for (int i = 0; i < n; i++) {
    Entry e; e.key = sx::Pick(nm("key", i), 1, sx::Q(i < 2 ? 5 : 7, 7)); e.value = sx::Int(nm("value", i), 0, 1000); bool had = m.count(e.key); Auto::MutableIterator it = 0;
    if (!had && sx::Pick(nm("op", i), 0, 1)) { it = t.Insert(e); m[e.key] = e.value; }
    else { bool f = t.FindOrInsert(e, it); sx::Assert(f == had, "find-or-insert tells whether the key was there"); if (!had) m[e.key] = e.value; }
    sx::Assert(it->key == e.key && it->value == m[e.key], "the entry of the key is returned");
    sx::Assert(t.Size() == m.size(), "the size is the number of distinct keys");
    checkAll(t, m, 7);
  }
  sx::Reach("end");
}
// growing in place keeps every entry reachable, wherever chains wrap around
SX_HARNESS(doubling) {
  int buckets = sx::Pick("buckets", 2, sx::Q(4, 5)), n = sx::Pick("n", 0, buckets - 1); std::vector<Entry> mem(buckets * 4); memset(&mem[0], 0xee, mem.size() * sizeof(Entry));
  Table t(&mem[0], buckets * sizeof(Entry)); t.Clear(); Model m;
  for (int i = 0; i < n; i++) { Entry e; e.key = sx::Pick(nm("key", i), 1, sx::Q(9, 11)); if (m.count(e.key)) continue; e.value = i; t.Insert(e); m[e.key] = i; }
  sx::Assert(t.DoubleTo() == 2 * buckets * sizeof(Entry), "memory needed to double");
  t.Double(&mem[0]); checkAll(t, m, 11); sx::Assert(t.SizeNoSerialization() == m.size(), "doubling keeps the size");
  Entry x; x.key = sx::Pick("extra", 1, 11); x.value = 77; Table::MutableIterator it; if (!t.FindOrInsert(x, it)) m[x.key] = 77; checkAll(t, m, 11);
  t.Double(&mem[0]); checkAll(t, m, 11);
  sx::Reach("end");
}
