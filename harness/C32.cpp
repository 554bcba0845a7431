// @sources marisa/marisa/keyset.cc marisa/marisa/trie.cc marisa/marisa/agent.cc marisa/marisa/grimoire/vector/bit-vector.cc marisa/marisa/grimoire/io/reader.cc marisa/marisa/grimoire/io/writer.cc marisa/marisa/grimoire/io/mapper.cc marisa/marisa/grimoire/trie/tail.cc marisa/marisa/grimoire/trie/louds-trie.cc
// @bounds short: every list of up to 3 keys (repeats allowed, any order) of length 0..3 (the third 0..2; thorough up to 4 keys) over {a,b} or {a,NUL}, 16 option sets
// @bounds pool: every subset of 11 longer keys (sharing prefixes and suffixes so that nested tries and tails occur), option sets as above, saved and loaded or mapped or neither
// @bounds wide: pairs of bytes (quick: one is k, 0 or 255 or they are neighbours; thorough all) over all 256 byte values in keys of three shapes
// @bounds large: five families of 20..700 (quick 300) keys (different long tails, common tails, decimal numbers, repeated keys, words of two letters), options as above, saved and loaded or mapped or neither; every key, some keys with any byte at one position, prefixes and extensions of some keys, every id
// @harness large quick=40 thorough=200
// @bounds longtails: 24 (thorough 40) keys with random tails of 1100 or 3600 letters, one or two tries, text or binary tails; every key, every id, two keys with any byte at one position
// @harness longtails quick=15 thorough=60
// @bounds queries: every string of up to 3 characters over the alphabet, every key, every prefix of a key and every key extended by a character; every id
// @harness shortkeys quick=30 thorough=400
// @harness pool quick=40 thorough=300
// @harness wide quick=20 thorough=200
#include "common.h"
#include <marisa/trie.h>
#include <marisa/keyset.h>
#include <marisa/agent.h>
#include <marisa/iostream.h>
#include <string.h>
typedef std::set<std::string> Keys;
static int options(bool cache) {
  static const int tries[] = {1, 2, 3, 16}, ord[] = {MARISA_LABEL_ORDER, MARISA_WEIGHT_ORDER}, tail[] = {MARISA_TEXT_TAIL, MARISA_BINARY_TAIL}, ch[] = {MARISA_NORMAL_CACHE, MARISA_TINY_CACHE, MARISA_HUGE_CACHE};
  int k = sx::Pick("tries", 0, sx::Q(1, 3)); if (!sx::Tier() && k == 1) k = 2;
  return tries[k] | ord[sx::Pick("order", 0, 1)] | tail[sx::Pick("tail", 0, 1)] | ch[cache ? sx::Pick("cache", 0, 2) : 1];
}
static void ask(const marisa::Trie &t, const Keys &keys, const std::vector<std::string> &byId, const std::string &q) {
  marisa::Agent a; a.set_query(q.data(), q.size()); bool f = t.lookup(a);
  sx::Assert(f == (keys.count(q) > 0), "a string is found if and only if it is a key");
  if (f) { sx::Assert(a.key().id() < byId.size() && byId[a.key().id()] == q, "the id found is the id of the key"); sx::Assert(std::string(a.key().ptr(), a.key().length()) == q, "the key found is the string asked for"); }
  marisa::Agent p; p.set_query(q.data(), q.size()); size_t last = 0; Keys got, want;
  while (t.common_prefix_search(p)) { std::string k(p.key().ptr(), p.key().length()); sx::Assert(got.insert(k).second && k.size() >= last, "prefixes are listed once, shortest first"); last = k.size(); sx::Assert(p.key().id() < byId.size() && byId[p.key().id()] == k, "listed prefixes come with their ids"); }
  for (Keys::const_iterator i = keys.begin(); i != keys.end(); ++i) if (q.compare(0, i->size(), *i) == 0 && i->size() <= q.size()) want.insert(*i);
  sx::Assert(got == want, "exactly the keys that are prefixes of the query are listed"); got.clear(); want.clear();
  marisa::Agent e; e.set_query(q.data(), q.size());
  while (t.predictive_search(e)) { std::string k(e.key().ptr(), e.key().length()); sx::Assert(got.insert(k).second, "extensions are listed once"); sx::Assert(e.key().id() < byId.size() && byId[e.key().id()] == k, "listed extensions come with their ids"); }
  for (Keys::const_iterator i = keys.begin(); i != keys.end(); ++i) if (i->compare(0, q.size(), q) == 0) want.insert(*i);
  sx::Assert(got == want, "exactly the keys that extend the query are listed");
}
static void judge(const marisa::Trie &t, const Keys &keys, const std::string &alphabet, int depth) {
  sx::Assert(t.num_keys() == keys.size() && t.size() == keys.size(), "the number of keys is the number of distinct strings");
  std::vector<std::string> byId; Keys seen;
  for (size_t i = 0; i < keys.size(); i++) {
    marisa::Agent a; a.set_query(i); t.reverse_lookup(a); std::string k(a.key().ptr(), a.key().length()); byId.push_back(k);
    sx::Assert(keys.count(k) > 0 && seen.insert(k).second && a.key().id() == i, "each id maps back to a key of its own");
  }
  Keys q; q.insert("");
  for (Keys::const_iterator i = keys.begin(); i != keys.end(); ++i) { for (size_t l = 1; l <= i->size(); l++) q.insert(i->substr(0, l)); for (size_t c = 0; c < alphabet.size(); c++) q.insert(*i + alphabet[c]); }
  std::vector<std::string> layer(1, ""); for (int d = 0; d < depth; d++) { std::vector<std::string> nx; for (size_t i = 0; i < layer.size(); i++) for (size_t c = 0; c < alphabet.size(); c++) nx.push_back(layer[i] + alphabet[c]); q.insert(nx.begin(), nx.end()); layer = nx; }
  for (Keys::const_iterator i = q.begin(); i != q.end(); ++i) ask(t, keys, byId, *i);
}
static void whole(const std::vector<std::string> &list, int flags, const std::string &alphabet, int depth, int io) {
  marisa::Keyset ks; Keys keys; for (size_t i = 0; i < list.size(); i++) { ks.push_back(list[i].data(), list[i].size(), (float)(1 + (i * 7 + 3) % 5)); keys.insert(list[i]); }
  marisa::Trie t; t.build(ks, flags);
  for (size_t i = 0; i < list.size(); i++) { marisa::Agent a; a.set_query(ks[i].id()); t.reverse_lookup(a); sx::Assert(std::string(a.key().ptr(), a.key().length()) == list[i], "building tells each key its id"); }
  if (!io) { judge(t, keys, alphabet, depth); return; }
  std::ostringstream os; os << t; std::string img = os.str(); sx::Assert(img.size() == t.io_size(), "the size announced is the size written"); marisa::Trie u;
  if (io == 1) { std::istringstream is(img); is >> u; judge(u, keys, alphabet, depth); sx::Reach("loaded"); }
  else { std::vector<uint64_t> al(img.size() / 8 + 1); memcpy(&al[0], img.data(), img.size()); u.map(&al[0], img.size()); judge(u, keys, alphabet, depth); sx::Reach("mapped"); }
}
SX_HARNESS(shortkeys) {
  int n = sx::Pick("keys", 0, sx::Q(3, 4)); std::string al = sx::Pick("NUL", 0, 1) ? std::string("a\0", 2) : "ab"; std::vector<std::string> list;
  for (int i = 0; i < n; i++) { int v = sx::Pick(nm("key", i), 0, i < 2 ? 14 : sx::Q(6, 14)); std::string s; if (v > 6) { for (int b = 4; b; b /= 2) s += al[((v - 7) & b) ? 1 : 0]; } else if (v > 2) { s += al[(v - 3) / 2]; s += al[(v - 3) % 2]; } else if (v) s += al[v - 1]; list.push_back(s); }
  whole(list, options(false), al, 3, sx::Tier() ? sx::Pick("serialise", 0, 2) : 0); sx::Reach("end");
}
// @reach pool loaded
// @reach pool mapped
SX_HARNESS(pool) {
  static const char *const P[] = {"abcabcabcabc", "abcabcabcabd", "xabcabcabc", "abcab", "bcabcabc", "aaaaaaaaaa", "aaaaaaaaab", "", "ba", "xxabcabcabd", "bcabcabd"};
  std::vector<std::string> list; int n = sx::Q(10, 11); for (int i = 0; i < n; i++) if (sx::Pick(nm("in", i), 0, 1)) list.push_back(P[i]);
  int io = sx::Pick("serialise", 0, 2); whole(list, options(io == 0 && sx::Tier()), "abx", 2, io); sx::Reach("end");
}
SX_HARNESS(wide) {
  int shape = sx::Pick("shape", 0, 2); std::vector<std::string> list; std::string al; int v[2] = {sx::Int("byte0", 0, 255), sx::Int("byte1", 0, 255)};
  if (!sx::Tier()) sx::Assume(sx::Or(sx::Or(v[0] == 'k', v[1] == 0), sx::Or(v[1] == 255, v[0] == v[1] + 1)));
  for (int i = 0; i < 2; i++) { char c = (char)sx::Conc(v[i]); al += c; if (shape == 0) list.push_back(std::string(1, c)); else if (shape == 1) list.push_back(std::string("k") + c + "tail"); else list.push_back(std::string(2, c) + (i ? "tail" : "")); }
  whole(list, MARISA_WEIGHT_ORDER | (shape == 1 ? MARISA_BINARY_TAIL : MARISA_TEXT_TAIL) | (shape == 2 ? 1 : 2) | MARISA_NORMAL_CACHE, al + "k", 1, 0); sx::Reach("end");
}
// sets beyond the small sizes: links and tails with numbers of several bytes, sorting of many keys, full caches
static std::string family(int kind, int i) {
  unsigned h = i * 2654435761u; std::string s; char buf[16];
  if (kind == 0) { s += (char)('a' + i % 20); s += (char)('a' + i / 20 % 20); s += (char)('a' + i / 400); for (int k = 0; k < 6; k++) { s += (char)('a' + h % 23); h = h / 23 + h * 7; } }
  else if (kind == 1) { s += (char)('a' + i % 20); s += (char)('a' + i / 20 % 20); s += (char)('a' + i / 400); s += (i & 1) ? "ization" : (i & 2) ? "ational" : "ing"; }
  else if (kind == 2) { snprintf(buf, sizeof buf, "%d", i); s = buf; }
  else if (kind == 3) { snprintf(buf, sizeof buf, "%d", i / 3 * 37 % 1000); s = std::string(buf) + "/" + buf; }
  else { s = std::string(1 + i % 20, 'a') + std::string(1 + i / 20, 'b'); if (i % 7 == 3) s += '\0'; }
  return s;
}
// few keys with long tails, so that places in the tail storage need three bytes
SX_HARNESS(longtails) {
  int flags = MARISA_LABEL_ORDER | (sx::Pick("tail", 0, 1) ? MARISA_BINARY_TAIL : MARISA_TEXT_TAIL) | (sx::Pick("tries", 0, 1) ? 2 : 1) | MARISA_TINY_CACHE, n = sx::Q(24, 40), len = sx::Pick("length", 0, 1) ? 3600 : 1100;
  std::vector<std::string> list; marisa::Keyset ks; for (int i = 0; i < n; i++) { std::string k(1, (char)('A' + i)); unsigned h = i * 2654435761u + 1; for (int j = 0; j < len + i; j++) { h = h * 1664525u + 1013904223u; k += (char)('a' + (h >> 24) % 26); } list.push_back(k); ks.push_back(k.data(), k.size()); }
  marisa::Trie t; t.build(ks, flags); bool ok = t.num_keys() == (size_t)n;
  for (int i = 0; i < n; i++) { marisa::Agent a; a.set_query(list[i].data(), list[i].size()); ok = ok && t.lookup(a) && a.key().id() == ks[i].id(); marisa::Agent r; r.set_query(ks[i].id()); t.reverse_lookup(r); ok = ok && r.key().length() == list[i].size() && !memcmp(r.key().ptr(), list[i].data(), list[i].size());
    marisa::Agent p; p.set_query(list[i].data(), 1); int found = 0; while (t.predictive_search(p)) { found++; ok = ok && p.key().length() == list[i].size() && !memcmp(p.key().ptr(), list[i].data(), list[i].size()) && p.key().id() == ks[i].id(); } ok = ok && found == 1; }
  sx::Assert(ok, "every long key is found, and comes back from its id");
  int which = sx::Pick("key", 0, 1) ? n - 1 : n / 2; std::string q = list[which]; int at = sx::Pick("position", 0, 1) ? (int)q.size() - 1 : (int)q.size() / 2; char was = q[at]; q[at] = (char)sx::Int("byte", 0, 255);
  marisa::Agent a; a.set_query(q.data(), q.size()); bool found = t.lookup(a); sx::Assert(found == (q[at] == was), "a string is found if and only if it is a key");
  sx::Reach("end");
}
SX_HARNESS(large) {
  static const int sizes[] = {20, 300, 700}; int kind = sx::Pick("family", 0, 4), n = sizes[sx::Pick("size", sx::Q(1, 0), sx::Q(1, 2))]; int flags = options(sx::Tier() || kind == 0), io = sx::Tier() ? sx::Pick("serialise", 0, 2) : kind % 3;
  std::vector<std::string> list; Keys keys; marisa::Keyset ks; for (int i = 0; i < n; i++) { list.push_back(family(kind, i)); ks.push_back(list[i].data(), list[i].size(), (float)(1 + i * 7 % 13)); keys.insert(list[i]); }
  marisa::Trie t, u; t.build(ks, flags); const marisa::Trie *use = &t; std::vector<uint64_t> al;
  if (io) { std::ostringstream os; os << t; std::string img = os.str(); sx::Assert(img.size() == t.io_size(), "the size announced is the size written"); use = &u; if (io == 1) { std::istringstream is(img); is >> u; } else { al.resize(img.size() / 8 + 1); memcpy(&al[0], img.data(), img.size()); u.map(&al[0], img.size()); } }
  sx::Assert(use->num_keys() == keys.size(), "the number of keys is the number of distinct strings");
  std::vector<std::string> byId; Keys seen; bool ok = true;
  for (size_t i = 0; i < keys.size(); i++) { marisa::Agent a; a.set_query(i); use->reverse_lookup(a); std::string k(a.key().ptr(), a.key().length()); byId.push_back(k); ok = ok && keys.count(k) && seen.insert(k).second; }
  sx::Assert(ok, "each id maps back to a key of its own");
  for (int i = 0; i < n; i++) { marisa::Agent a; a.set_query(list[i].data(), list[i].size()); ok = ok && use->lookup(a) && byId[a.key().id()] == list[i] && ks[i].id() == a.key().id(); }
  sx::Assert(ok, "every key is found with its id, which building told");
  for (int i = 5; i < n; i += n / 4) { ask(*use, keys, byId, list[i]); ask(*use, keys, byId, list[i].substr(0, list[i].size() / 2)); ask(*use, keys, byId, list[i] + "x"); ask(*use, keys, byId, list[i] + list[i]); }
  ask(*use, keys, byId, ""); ask(*use, keys, byId, list[n / 2].substr(0, 1));
  // one byte of a key is any byte
  int which = sx::Pick("key", 0, 1), place = sx::Tier() ? sx::Pick("position", 0, 1) : which; std::string q = list[which ? n / 3 : n - 1]; int at = place ? (int)q.size() - 1 : (int)q.size() / 3; q[at] = (char)sx::Int("byte", 0, 255);
  marisa::Agent a; a.set_query(q.data(), q.size()); bool found = use->lookup(a), key = false;
  for (Keys::const_iterator i = keys.begin(); i != keys.end(); ++i) if (i->size() == q.size()) { bool e = true; for (size_t k = 0; k < q.size() && e; k++) if ((int)k != at) e = (*i)[k] == q[k]; if (e) key = sx::Or(key, (*i)[at] == q[at]); }
  sx::Assert(found == key, "a string is found if and only if it is a key");
  sx::Reach("end");
}
