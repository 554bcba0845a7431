// Shared helpers of the harnesses (reference oracles and input builders).
#ifndef SX_COMMON_H
#define SX_COMMON_H
#include "sx.h"
#include <vector>
#include <string>
#include <set>
#include <map>
#include <algorithm>
#include <sstream>
#include <iostream>
#include <stdexcept>
#include <boost/shared_ptr.hpp>
#include <boost/foreach.hpp>
// A name that is unique per index, for counterexample listings.
inline const char *nm(const char *p, int i, int j = -1) {
  static std::set<std::string> pool;
  std::string s = p; s += char('0' + i / 10 % 10); s += char('0' + i % 10);
  if (j >= 0) { s += '_'; s += char('0' + j / 10 % 10); s += char('0' + j % 10); }
  return pool.insert(s).first->c_str();
}
// runs the code, false when it throws a std::exception
#define SX_NOTHROW(stmt, ok) try { stmt; ok = true; } catch (std::exception &) { ok = false; }
#endif
