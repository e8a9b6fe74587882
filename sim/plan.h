// A plan is everything a simulated run depends on, as text: scalar knobs, and a list of
// items (faults, dropouts, schedule decisions) that the minimiser can remove one by one.
#pragma once
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include "prng.h"

namespace sim {

struct Plan {
  std::string prop;
  uint64_t seed = 0;
  std::map<std::string, std::string> kv;
  std::vector<std::string> items;

  bool has(const std::string &k) const { return kv.count(k) > 0; }
  std::string str(const std::string &k, const std::string &d = "") const {
    auto it = kv.find(k);
    return it == kv.end() ? d : it->second;
  }
  int64_t i(const std::string &k, int64_t d = 0) const {
    auto it = kv.find(k);
    return it == kv.end() ? d : std::stoll(it->second);
  }
  uint64_t u(const std::string &k, uint64_t d = 0) const {
    auto it = kv.find(k);
    return it == kv.end() ? d : std::stoull(it->second);
  }
  double d(const std::string &k, double dv = 0) const {
    auto it = kv.find(k);
    return it == kv.end() ? dv : std::stod(it->second);
  }
  std::vector<double> list(const std::string &k) const {
    std::vector<double> r;
    std::istringstream is(str(k));
    double x;
    while (is >> x)
      r.push_back(x);
    return r;
  }
  template <class T> void set(const std::string &k, const T &v) {
    std::ostringstream os;
    os.precision(17);
    os << v;
    kv[k] = os.str();
  }
  void add(const std::string &s) { items.push_back(s); }
  std::vector<std::vector<std::string>> itemsOf(const std::string &kind) const {
    std::vector<std::vector<std::string>> r;
    for (const auto &s : items) {
      std::istringstream is(s);
      std::vector<std::string> w;
      std::string x;
      while (is >> x)
        w.push_back(x);
      if (!w.empty() && w[0] == kind)
        r.push_back(w);
    }
    return r;
  }

  std::string text() const {
    std::ostringstream os;
    os << "prop " << prop << "\nseed " << seed << "\n";
    for (auto &x : kv)
      os << "set " << x.first << " " << x.second << "\n";
    for (auto &s : items)
      os << "item " << s << "\n";
    return os.str();
  }
  static Plan parse(std::istream &in) {
    Plan p;
    std::string line;
    while (std::getline(in, line)) {
      if (line.empty() || line[0] == '#')
        continue;
      std::istringstream is(line);
      std::string w;
      is >> w;
      if (w == "prop")
        is >> p.prop;
      else if (w == "seed")
        is >> p.seed;
      else if (w == "set") {
        std::string k, v;
        is >> k;
        std::getline(is, v);
        if (!v.empty() && v[0] == ' ')
          v.erase(0, 1);
        p.kv[k] = v;
      } else if (w == "item") {
        std::string v;
        std::getline(is, v);
        if (!v.empty() && v[0] == ' ')
          v.erase(0, 1);
        p.items.push_back(v);
      }
    }
    return p;
  }
};

} // namespace sim
