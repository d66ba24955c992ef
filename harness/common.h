/**
 * Case driver shared by all checks: seeding, journal, violation log, coverage counters.
 *
 * A check defines  void RunCase(Ctx& c);  and gets main() from main.cc. Case i of seed s is a
 * function of (s, i) alone, so `--only i` replays it.
 */
#ifndef VERIF_COMMON_H_
#define VERIF_COMMON_H_

#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

class Rng {
 public:
  explicit Rng(uint64_t seed = 1) : s_(seed) {}
  uint64_t Next() {
    uint64_t z = (s_ += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  // Uniform in [0, n)
  size_t Below(size_t n) { return n == 0 ? 0 : static_cast<size_t>(Next() % n); }
  int Range(int lo, int hi) { return lo + static_cast<int>(Below(hi - lo + 1)); }
  bool Chance(int percent) { return Below(100) < static_cast<size_t>(percent); }
  template <typename T>
  const T& Pick(const std::vector<T>& v) {
    return v[Below(v.size())];
  }
  template <typename T>
  void Shuffle(std::vector<T>* v) {
    for (size_t i = v->size(); i > 1; i--) std::swap((*v)[i - 1], (*v)[Below(i)]);
  }

 private:
  uint64_t s_;
};

inline uint64_t Fnv(const std::string& s, uint64_t h = 1469598103934665603ULL) {
  for (const char c : s) h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ULL;
  return h;
}

// Thrown by Ctx::Require to end the case.
struct CaseEnd {};

struct Violation {
  uint64_t idx;
  std::string key;
  std::string msg;
};

class Ctx {
 public:
  uint64_t seed = 1;
  uint64_t idx = 0;
  bool thorough = false;
  bool replay = false;
  std::string tmpdir;
  Rng rng;

  // Text shown with a violation of this case.
  std::string context;

  // Records a violation. `key` classifies it (known findings are matched by key).
  void Fail(const std::string& key, const std::string& msg) {
    if (violations.size() < 200) violations.push_back({idx, key, msg + (context.empty() ? "" : "\n" + context)});
    num_failed++;
  }
  bool Check(bool ok, const std::string& key, const std::string& msg) {
    evaluations++;
    if (!ok) Fail(key, msg);
    return ok;
  }
  template <typename A, typename B>
  bool Equal(const A& actual, const B& expected, const std::string& key, const std::string& what) {
    evaluations++;
    if (actual == expected) return true;
    std::stringstream ss;
    ss << what << ": got " << Str(actual) << ", expected " << Str(expected);
    Fail(key, ss.str());
    return false;
  }
  void Count(const std::string& name, uint64_t n = 1) { counters[name] += n; }
  void Seen(const std::string& what) { distinct.insert(Fnv(what)); }
  void Sample(const std::string& s) {
    if (samples.size() < 3) samples.push_back(s);
  }

  static std::string Str(const std::string& s) { return "'" + s + "'"; }
  static std::string Str(const char* s) { return s; }
  static std::string Str(bool b) { return b ? "true" : "false"; }
  template <typename A, typename B>
  static std::string Str(const std::pair<A, B>& p) {
    return "<" + Str(p.first) + ", " + Str(p.second) + ">";
  }
  template <typename T, typename = decltype(std::declval<T>().begin())>
  static std::string Str(const T& t) {
    std::string s = "{";
    std::string sep;
    for (const auto& x : t) {
      s += sep + Str(x);
      sep = ", ";
    }
    return s + "}";
  }
  template <typename T, typename = decltype(std::to_string(std::declval<T>())), typename = void>
  static std::string Str(const T& t) {
    return std::to_string(t);
  }

  std::vector<Violation> violations;
  uint64_t num_failed = 0;
  uint64_t evaluations = 0;
  std::map<std::string, uint64_t> counters;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
};

// Defined by each check.
void RunCase(Ctx& c);

inline void WriteFile(const std::string& path, const std::string& text) {
  FILE* f = fopen(path.c_str(), "w");
  if (f == nullptr) {
    perror(path.c_str());
    abort();
  }
  fwrite(text.data(), 1, text.size(), f);
  fclose(f);
}

#endif  // VERIF_COMMON_H_
