// C03: combination iterators, tracked move by move against their position. Every eighth generator has up to 2^62
// combinations, which are computed digit by digit.
#include <symbolic/utils/combination_generator.h>

#include <numeric>

#include "common.h"

namespace {

using Ints = std::vector<int>;

// All combinations, leftmost option slowest.
std::vector<Ints> Enumerate(const std::vector<Ints>& options) {
  std::vector<Ints> all;
  if (options.empty()) return all;
  all = {{}};
  for (const Ints& o : options) {
    std::vector<Ints> next;
    for (const Ints& c : all) {
      for (const int e : o) {
        next.push_back(c);
        next.back().push_back(e);
      }
    }
    all.swap(next);
  }
  return all;
}

template <typename It, typename Value>
class Walk {
 public:
  // at(p) is the value expected at walk position p for p in [0, n).
  Walk(Ctx* c, It first, const std::function<Value(long)>& at, long n, const char* kind)
      : c_(*c), it_(first), at_(at), n_(n), kind_(kind), pos_(0) {
    saved_.emplace_back(it_, 0);
  }

  // A position to go to, both end positions included.
  static long Target(Rng* r, long n) {
    const size_t w = r->Below(100);
    if (n < 1000 || w < 60) return static_cast<long>(r->Below(n + 2)) - 1;
    if (w < 70) return static_cast<long>(r->Below(4)) - 1;
    if (w < 80) return n - static_cast<long>(r->Below(4));
    // Where narrow integers end.
    static const int kBits[] = {8, 16, 31, 32, 33, 48};
    const long p = (1L << kBits[r->Below(6)]) + r->Range(-2, 2);
    return p <= n ? p : n / 2;
  }

  void Look(const It& it, long pos, const std::string& how) {
    if (pos < 0 || pos >= n_) return;
    const Value v = at_(pos);
    c_.Check(*it == v, std::string(kind_) + "-value",
             std::string(kind_) + " iterator at position " + std::to_string(pos) + " of " +
                 std::to_string(n_) + " after " + how + " shows " + Ctx::Str(*it) + ", expected " +
                 Ctx::Str(v) + "\nmoves: " + log_);
    c_.Check(it->size() == v.size(), std::string(kind_) + "-arrow", "operator-> disagrees after " + how);
  }

  void Run(int steps) {
    for (int s = 0; s < steps; s++) {
      const int op = c_.rng.Below(12);
      const long target = Target(&c_.rng, n_);
      const long d = target - pos_;
      std::string how;
      switch (op) {
        case 0:
          if (pos_ >= n_) continue;
          ++it_;
          pos_++;
          how = "++";
          break;
        case 1: {
          if (pos_ >= n_) continue;
          const It old = it_++;
          Look(old, pos_, "it++ (old)");
          pos_++;
          how = "it++";
          break;
        }
        case 2:
          if (pos_ < 0) continue;
          --it_;
          pos_--;
          how = "--";
          break;
        case 3: {
          if (pos_ < 0) continue;
          const It old = it_--;
          Look(old, pos_, "it-- (old)");
          pos_--;
          how = "it--";
          break;
        }
        case 4:
          it_ += d;
          pos_ = target;
          how = "+=" + std::to_string(d);
          break;
        case 5:
          it_ -= -d;
          pos_ = target;
          how = "-=" + std::to_string(-d);
          break;
        case 6:
          Look(it_ + d, target, "it + " + std::to_string(d));
          it_ = it_ + d;
          pos_ = target;
          how = "it+" + std::to_string(d);
          break;
        case 7:
          it_ = d + it_;
          pos_ = target;
          how = std::to_string(d) + "+it";
          break;
        case 8:
          it_ = it_ - (-d);
          pos_ = target;
          how = "it-" + std::to_string(-d);
          break;
        case 9: {
          // Jump to a remembered iterator.
          const auto& s2 = c_.rng.Pick(saved_);
          it_ = s2.first;
          pos_ = s2.second;
          how = "=saved@" + std::to_string(pos_);
          break;
        }
        case 10: {
          if (target < 0 || target >= n_) continue;
          const Value v = it_[d];
          c_.Check(v == at_(target), std::string(kind_) + "-index",
                   std::string(kind_) + " it[" + std::to_string(d) + "] at " + std::to_string(pos_) + " gives " +
                       Ctx::Str(v) + ", expected " + Ctx::Str(at_(target)) + "\nmoves: " + log_);
          continue;
        }
        default: {
          const auto& s2 = c_.rng.Pick(saved_);
          const It& o = s2.first;
          const long q = s2.second;
          const std::string where = std::to_string(pos_) + " vs " + std::to_string(q);
          const std::string key = std::string(kind_) + "-compare";
          c_.Equal(it_ == o, pos_ == q, key, "== at " + where);
          c_.Equal(it_ != o, pos_ != q, key, "!= at " + where);
          c_.Equal(it_ < o, pos_ < q, key, "< at " + where);
          c_.Equal(it_ > o, pos_ > q, key, "> at " + where);
          c_.Equal(it_ <= o, pos_ <= q, key, "<= at " + where);
          c_.Equal(it_ >= o, pos_ >= q, key, ">= at " + where);
          c_.Equal(static_cast<long>(it_ - o), static_cast<long>(pos_ - q), std::string(kind_) + "-distance",
                   "distance " + where);
          continue;
        }
      }
      log_ += how + " ";
      if (pos_ == -1 || pos_ == n_) c_.Count("visits to an end position");
      c_.Count("moves");
      Look(it_, pos_, how);
      if (c_.rng.Chance(25)) {
        if (saved_.size() < 6) saved_.emplace_back(it_, pos_);
        else saved_[c_.rng.Below(6)] = {it_, pos_};
      }
    }
    c_.Seen(kind_ + std::to_string(n_) + log_);
  }
  const std::string& log() const { return log_; }

 private:
  Ctx& c_;
  It it_;
  std::function<Value(long)> at_;
  long n_;
  const char* kind_;
  long pos_;
  std::string log_;
  std::vector<std::pair<It, long>> saved_;
};

template <typename F>
std::string Thrown(const F& f) {
  try {
    f();
  } catch (const std::out_of_range&) {
    return "out_of_range";
  } catch (const std::invalid_argument&) {
    return "invalid_argument";
  } catch (const std::exception& e) {
    return std::string("other: ") + e.what();
  }
  return "nothing";
}

template <typename Gen>
std::string Walks(Ctx& c, Gen& g, const std::function<Ints(long)>& at, long n) {
  const Gen& cg = g;
  const auto rat = [&](long p) { return at(n - 1 - p); };
  const int steps = c.rng.Range(10, 60);
  Walk<typename Gen::iterator, Ints> w1(&c, g.begin(), at, n, "forward");
  w1.Run(steps);
  Walk<typename Gen::const_iterator, Ints> w2(&c, cg.begin(), at, n, "const forward");
  w2.Run(steps);
  Walk<typename Gen::reverse_iterator, Ints> w3(&c, g.rbegin(), rat, n, "reverse");
  w3.Run(steps);
  Walk<typename Gen::const_reverse_iterator, Ints> w4(&c, cg.crbegin(), rat, n, "const reverse");
  w4.Run(steps);
  return w1.log();
}

// More combinations than can be enumerated. The options of each list are distinct.
template <typename ContainerT>
void TestLarge(Ctx& c, std::vector<Ints>& lists, long n) {
  using Gen = symbolic::CombinationGenerator<ContainerT>;
  std::vector<ContainerT*> ptrs;
  for (Ints& l : lists) ptrs.push_back(&l);
  Gen g(ptrs);
  const Gen& cg = g;
  const std::function<Ints(long)> at = [&](long p) {
    Ints v(lists.size());
    for (size_t i = lists.size(); i-- > 0;) {
      const long m = static_cast<long>(lists[i].size());
      v[i] = lists[i][p % m];
      p /= m;
    }
    return v;
  };
  c.Equal(static_cast<long>(g.size()), n, "size", "size()");
  c.Check(!g.empty() && g.begin() != g.end(), "empty", "empty() or begin() == end() with " + std::to_string(n) + " combinations");
  c.Equal(static_cast<long>(g.end() - g.begin()), n, "span", "end() - begin()");
  c.Equal(static_cast<long>(cg.rend() - cg.rbegin()), n, "rspan", "rend() - rbegin()");
  for (int k = 0; k < 12; k++) {
    const long p = std::min(n - 1, std::max(0L, Walk<typename Gen::iterator, Ints>::Target(&c.rng, n)));
    const Ints v = at(p);
    c.Check(g[p] == v, "subscript", "[" + std::to_string(p) + "] gives " + Ctx::Str(g[p]) + ", expected " + Ctx::Str(v));
    c.Equal(static_cast<long>(g.find(v)), p, "find", "find(" + Ctx::Str(v) + ")");
    for (const long i : {p, p - n, p + n, p - 2 * n}) {
      if (n > (1L << 61) && i != p && i != p - n) continue;
      const bool ok = i >= -n && i < n;
      Ints got;
      const std::string t = Thrown([&] { got = cg.at(i); });
      c.Equal(t, std::string(ok ? "nothing" : "out_of_range"), "at-bounds", "at(" + std::to_string(i) + ") of " + std::to_string(n) + " threw");
      if (ok && t == "nothing") c.Check(got == v, "at", "at(" + std::to_string(i) + ") gives " + Ctx::Str(got) + ", expected " + Ctx::Str(v));
    }
    Ints foreign = v;
    foreign[c.rng.Below(foreign.size())] = -777;
    c.Equal(Thrown([&] { g.find(foreign); }), std::string("out_of_range"), "find-foreign", "find of a foreign element threw");
  }
  Walks(c, g, at, n);
  c.Count(n > (1L << 31) ? "generators beyond 2^31" : "large generators");
}

template <typename ContainerT>
void Test(Ctx& c, std::vector<Ints>& lists) {
  using Gen = symbolic::CombinationGenerator<ContainerT>;
  std::vector<ContainerT*> ptrs;
  for (Ints& l : lists) ptrs.push_back(&l);

  bool has_empty = false;
  for (const Ints& l : lists) has_empty |= l.empty();
  if (has_empty) {
    c.Equal(Thrown([&] { Gen g(ptrs); }), std::string("invalid_argument"), "empty-option", "constructing with an empty option");
    c.Count("empty options");
    return;
  }
  const std::vector<Ints> all = Enumerate(lists);
  const int n = static_cast<int>(all.size());
  Gen gen(ptrs);
  // Keep using a copy or an assigned generator sometimes.
  const int how = c.rng.Below(4);
  Gen copy(gen);
  Gen assigned;
  assigned = gen;
  Gen& g = how == 0 ? copy : how == 1 ? assigned : gen;
  const Gen& cg = g;

  c.Equal(static_cast<int>(g.size()), n, "size", "size()");
  c.Equal(g.empty(), n == 0, "empty", "empty()");
  c.Equal(g.begin() == g.end(), n == 0, "begin-end", "begin() == end()");
  c.Equal(static_cast<int>(g.end() - g.begin()), n, "span", "end() - begin()");
  c.Equal(static_cast<int>(g.rend() - g.rbegin()), n, "rspan", "rend() - rbegin()");

  // Whole passes, both ways, through all kinds of iterators.
  std::vector<Ints> fwd, bwd, cfwd, cbwd;
  for (const auto& v : g) fwd.push_back(v);
  for (auto it = cg.begin(); it != cg.end(); ++it) cfwd.push_back(*it);
  for (auto it = g.rbegin(); it != g.rend(); ++it) bwd.push_back(*it);
  for (auto it = cg.crbegin(); it != cg.crend(); it++) cbwd.push_back(*it);
  std::vector<Ints> rev(all.rbegin(), all.rend());
  c.Check(fwd == all, "pass", "forward pass gives " + Ctx::Str(fwd) + ", expected " + Ctx::Str(all));
  c.Check(cfwd == all, "pass", "const forward pass gives " + Ctx::Str(cfwd) + ", expected " + Ctx::Str(all));
  c.Check(bwd == rev, "rpass", "reverse pass gives " + Ctx::Str(bwd) + ", expected " + Ctx::Str(rev));
  c.Check(cbwd == rev, "rpass", "const reverse pass gives " + Ctx::Str(cbwd) + ", expected " + Ctx::Str(rev));
  {
    std::vector<Ints> down;
    auto it = g.end();
    while (it != g.begin()) {
      --it;
      down.push_back(*it);
    }
    c.Check(down == rev, "down", "stepping down from end() gives " + Ctx::Str(down) + ", expected " + Ctx::Str(rev));
    auto it2 = cg.cend();
    for (int i = 0; i < n; i++) {
      it2 -= 1;
      c.Check(*it2 == rev[i], "down", "-= 1 from cend() shows " + Ctx::Str(*it2) + ", expected " + Ctx::Str(rev[i]));
    }
  }

  // Access by index and by value.
  for (int k = 0; k < 12; k++) {
    const int i = c.rng.Range(-2 * n - 1, 2 * n + 1);
    const int w = i < 0 ? i + n : i;
    const bool ok = w >= 0 && w < n;
    Ints got;
    const std::string t = Thrown([&] { got = g.at(i); });
    c.Equal(t, std::string(ok ? "nothing" : "out_of_range"), "at-bounds", "at(" + std::to_string(i) + ") of " + std::to_string(n) + " threw");
    if (ok && t == "nothing") c.Check(got == all[w], "at", "at(" + std::to_string(i) + ") gives " + Ctx::Str(got) + ", expected " + Ctx::Str(all[w]));
    c.Count(ok ? "checked accesses in range" : "checked accesses out of range");
  }
  for (int i = 0; i < n && i < 60; i++) {
    const int j = n <= 60 ? i : c.rng.Below(n);
    c.Check(g[j] == all[j], "subscript", "[" + std::to_string(j) + "] gives " + Ctx::Str(g[j]) + ", expected " + Ctx::Str(all[j]));
    const int f = g.find(all[j]);
    c.Check(f >= 0 && f < n && all[f] == all[j], "find", "find(" + Ctx::Str(all[j]) + ") gives " + std::to_string(f) + ", expected " + std::to_string(j));
  }
  if (n > 0) {
    Ints foreign = c.rng.Pick(all);
    foreign[c.rng.Below(foreign.size())] = 777;
    c.Equal(Thrown([&] { g.find(foreign); }), std::string("out_of_range"), "find-foreign", "find of a foreign element threw");
  }
  // Combinations of another length.
  for (int k = 0; k < 2; k++) {
    Ints other = n > 0 ? c.rng.Pick(all) : Ints();
    const size_t len = n > 0 ? other.size() : lists.size();
    other.resize(c.rng.Below(len + 3), lists.empty() || lists[0].empty() ? 1 : lists[0][0]);
    if (n > 0 && other.size() == len) continue;
    c.Equal(Thrown([&] { g.find(other); }), std::string("out_of_range"), "find-length",
            "find of " + Ctx::Str(other) + " among combinations of " + std::to_string(len) + " threw");
    c.Count("lookups of another length");
  }

  const auto log = Walks(c, g, [&](long p) { return all[p]; }, n);
  if (c.idx < 3) c.Sample("options " + Ctx::Str(lists) + "; moves: " + log);
}

}  // namespace

void RunLarge(Ctx& c) {
  const int bits = c.rng.Range(8, 62);
  const int k = c.rng.Range(1, 12);
  std::vector<Ints> lists;
  long total = 1;
  std::string sizes;
  for (int i = 0; i < k; i++) {
    long m = c.rng.Chance(1) ? c.rng.Range(255, 66000) : c.rng.Chance(30) ? 1 << c.rng.Range(0, 9) : c.rng.Range(1, c.rng.Chance(30) ? 400 : 40);
    if (m > (1L << bits) / total) m = 1;
    total *= m;
    Ints l(m);
    std::iota(l.begin(), l.end(), c.rng.Range(0, 5));
    lists.push_back(l);
    sizes += " " + std::to_string(m);
  }
  c.context = "lists of sizes" + sizes;
  c.Count("generators");
  if (c.rng.Chance(50)) TestLarge<const Ints>(c, lists, total);
  else TestLarge<Ints>(c, lists, total);
}

void RunCase(Ctx& c) {
  if (c.rng.Chance(12)) return RunLarge(c);
  std::vector<Ints> lists;
  const int k = c.rng.Chance(8) ? 0 : c.rng.Range(1, 4);
  int next = 1;
  size_t total = 1;
  for (int i = 0; i < k; i++) {
    int m = c.rng.Chance(3) ? 0 : c.rng.Range(1, c.rng.Chance(30) ? 7 : 3);
    if (total * std::max(m, 1) > 600) m = 1;
    total *= std::max(m, 1);
    Ints l;
    for (int j = 0; j < m; j++) l.push_back(c.rng.Chance(4) && !l.empty() ? l[c.rng.Below(l.size())] : next++);
    if (c.rng.Chance(50)) c.rng.Shuffle(&l);
    if (c.rng.Chance(20) && !lists.empty() && !l.empty()) l = lists.back();  // the same option twice
    lists.push_back(l);
  }
  c.context = "options " + Ctx::Str(lists);
  c.Count("generators");
  if (c.rng.Chance(50)) Test<const Ints>(c, lists);
  else Test<Ints>(c, lists);
}
