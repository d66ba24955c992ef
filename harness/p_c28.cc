// C28: the set containers against std::set, for element types of every kind of hash.
#include <symbolic/utils/hash_set.h>
#include <symbolic/utils/unique_vector.h>

#include <memory>
#include <set>

#include "common.h"

namespace {

using symbolic::HashSet;
using symbolic::UniqueVector;

// Elements with a hash of chosen quality. One that was moved from must not be used again, except to be assigned or
// destroyed.
struct Element {
  std::unique_ptr<std::string> text;
  uint64_t hash = 0;
  Element(const std::string& t, uint64_t h) : text(std::make_unique<std::string>(t)), hash(h) {}
  Element(const Element& o) : text(o.text ? std::make_unique<std::string>(*o.text) : nullptr), hash(o.hash) {}
  Element(Element&& o) noexcept = default;
  Element& operator=(const Element& o) {
    text = o.text ? std::make_unique<std::string>(*o.text) : nullptr;
    hash = o.hash;
    return *this;
  }
  Element& operator=(Element&& o) noexcept = default;
  const std::string& Text() const {
    if (!text) throw std::logic_error("an element that was moved from is used");
    return *text;
  }
  friend bool operator==(const Element& a, const Element& b) { return a.Text() == b.Text(); }
  friend bool operator!=(const Element& a, const Element& b) { return a.Text() != b.Text(); }
  friend bool operator<(const Element& a, const Element& b) { return a.Text() < b.Text(); }
};

// Stands for an element in queries.
struct Query {
  const std::string* text;
  uint64_t hash;
  operator Element() const { return Element(*text, hash); }
  friend bool operator<(const Element& a, const Query& b) { return a.Text() < *b.text; }
  friend bool operator==(const Element& a, const Query& b) { return a.Text() == *b.text; }
  friend bool operator!=(const Element& a, const Query& b) { return a.Text() != *b.text; }
};

std::string Text(const Element& e) { return e.Text(); }
std::string Text(const std::string& s) { return s; }
std::string Text(int i) { return std::to_string(i); }

}  // namespace

namespace std {
template <>
struct hash<Element> {
  size_t operator()(const Element& e) const {
    e.Text();
    return e.hash;
  }
};
template <>
struct hash<Query> {
  size_t operator()(const Query& q) const { return q.hash; }
};
}  // namespace std

namespace {

template <typename T>
std::string Show(const std::set<T>& s) {
  std::string t;
  for (const T& x : s) t += Text(x) + " ";
  return "{ " + t + "}";
}

// Iterators must visit the positions of the first pass, whichever way they go.
template <typename It, typename T>
void Walk(Ctx& c, const It& begin, const It& end, const std::vector<T>& fwd, const std::string& at) {
  const size_t n = fwd.size();
  {
    It it = end;
    for (size_t i = n; i-- > 0;) {
      --it;
      c.Check(*it == fwd[i], "backwards", "backwards, position " + std::to_string(i) + " shows " + Text(*it) + at);
    }
    c.Check(it == begin, "backwards", "a backward pass does not end at the beginning" + at);
  }
  size_t pos = c.rng.Below(2) * n;
  It it = pos == 0 ? begin : end;
  for (int k = c.rng.Range(0, 15); k > 0 && n > 0; k--) {
    const bool back = pos == n || (pos > 0 && c.rng.Chance(50));
    if (c.rng.Chance(50)) {
      back ? --it : ++it;
    } else {
      const It old = back ? it-- : it++;
      if (pos < n) c.Check(*old == fwd[pos], "walk", "value of a postfix move" + at);
    }
    pos += back ? -1 : 1;
    c.Check((it == begin) == (pos == 0) && (it == end) == (pos == n) && (it != end) == (pos != n), "walk", "at position " + std::to_string(pos) + at);
    if (pos < n) c.Check(*it == fwd[pos], "walk", "position " + std::to_string(pos) + " shows " + Text(*it) + at);
    c.Count("moves of iterators");
  }
}

template <typename T>
void Iterators(Ctx& c, HashSet<T>& s, std::vector<T>* fwd, const std::string& at) {
  const HashSet<T>& cs = s;
  for (const T& x : cs) fwd->push_back(x);
  std::vector<T> mut;
  for (auto it = s.begin(); it != s.end(); it++) mut.push_back(*it);
  c.Check(mut == *fwd, "iterate", "the two kinds of iterators differ" + at);
  Walk(c, cs.begin(), cs.end(), *fwd, at);
  Walk(c, s.begin(), s.end(), *fwd, at);
}
template <typename T>
void Iterators(Ctx& c, UniqueVector<T>& s, std::vector<T>* fwd, const std::string& at) {
  const UniqueVector<T>& cs = s;
  for (const T& x : cs) fwd->push_back(x);
  for (size_t i = 1; i < fwd->size(); i++) {
    c.Check((*fwd)[i - 1] < (*fwd)[i], "sorted", "elements out of order" + at);
  }
  Walk(c, cs.begin(), cs.end(), *fwd, at);
}

template <typename S, typename T>
void Observe(Ctx& c, S& s, const std::set<T>& m, const std::vector<T>& pool, const std::string& at) {
  c.Equal(s.size(), m.size(), "size", "size()" + at);
  c.Equal(s.empty(), m.empty(), "size", "empty()" + at);
  std::vector<T> fwd;
  Iterators(c, s, &fwd, at);
  c.Check(fwd.size() == m.size() && std::set<T>(fwd.begin(), fwd.end()) == m, "elements", "holds " + Show(std::set<T>(fwd.begin(), fwd.end())) + " (" + std::to_string(fwd.size()) + ")" + at);
  for (const T& x : pool) c.Check(s.contains(x) == (m.count(x) > 0), "contains", "contains(" + Text(x) + ")" + at);
}

template <typename T>
bool Emplace(UniqueVector<T>* s, const T& x) { return s->emplace(x); }
template <typename T>
bool Emplace(HashSet<T>* s, const T& x) { return s->insert(x); }

template <typename S>
int AskOther(S&, const int&, int) { return -1; }
template <typename S>
int AskOther(S&, const std::string&, int) { return -1; }
template <typename S>
int AskOther(S& s, const Element& e, int what) {
  const Query q{e.text.get(), e.hash};
  return what == 0 ? s.contains(q) : what == 1 ? s.insert(q) : s.erase(q);
}

template <typename S, typename T>
void Run(Ctx& c, const std::vector<T>& pool, const std::string& kind) {
  Rng& r = c.rng;
  constexpr int kSlots = 3;
  std::vector<std::pair<S, std::set<T>>> slots(kSlots);
  std::string log;
  const int steps = r.Range(10, 120);
  const int grow = r.Pick(std::vector<int>{30, 50, 70, 90});
  for (int k = 0; k < steps; k++) {
    const int i = static_cast<int>(r.Below(kSlots));
    S& s = slots[i].first;
    std::set<T>& m = slots[i].second;
    const T& x = r.Pick(pool);
    const std::string at = " after: " + log;
    const size_t op = r.Below(20);
    if (op < 14) {
      const bool in = r.Chance(grow);
      const bool expected = in ? m.insert(x).second : m.erase(x) > 0;
      log += std::to_string(i) + (in ? "+" : "-") + Text(x) + " ";
      bool got = false;
      const int other = r.Chance(15) ? AskOther(s, x, in ? 1 : 2) : -1;
      if (other >= 0) {
        got = other != 0;
        c.Count("operations through another type");
      } else if (in) {
        switch (r.Below(3)) {
          case 0: got = s.insert(x); break;
          case 1: got = s.insert(T(x)); break;
          default: got = Emplace(&s, x);
        }
      } else if (expected && r.Chance(40)) {
        // By the set's own element.
        auto it = s.begin();
        while (!(*it == x)) ++it;
        got = s.erase(*it);
        c.Count("removals of the set's own element");
      } else {
        got = s.erase(x);
      }
      c.Equal(got, expected, in ? "insert" : "erase", "report of the last step of " + log);
      c.Check(s.contains(x) == in, "contains", Text(x) + at);
      c.Count("operations");
    } else if (op == 14) {
      const int j = static_cast<int>(r.Below(kSlots));
      log += std::to_string(i) + "=" + std::to_string(j) + " ";
      slots[i] = slots[j];
    } else if (op == 15) {
      const int j = static_cast<int>(r.Below(kSlots));
      log += std::to_string(i) + "<>" + std::to_string(j) + " ";
      if (i != j) std::swap(slots[i], slots[j]);
    } else if (op == 16) {
      log += std::to_string(i) + " moved ";
      S moved(std::move(s));
      s = S();
      Observe(c, s, {}, pool, " (reassigned)" + at);
      if (r.Chance(70)) s = std::move(moved);
      else m.clear();
    } else if (op == 17) {
      const T &y = r.Pick(pool), &z = r.Pick(pool);
      log += std::to_string(i) + "={" + Text(x) + " " + Text(y) + " " + Text(z) + "} ";
      s = S{x, y, z, x};
      m = {x, y, z};
    } else if (op == 18) {
      // Removed to the end, or to a few.
      log += std::to_string(i) + " drained ";
      const size_t keep = r.Chance(50) ? 0 : r.Below(4);
      while (m.size() > keep) {
        const T y = *std::next(m.begin(), r.Below(m.size()));
        m.erase(y);
        c.Equal(s.erase(y), true, "erase", "removing " + Text(y) + at);
      }
    } else {
      for (const T& y : pool) {
        const int got = AskOther(s, y, 0);
        if (got >= 0) c.Check((got != 0) == (m.count(y) > 0), "contains", "through another type" + at);
      }
    }
    if (r.Chance(25)) Observe(c, slots[i].first, slots[i].second, pool, " in " + kind + " " + std::to_string(i) + " after: " + log);
    if (log.size() > 5000) log = "(long) ";
  }
  // Equality and order do not depend on the history.
  std::vector<std::pair<S, std::set<T>>> fam = slots;
  for (const auto& x : slots) {
    std::vector<T> v(x.second.begin(), x.second.end());
    r.Shuffle(&v);
    S again;
    // On a detour.
    const size_t detour = r.Below(pool.size() + 1);
    for (size_t k = 0; k < detour; k++) again.insert(pool[k]);
    for (const T& e : v) again.insert(e);
    for (size_t k = 0; k < detour; k++) {
      if (x.second.count(pool[k]) == 0) again.erase(pool[k]);
    }
    fam.emplace_back(again, x.second);
    S almost(again);
    std::set<T> m = x.second;
    const T& e = r.Pick(pool);
    m.insert(e).second ? almost.insert(e) : (m.erase(e), almost.erase(e));
    fam.emplace_back(almost, m);
  }
  for (const auto& x : fam) {
    for (const auto& y : fam) {
      const bool same = x.second == y.second;
      const std::string at = " of " + Show(x.second) + " and " + Show(y.second) + " after: " + log;
      c.Equal(x.first == y.first, same, "equality", "==" + at);
      c.Equal(x.first != y.first, !same, "equality", "!=" + at);
      c.Equal((x.first < y.first) + (y.first < x.first), same ? 0 : 1, "order", "directions of <" + at);
      for (const auto& z : fam) {
        if (x.first < y.first && y.first < z.first) c.Check(x.first < z.first, "order", "< is not transitive" + at);
        if (same) c.Check((x.first < z.first) == (y.first < z.first), "order", "order depends on the history" + at);
      }
    }
    c.Seen(kind + Show(x.second));
  }
  for (auto& x : slots) Observe(c, x.first, x.second, pool, " in " + kind + " at the end of: " + log);
  c.Count(kind);
  if (c.idx < 3) c.Sample(kind + ": " + log.substr(0, 500));
}

}  // namespace

void RunCase(Ctx& c) {
  Rng& r = c.rng;
  const int n = r.Pick(std::vector<int>{1, 2, 5, 10, 30, 80});
  switch (r.Below(5)) {
    case 0: {
      std::vector<int> pool;
      // Integers hash to themselves: all in one bucket, spread out, or negative.
      const int step = r.Pick(std::vector<int>{1, 7, 15, 105, 1023});
      for (int i = 0; i < n; i++) pool.push_back((r.Chance(20) ? -1 : 1) * i * step);
      r.Shuffle(&pool);
      if (r.Chance(30)) Run<UniqueVector<int>>(c, pool, "vector of integers");
      else Run<HashSet<int>>(c, pool, "set of integers");
      break;
    }
    case 1: {
      std::vector<std::string> pool;
      for (int i = 0; i < n; i++) pool.push_back(std::string(r.Below(40), 'x') + std::to_string(i));
      if (r.Chance(30)) Run<UniqueVector<std::string>>(c, pool, "vector of strings");
      else Run<HashSet<std::string>>(c, pool, "set of strings");
      break;
    }
    default: {
      std::vector<Element> pool;
      const uint64_t kinds = r.Pick(std::vector<uint64_t>{1, 2, 3, 8, 1000000});
      const bool high = r.Chance(30);
      for (int i = 0; i < n; i++) {
        uint64_t h = r.Below(kinds);
        if (high) h = ~h;  // also hashes beyond the range of int
        pool.emplace_back("e" + std::to_string(i), h);
      }
      if (r.Chance(25)) Run<UniqueVector<Element>>(c, pool, "vector of elements");
      else Run<HashSet<Element>>(c, pool, kinds < 10 ? "set of colliding elements" : "set of elements");
    }
  }
}
