/**
 * Meaning of normal forms, and a bound on how large the library's construction can get.
 */
#ifndef VERIF_DNF_H_
#define VERIF_DNF_H_

#include <symbolic/normal_form.h>

#include "world.h"

using Conj = std::pair<ref::State, ref::State>;  // facts required true, required false
using Dnf = std::optional<std::vector<Conj>>;    // none: never; empty: always

inline Dnf Read(const std::optional<symbolic::DisjunctiveFormula>& dnf) {
  if (!dnf.has_value()) return {};
  std::vector<Conj> out;
  for (const auto& conj : dnf->conjunctions) out.emplace_back(Facts(conj.pos()), Facts(conj.neg()));
  return out;
}

inline std::string Show(const Dnf& d) {
  if (!d) return "never";
  if (d->empty()) return "always";
  std::string s;
  for (const Conj& conj : *d) s += (s.empty() ? "" : " | ") + ("+" + Ctx::Str(conj.first) + " -" + Ctx::Str(conj.second));
  return s;
}

// '=' and type literals are decided by the objects.
inline bool AtomTrue(const ref::Model& m, const std::string& f, const ref::State& s) {
  const std::string n = f.substr(0, f.find('('));
  std::string a = f.substr(f.find('(') + 1);
  a.pop_back();
  if (n == "=") {
    const size_t comma = a.find(", ");
    return a.substr(0, comma) == a.substr(comma + 2);
  }
  if (m.IsType(n)) return m.IsSub(m.TypeOf(a), n);
  return s.count(f) > 0;
}

inline bool Holds(const ref::Model& m, const Dnf& d, const ref::State& s) {
  if (!d) return false;
  if (d->empty()) return true;
  for (const Conj& conj : *d) {
    bool ok = true;
    for (const std::string& f : conj.first) ok = ok && AtomTrue(m, f, s);
    for (const std::string& f : conj.second) ok = ok && !AtomTrue(m, f, s);
    if (ok) return true;
  }
  return false;
}

// Upper bound on the number of disjuncts and their length while `f` is normalised bottom-up.
struct Est {
  double n, len;
};
constexpr double kHuge = 1e12;

inline Est Cap(Est e) { return {std::min(e.n, kHuge), std::min(e.len, kHuge)}; }

inline Est Both(Est a, Est b) { return Cap({std::max(a.n, 1.) * std::max(b.n, 1.), a.len + b.len}); }
inline Est Either(Est a, Est b) { return Cap({a.n + b.n, std::max(a.len, b.len)}); }

inline double TupleCount(const ref::Model& m, const ref::Sx& vars) {
  double n = 1;
  for (const auto& v : ref::TypedList(vars.k, 0)) n *= static_cast<double>(m.OfType(v.second).size());
  return n;
}

// `worst` collects the largest intermediate result.
inline Est Size(const ref::Model& m, const ref::Sx& f, double* worst) {
  Est e{1, 1};
  if (f.k.empty()) {
    e = {1, 0};
  } else if (f.head() == "and" || f.head() == "or") {
    e = f.head() == "and" ? Est{1, 0} : Est{0, 0};
    for (size_t i = 1; i < f.k.size(); i++) {
      const Est x = Size(m, f.k[i], worst);
      e = f.head() == "and" ? Both(e, x) : Either(e, x);
    }
  } else if (f.head() == "not") {
    const Est x = Size(m, f.k[1], worst);
    e = Cap({std::pow(std::max(x.len, 1.), x.n), x.n});
  } else if (f.head() == "forall" || f.head() == "exists") {
    const Est x = Size(m, f.k[2], worst);
    const double k = TupleCount(m, f.k[1]);
    e = f.head() == "forall" ? Cap({std::pow(std::max(x.n, 1.), k), x.len * k}) : Cap({x.n * k, x.len});
  }
  *worst = std::max(*worst, e.n);
  return e;
}

inline Est EffectSize(const ref::Model& m, const ref::Sx& f, double* worst) {
  Est e{1, 1};
  if (f.k.empty()) {
    e = {1, 0};
  } else if (f.head() == "and") {
    e = {1, 0};
    for (size_t i = 1; i < f.k.size(); i++) e = Both(e, EffectSize(m, f.k[i], worst));
  } else if (f.head() == "forall") {
    const Est x = EffectSize(m, f.k[2], worst);
    const double k = TupleCount(m, f.k[1]);
    e = Cap({std::pow(std::max(x.n, 1.), k), x.len * k});
  } else if (f.head() == "when") {
    const Est x = Size(m, f.k[1], worst);
    const Est neg = Cap({std::pow(std::max(x.len, 1.), x.n), x.n});
    *worst = std::max(*worst, neg.n);
    e = Either(neg, EffectSize(m, f.k[2], worst));
  }
  *worst = std::max(*worst, e.n);
  return e;
}

#endif  // VERIF_DNF_H_
