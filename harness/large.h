/**
 * Worlds with many objects and long parameter lists, whose facts and tuples cannot be enumerated.
 */
#ifndef VERIF_LARGE_H_
#define VERIF_LARGE_H_

#include "world.h"

namespace large {

struct Pred {
  std::string name;
  std::vector<std::vector<std::string>> options;  // object names per parameter
  long size = 1;
};

struct LargeWorld {
  gen::Dom d;
  std::unique_ptr<symbolic::Pddl> pddl;
  std::vector<Pred> preds;
  std::map<std::string, std::vector<std::string>> members;  // type -> objects
  long size = 0;
};

inline LargeWorld Make(Ctx& c) {
  LargeWorld w;
  const int n = c.rng.Range(10, 130);
  static const std::vector<std::string> kTypes = {"a", "b", "c"};  // c is a kind of b
  std::string objects;
  for (int i = 0; i < n; i++) {
    const std::string& t = c.rng.Pick(kTypes);
    const std::string o = "o" + std::to_string(i);
    objects += " " + o + " - " + t;
    w.members[t].push_back(o);
    if (t == "c") w.members["b"].push_back(o);
    w.members["object"].push_back(o);
  }
  std::string text = "(define (domain large) (:requirements :strips :typing)\n (:types a b - object c - b)\n (:predicates";
  const long cap = 1L << c.rng.Range(20, 60);
  for (int k = c.rng.Range(1, 5); k > 0; k--) {
    Pred p;
    p.name = "p" + std::to_string(k);
    text += " (" + p.name;
    for (int i = c.rng.Range(0, 9); i > 0; i--) {
      static const std::vector<std::string> kAll = {"a", "b", "c", "object"};
      const std::string& t = c.rng.Pick(kAll);
      const long m = static_cast<long>(w.members[t].size());
      if (p.size > cap / std::max(m, 1L)) break;
      p.size *= m;
      p.options.push_back(w.members[t]);
      text += " ?x" + std::to_string(i) + " - " + t;
    }
    text += ")";
    w.preds.push_back(p);
    w.size += p.size;
  }
  w.d.domain = text + "))\n";
  w.d.problem = "(define (problem prob) (:domain large)\n (:objects" + objects + ")\n (:init)\n (:goal (and)))\n";
  c.context = w.d.domain + w.d.problem;
  w.pddl = Load(c, w.d);
  return w;
}

inline ref::Args Tuple(Ctx& c, const Pred& p) {
  ref::Args args;
  for (const auto& o : p.options) args.push_back(c.rng.Pick(o));
  return args;
}

inline long Position(Ctx& c, long n) {
  const size_t w = c.rng.Below(100);
  if (w < 50) return static_cast<long>(c.rng.Below(n));
  if (w < 70) return std::min<long>(n - 1, c.rng.Below(4));
  if (w < 80) return std::max<long>(0, n - 1 - static_cast<long>(c.rng.Below(4)));
  static const int kBits[] = {8, 16, 31, 32, 33, 48};
  return std::min(n - 1, (1L << kBits[c.rng.Below(6)]) + c.rng.Range(-2, 2));
}

}  // namespace large

#endif  // VERIF_LARGE_H_
