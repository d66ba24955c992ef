/**
 * A generated domain loaded into the library, next to its reference model.
 */
#ifndef VERIF_WORLD_H_
#define VERIF_WORLD_H_

#include <symbolic/pddl.h>
#include <symbolic/planning/planner.h>
#include <unistd.h>

#include <memory>

#include "common.h"
#include "gen.h"
#include "ref.h"

inline ref::State Facts(const symbolic::State& s) {
  ref::State out;
  for (const symbolic::Proposition& p : s) out.insert(p.to_string());
  return out;
}

inline symbolic::State ToState(const symbolic::Pddl& pddl, const ref::State& s) {
  symbolic::State out;
  for (const std::string& f : s) out.emplace(pddl, f);
  return out;
}

inline std::vector<symbolic::Object> ToArgs(const symbolic::Pddl& pddl, const ref::Args& args) {
  return symbolic::Object::ParseArguments(pddl, args);
}

inline ref::Args Names(const std::vector<symbolic::Object>& args) {
  ref::Args out;
  for (const symbolic::Object& o : args) out.push_back(o.name());
  return out;
}

inline std::string DomainPath(const Ctx& c) { return c.tmpdir + "/domain.pddl"; }

inline std::unique_ptr<symbolic::Pddl> Load(Ctx& c, const gen::Dom& d, bool apply_axioms = true) {
  WriteFile(DomainPath(c), d.domain);
  if (apply_axioms && c.rng.Chance(50)) return std::make_unique<symbolic::Pddl>(DomainPath(c), d.problem);  // the default
  return std::make_unique<symbolic::Pddl>(DomainPath(c), d.problem, apply_axioms);
}

struct World {
  gen::Dom d;
  std::unique_ptr<symbolic::Pddl> pddl;
  const ref::Model& m() const { return d.m; }
};

inline World MakeWorld(Ctx& c, gen::Gen* g, bool apply_axioms = true) {
  World w;
  w.d = g->Make();
  c.context = w.d.domain + w.d.problem;
  w.pddl = Load(c, w.d, apply_axioms);
  return w;
}

inline const symbolic::Action& FindAction(const symbolic::Pddl& pddl, const std::string& name) {
  for (const symbolic::Action& a : pddl.actions()) {
    if (a.name() == name) return a;
  }
  throw std::runtime_error("harness: no action " + name + " in Pddl::actions()");
}

// Kind of exception thrown by f, or "".
template <typename F>
std::string Throws(const F& f) {
  try {
    f();
  } catch (const CaseEnd&) {
    throw;
  } catch (const std::exception& e) {
    return std::string("threw: ") + e.what();
  }
  return "";
}

#endif  // VERIF_WORLD_H_
