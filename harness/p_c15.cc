// C15: state validity against the axioms.
#include "structured.h"
#include "world.h"

namespace {

using symbolic::Axiom;
using symbolic::PartialState;
using symbolic::State;

}  // namespace

void RunCase(Ctx& c) {
  gen::Opts o;
  o.max_objects = c.rng.Range(1, 5);
  o.depth = 1;
  o.axioms = !c.rng.Chance(3);
  o.axiom_constraints = c.rng.Chance(60);
  o.axiom_guards = c.rng.Chance(30);
  o.axiom_forall = c.rng.Chance(30) ? 50 : 12;
  o.axiom_static = c.rng.Chance(10);
  o.max_atoms = 120;
  gen::Gen g(&c.rng, o);
  World w;
  const bool chain = c.rng.Chance(20);
  w.d = chain ? gen::Chain(&c.rng) : g.Make();
  if (chain) c.Count("chains of waiting consequences");
  c.context = w.d.domain + w.d.problem;
  w.pddl = Load(c, w.d, false);
  const symbolic::Pddl& pddl = *w.pddl;
  const ref::Model& m = w.m();
  const auto axs = m.GroundAxioms();
  const std::vector<std::string> atoms = m.Atoms();
  bool guards = false;
  for (const auto& ga : axs) guards |= !ga.guard_pos.empty() || !ga.guard_neg.empty();
  if (guards) c.Count("domains with conditional consequences");
  if (m.axioms.empty()) c.Count("domains without axioms");

  std::vector<ref::State> states = {m.init, {}};
  for (const int p : {3, 10, 30, 60, 90, 100}) states.push_back(g.RandomState(m, p));
  const size_t n = states.size();
  for (size_t i = 0; i < n; i++) {
    const auto closed = ref::Model::Close(axs, states[i]);
    if (!closed) continue;
    states.push_back(*closed);
    // One fact away from valid.
    for (int k = 0; k < 3 && !atoms.empty(); k++) {
      ref::State s = *closed;
      const std::string& a = c.rng.Pick(atoms);
      if (!s.insert(a).second) s.erase(a);
      states.push_back(s);
    }
  }
  for (const ref::State& s : states) {
    const State state = ToState(pddl, s);
    const State before = state;
    const bool valid = ref::Model::Valid(axs, s);
    c.Equal(pddl.IsValidState(state), valid, "full", "validity of " + Ctx::Str(s));
    c.Check(state == before, "input", "the validity check changed " + Ctx::Str(s));
    bool all = true;
    for (size_t i = 0; i < pddl.axioms().size() && i < m.axioms.size(); i++) {
      std::vector<ref::Model::GroundAxiom> own;
      for (const auto& ga : axs) {
        if (ga.op == &m.axioms[i]) own.push_back(ga);
      }
      const bool one = pddl.axioms()[i]->IsConsistent(state);
      all &= one;
      c.Equal(one, ref::Model::Valid(own, s), "single", "validity of " + Ctx::Str(s) + " under axiom " + std::to_string(i));
    }
    c.Equal(all, valid, "single", "all axioms taken one by one on " + Ctx::Str(s));
    c.Equal(pddl.IsValidState(state), valid, "repeat", "validity, asked again, of " + Ctx::Str(s));
    c.Count(valid ? "valid states" : "invalid states");
    c.Seen(Ctx::Str(s));
  }

  for (int k = 0; k < 30; k++) {
    ref::State pos, neg;
    const ref::State& s = c.rng.Pick(states);
    const int known = c.rng.Pick(std::vector<int>{5, 20, 50, 90, 100});
    for (const std::string& a : atoms) {
      if (c.rng.Chance(known)) (s.count(a) ? pos : neg).insert(a);
    }
    // Known for certain: the initial facts, or none.
    if (k % 5 == 4) {
      pos = m.init;
      neg.clear();
      for (const std::string& a : atoms) {
        if (!pos.count(a) && c.rng.Chance(k % 2 ? 0 : 30)) neg.insert(a);
      }
    }
    auto closed = ref::Model::Close(axs, pos, neg);
    if (closed && k % 5 != 0 && closed->first.size() + closed->second.size() > pos.size() + neg.size()) {
      // The opposite of one thing that follows.
      std::vector<std::pair<std::string, bool>> follows;
      for (const std::string& a : closed->first) {
        if (!pos.count(a)) follows.emplace_back(a, true);
      }
      for (const std::string& a : closed->second) {
        if (!neg.count(a)) follows.emplace_back(a, false);
      }
      const auto& f = c.rng.Pick(follows);
      (f.second ? neg : pos).insert(f.first);
      closed = ref::Model::Close(axs, pos, neg);
      c.Count(closed ? "consequences denied, valid" : "consequences denied, invalid");
    } else if (closed && c.rng.Chance(50)) {
      pos = closed->first;
      neg = closed->second;
    }
    const PartialState state(ToState(pddl, pos), ToState(pddl, neg));
    const PartialState before = state;
    const bool valid = closed.has_value();
    const std::string at = "+" + Ctx::Str(pos) + " -" + Ctx::Str(neg);
    c.Equal(pddl.IsValidState(state), valid, "partial", "validity of " + at);
    c.Check(state == before, "input", "the validity check changed " + at);
    c.Equal(Axiom::IsConsistent(pddl.axioms(), state), valid, "partial", "validity through Axiom::IsConsistent of " + at);
    for (size_t i = 0; i < pddl.axioms().size() && i < m.axioms.size(); i++) {
      std::vector<ref::Model::GroundAxiom> own;
      for (const auto& ga : axs) {
        if (ga.op == &m.axioms[i]) own.push_back(ga);
      }
      const bool one = pddl.axioms()[i]->IsConsistent(state);
      if (valid) c.Check(one, "partial-single", at + " satisfies all axioms but not axiom " + std::to_string(i));
      if (!ref::Model::Close(own, pos, neg)) c.Check(!one, "partial-single", at + " contradicts axiom " + std::to_string(i) + ", which accepts it");
    }
    c.Equal(pddl.IsValidState(state), valid, "repeat", "validity, asked again, of " + at);
    c.Count(valid ? "valid partial states" : "invalid partial states");
    c.Seen(at);
  }
  if (c.idx < 2) c.Sample(w.d.domain);
}
