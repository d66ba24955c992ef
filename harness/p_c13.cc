// C13: derived facts against the stratified least model.
#include "structured.h"
#include "world.h"

namespace {

using symbolic::DerivedPredicate;
using symbolic::State;

}  // namespace

void RunCase(Ctx& c) {
  gen::Opts o;
  o.max_objects = c.rng.Range(1, 5);
  o.derived = true;
  o.depth = 2;
  o.max_actions = 2;
  gen::Gen g(&c.rng, o);
  const bool family = c.rng.Chance(9);
  World w;
  if (family) {
    w.d = gen::DerivedFamily(&c.rng);
    c.context = w.d.domain + w.d.problem;
    w.pddl = Load(c, w.d);
    c.Count("domains with chains of rules");
  } else {
    w = MakeWorld(c, &g);
  }
  const symbolic::Pddl& pddl = *w.pddl;
  const ref::Model& m = w.m();
  const auto strata = m.Strata();
  if (!strata) {
    c.Count("rules recursive through negation (skipped)");
    return;
  }
  int max_level = 0;
  for (const auto& kv : *strata) max_level = std::max(max_level, kv.second);
  if (max_level > 0) c.Count("domains needing several strata");
  std::set<std::string> heads;
  for (const ref::Op& d : m.derived) {
    if (!heads.insert(d.name).second) c.Count("rules sharing their predicate");
  }

  std::vector<ref::State> states = {m.init, {}};
  if (family) {
    c.Check(m.Derive(m.init) == Facts(pddl.initial_state()) || m.Basic(m.init) == Facts(pddl.initial_state()), "initial",
            "initial state holds " + Ctx::Str(Facts(pddl.initial_state())));
    for (int k = 0; k < 3; k++) {
      ref::State s = k == 0 ? m.init : m.Derive(m.init);
      const std::vector<std::string> all = m.Atoms(k == 2);
      for (int i = c.rng.Range(1, 2); i > 0 && !all.empty(); i--) {
        const std::string& a = c.rng.Pick(all);
        if (!s.erase(a)) s.insert(a);
      }
      states.push_back(s);
    }
  }
  for (const int p : {10, 30, 50, 70, 100}) {
    if (!family || p == 30) states.push_back(g.RandomState(m, p));
  }
  for (const int p : {30, 70}) {
    if (!family || p == 30) states.push_back(g.RandomState(m, p, true));  // with stale derived facts
  }
  {
    // All derived facts claimed, no basic ones.
    ref::State s;
    for (const std::string& a : m.Atoms()) {
      if (m.IsDerived(a.substr(0, a.find('(')))) s.insert(a);
    }
    states.push_back(s);
  }
  for (const ref::State& s : states) {
    const ref::State expected = m.Derive(s);
    const State state = ToState(pddl, s);
    const State before = state;
    const State got = pddl.DerivedState(state);
    const std::string at = " of " + Ctx::Str(s);
    c.Check(Facts(got) == expected, "derived", "derived state" + at + " is " + Ctx::Str(Facts(got)) + ", expected " + Ctx::Str(expected));
    c.Check(state == before, "input", "DerivedState changed its argument" + at);
    c.Check(pddl.DerivedState(got) == got, "idempotent", "deriving again changes the state" + at);
    c.Check(pddl.DerivedState(ToState(pddl, m.Basic(s))) == got, "stale", "stale derived facts matter" + at);
    // All rules together through the class interface, in place and by value.
    State in_place = state;
    const bool changed = DerivedPredicate::Apply(pddl.derived_predicates(), &in_place);
    c.Check(in_place == got, "in-place", "in-place derivation differs" + at);
    c.Equal(changed, expected != s, "report", "change report of the derivation" + at);
    c.Check(DerivedPredicate::Apply(state, pddl.derived_predicates()) == got, "by-value", "derivation by value differs" + at);
    c.Count(expected.size() > m.Basic(s).size() ? "states with derived facts" : "states without derived facts");
    if (m.Basic(s).size() != s.size()) c.Count("states with stale facts");
    c.Seen(Ctx::Str(s) + Ctx::Str(expected));

    // Successors carry exactly the derived facts of their basic facts, whatever derived facts the state they
    // leave claims or lacks, whether or not the action changes anything, step by step and in sequences.
    std::vector<std::pair<const ref::Op*, ref::Args>> steps;
    for (const ref::Op& op : m.actions) {
      std::vector<ref::Args> tuples = m.Tuples(op.params);
      c.rng.Shuffle(&tuples);
      if (tuples.size() > (family ? 2 : 4)) tuples.resize(family ? 2 : 4);
      for (const ref::Args& t : tuples) steps.emplace_back(&op, t);
    }
    for (const auto& [op, t] : steps) {
      const std::string call = ref::Fact(op->name, t);
      for (const bool derived_first : {true, false}) {
        const ref::State& from = derived_first ? expected : s;
        const State& lib = derived_first ? got : state;
        const std::string where = at + (derived_first ? " derived" : " as it is");
        const ref::State next = m.Next(*op, t, from);
        c.Check(Facts(pddl.NextState(lib, call)) == next, "successor",
                call + where + " gives " + Ctx::Str(Facts(pddl.NextState(lib, call))) + ", expected " + Ctx::Str(next));
        const ref::State applied = Facts(pddl.ApplyActions(lib, {call}));
        c.Check(applied == next, "successor", "ApplyActions of " + call + where + " gives " + Ctx::Str(applied) + ", expected " + Ctx::Str(next));
        c.Count("successors");
        if (m.Basic(next) == m.Basic(from)) {
          c.Count("steps changing nothing");
          if (next != from) c.Count("steps changing only derived facts");
        }
      }
    }
    if (!steps.empty()) {
      std::vector<std::string> calls;
      ref::State now = s;
      const int length = c.rng.Range(2, 5);
      for (int k = 0; k < length; ++k) {
        const auto& [op, t] = c.rng.Pick(steps);
        calls.push_back(ref::Fact(op->name, t));
        now = m.Next(*op, t, now);
      }
      const ref::State end = Facts(pddl.ApplyActions(state, calls));
      c.Check(end == now, "sequence", Ctx::Str(calls) + at + " end in " + Ctx::Str(end) + ", expected " + Ctx::Str(now));
      c.Count("sequences");
    }
  }
  // Goals and preconditions over derived facts along plans from the problem's initial state, judged on the facts
  // each step leaves.
  {
    const ref::State init = Facts(pddl.initial_state());
    for (int k = 0; k < (family ? 4 : 12); ++k) {
      std::vector<std::string> calls;
      ref::State now = init;
      const int length = c.rng.Range(1, 3);
      for (int i = 0; i < length; ++i) {
        std::vector<std::pair<const ref::Op*, ref::Args>> steps;
        for (const ref::Op& op : m.actions) {
          for (const ref::Args& t : m.Tuples(op.params)) {
            if (m.Applicable(op, t, now)) steps.emplace_back(&op, t);
          }
        }
        if (steps.empty()) break;
        const auto& [op, t] = c.rng.Pick(steps);
        calls.push_back(ref::Fact(op->name, t));
        now = m.Next(*op, t, now);
      }
      if (calls.empty()) break;
      const bool goal = m.Eval(m.goal, {}, now);
      c.Equal(pddl.IsValidPlan(calls), goal, "plan", "IsValidPlan(" + Ctx::Str(calls) + ") ending in " + Ctx::Str(now));
      c.Count(goal ? "plans reaching the goal" : "plans not reaching the goal");
    }
  }
  // Search nodes.
  const symbolic::Planner planner(pddl);
  const ref::State root = Facts(planner.root().state());
  int seen = 0;
  for (auto it = planner.root().begin(); it != planner.root().end() && seen < 8; ++it, ++seen) {
    const symbolic::Planner::Node& child = *it;
    const ref::State f = Facts(child.state());
    c.Check(m.Derive(f) == f, "node", "node " + child.action() + " holds " + Ctx::Str(f) + ", justified " + Ctx::Str(m.Derive(f)));
    for (auto it2 = child.begin(); it2 != child.end(); ++it2) {
      const ref::State f2 = Facts((*it2).state());
      c.Check(m.Derive(f2) == f2, "node", "node " + (*it2).action() + " holds " + Ctx::Str(f2) + ", justified " + Ctx::Str(m.Derive(f2)));
      c.Count("search nodes");
      break;
    }
  }
  if (c.idx < 2) c.Sample(w.d.domain);
}
