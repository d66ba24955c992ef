// C16: plan, transition, goal and validity verdicts against step-by-step execution.
#include "world.h"

namespace {

using symbolic::State;

}  // namespace

void RunCase(Ctx& c) {
  gen::Opts o;
  o.max_objects = c.rng.Range(1, 5);
  o.max_actions = 4;
  o.depth = c.rng.Range(1, 2);
  o.derived = c.rng.Chance(30);
  gen::Gen g(&c.rng, o);
  World w;
  w.d = g.Make();
  // Goals that are often reached: sometimes the facts of a reachable state.
  if (c.rng.Chance(60)) {
    const ref::Model& m = w.d.m;
    ref::State s = m.init;
    for (int k = 0; k < 4; k++) {
      std::vector<std::pair<const ref::Op*, ref::Args>> valid;
      for (const ref::Op& op : m.actions) {
        for (const ref::Args& t : m.Tuples(op.params)) {
          if (m.Applicable(op, t, s)) valid.emplace_back(&op, t);
        }
      }
      if (valid.empty()) break;
      const auto& v = c.rng.Pick(valid);
      s = m.Next(*v.first, v.second, s);
    }
    std::vector<ref::Sx> k = {gen::Gen::A("and")};
    for (const std::string& a : m.Atoms()) {
      if (!c.rng.Chance(25)) continue;
      const ref::Sx f = ref::Parse(gen::Gen::FactSx(a));
      k.push_back(s.count(a) ? f : gen::Gen::L({gen::Gen::A("not"), f}));
    }
    w.d.m.goal = gen::Gen::L(k);
    gen::Gen::Render(&w.d);
  }
  c.context = w.d.domain + w.d.problem;
  w.pddl = Load(c, w.d);
  const symbolic::Pddl& pddl = *w.pddl;
  const ref::Model& m = w.m();
  const std::vector<std::string> atoms = m.Atoms();
  const ref::State init = Facts(pddl.initial_state());
  c.Check(m.Basic(init) == m.init, "initial", "initial basic facts " + Ctx::Str(init) + ", expected " + Ctx::Str(m.init));

  // Plans: guided walks with mutations.
  for (int k = 0; k < 12; k++) {
    ref::State s = init;
    std::vector<std::string> calls;
    bool valid = true;
    const int len = c.rng.Below(6);
    const int stray = c.rng.Pick(std::vector<int>{0, 0, 15, 50});
    for (int n = 0; n < len; n++) {
      std::vector<std::pair<const ref::Op*, ref::Args>> good, any;
      for (const ref::Op& op : m.actions) {
        for (const ref::Args& t : m.Tuples(op.params)) {
          any.emplace_back(&op, t);
          if (m.Applicable(op, t, s)) good.emplace_back(&op, t);
        }
      }
      if (any.empty()) break;
      const auto& choice = !good.empty() && !c.rng.Chance(stray) ? c.rng.Pick(good) : c.rng.Pick(any);
      valid &= m.Applicable(*choice.first, choice.second, s);
      calls.push_back(ref::Fact(choice.first->name, choice.second));
      s = m.Next(*choice.first, choice.second, s);
    }
    const bool goal = m.Eval(m.goal, {}, s);
    c.Equal(pddl.IsValidPlan(calls), valid && goal, "plan",
            "IsValidPlan " + Ctx::Str(calls) + (valid ? " (all applicable" : " (not applicable") + (goal ? ", goal reached)" : ", goal missed)"));
    c.Count(valid && goal ? "accepted plans" : !valid ? "plans with an inapplicable step" : "plans missing the goal");
    if (!valid && goal) c.Count("plans inapplicable but ending in the goal");
    c.Check(Facts(pddl.initial_state()) == init, "initial-changed", "IsValidPlan changed the initial state");
    c.Seen(Ctx::Str(calls) + Ctx::Str(s));
    // The verdict agrees with the library's own steps.
    State step = pddl.initial_state();
    bool ok = true;
    for (const std::string& call : calls) {
      ok = ok && pddl.IsValidAction(step, call);
      const State next = pddl.NextState(step, call);
      c.Equal(pddl.IsValidTuple(step, call, next), pddl.IsValidAction(step, call), "tuple-own", "IsValidTuple of its own successor for " + call);
      step = next;
    }
    c.Equal(ok && pddl.IsGoalSatisfied(step), valid && goal, "plan-steps", "step-by-step verdict of " + Ctx::Str(calls));
  }

  // Transitions, goals and validity, as states and as texts.
  std::vector<ref::State> states = {init, {}};
  for (const int p : {20, 50, 80}) states.push_back(g.RandomState(m, p, true));
  states.push_back(m.Derive(g.RandomState(m, 50)));
  for (const ref::State& s : states) {
    const State state = ToState(pddl, s);
    c.Equal(pddl.IsGoalSatisfied(state), m.Eval(m.goal, {}, s), "goal", "IsGoalSatisfied on " + Ctx::Str(s));
    c.Equal(pddl.IsGoalSatisfied(s), m.Eval(m.goal, {}, s), "goal-text", "IsGoalSatisfied on text " + Ctx::Str(s));
    c.Count(m.Eval(m.goal, {}, s) ? "goal states" : "non-goal states");
    for (const ref::Op& op : m.actions) {
      std::vector<ref::Args> tuples = m.Tuples(op.params);
      c.rng.Shuffle(&tuples);
      if (tuples.size() > 5) tuples.resize(5);
      for (const ref::Args& t : tuples) {
        const std::string call = ref::Fact(op.name, t);
        const bool ok = m.Applicable(op, t, s);
        c.Equal(pddl.IsValidAction(state, call), ok, "valid", "IsValidAction " + call + " on " + Ctx::Str(s));
        ref::State next = m.Next(op, t, s);
        const std::string at = call + " on " + Ctx::Str(s);
        c.Equal(pddl.IsValidTuple(state, call, ToState(pddl, next)), ok, "tuple", "IsValidTuple " + at + " to " + Ctx::Str(next));
        c.Equal(pddl.IsValidTuple(s, call, next), ok, "tuple-text", "IsValidTuple as text " + at + " to " + Ctx::Str(next));
        c.Count(ok ? "accepted transitions" : "inapplicable transitions");
        if (atoms.empty()) continue;
        for (int k = 0; k < 2; k++) {
          ref::State wrong = next;
          const std::string& a = c.rng.Pick(atoms);
          if (!wrong.insert(a).second) wrong.erase(a);
          c.Equal(pddl.IsValidTuple(state, call, ToState(pddl, wrong)), false, "tuple-wrong", "IsValidTuple " + at + " to a state with " + a + " flipped");
          c.Equal(pddl.IsValidTuple(s, call, wrong), false, "tuple-wrong", "IsValidTuple as text " + at + " to a state with " + a + " flipped");
          c.Count("wrong transitions");
        }
        if (s != next) c.Equal(pddl.IsValidTuple(state, call, state), false, "tuple-wrong", "IsValidTuple " + at + " to itself");
      }
    }
  }
  if (c.idx < 2) c.Sample(w.d.domain);
}
