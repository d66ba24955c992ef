// C08: conditions on full states against a first-order evaluator.
#include "world.h"

namespace {

// Evaluates a condition rendered as PDDL under the reference semantics.
struct Rendered {
  bool ok = false;
  ref::Sx sx;
};

Rendered ParseRendering(Ctx& c, const std::string& text) {
  Rendered r;
  try {
    r.sx = ref::Parse(text);
    r.ok = true;
  } catch (const std::exception& e) {
    c.Fail("render-parse", "rendering is not PDDL: " + text + " (" + e.what() + ")");
  }
  return r;
}

}  // namespace

void RunCase(Ctx& c) {
  gen::Opts o;
  o.max_objects = c.rng.Range(1, 6);
  o.depth = c.rng.Range(1, c.thorough ? 5 : 4);
  gen::Gen g(&c.rng, o);
  const World w = MakeWorld(c, &g);
  const symbolic::Pddl& pddl = *w.pddl;
  const ref::Model& m = w.m();

  std::vector<ref::State> states = {{}, m.init};
  for (const int p : {20, 50, 80}) states.push_back(g.RandomState(m, p));
  {
    const auto all = m.Atoms();
    states.emplace_back(all.begin(), all.end());
  }
  std::vector<symbolic::State> actual;
  for (const ref::State& s : states) actual.push_back(ToState(pddl, s));
  const std::vector<symbolic::State> copies = actual;

  // (formula, parameters, what, s-expression)
  struct Cond {
    const symbolic::Formula* f;
    ref::Typed params;
    std::string what;
    ref::Sx sx;
  };
  std::vector<Cond> conds;
  conds.push_back({&pddl.goal(), {}, "goal", m.goal});
  for (const ref::Op& op : m.actions) {
    conds.push_back({&FindAction(pddl, op.name).preconditions(), op.params, op.name, op.pre});
  }

  for (const Cond& cond : conds) {
    const Rendered r = ParseRendering(c, cond.f->to_string());
    std::vector<ref::Args> tuples = m.Tuples(cond.params);
    if (tuples.size() > 40) {
      c.rng.Shuffle(&tuples);
      tuples.resize(40);
    }
    const symbolic::Formula copy = *cond.f;
    // Two passes in different orders: earlier evaluations must not matter.
    for (int pass = 0; pass < 2; pass++) {
      for (size_t i = 0; i < states.size(); i++) {
        for (const ref::Args& t : tuples) {
          const bool expected = m.Eval(cond.sx, ref::Bind(cond.params, t), states[i]);
          const auto args = ToArgs(pddl, t);
          const symbolic::Formula& f = pass == 0 ? *cond.f : copy;
          const bool got = f(actual[i], args);
          c.Equal(got, expected, "value",
                  cond.what + "(" + Ctx::Str(t) + ") = " + cond.sx.str() + " on " + Ctx::Str(states[i]));
          if (cond.params.empty()) {
            c.Equal(f(actual[i]), expected, "value-noargs", cond.what + " without arguments");
          }
          c.Count(expected ? "true answers" : "false answers");
          if (r.ok && pass == 0) {
            bool v = false;
            const std::string t2 = Throws([&] { v = m.Eval(r.sx, ref::Bind(cond.params, t), states[i]); });
            c.Check(t2.empty() && v == expected, "render",
                    "rendering of " + cond.sx.str() + " reads " + cond.f->to_string() +
                        ", which means something else at " + Ctx::Str(t) + " " + t2);
          }
          c.Seen(cond.sx.str() + Ctx::Str(t) + Ctx::Str(states[i]));
        }
      }
      c.rng.Shuffle(&tuples);
    }
    // Through the other entry points.
    for (size_t i = 0; i < states.size(); i++) {
      if (cond.what == "goal") {
        c.Equal(pddl.IsGoalSatisfied(actual[i]), m.Eval(m.goal, {}, states[i]), "goal", "IsGoalSatisfied(state)");
      } else if (!tuples.empty()) {
        const ref::Args& t = c.rng.Pick(tuples);
        c.Equal(pddl.IsValidAction(actual[i], ref::Fact(cond.what, t)),
                m.Eval(cond.sx, ref::Bind(cond.params, t), states[i]), "valid-action",
                "IsValidAction " + ref::Fact(cond.what, t));
      }
    }
  }
  for (size_t i = 0; i < states.size(); i++) {
    c.Check(actual[i] == copies[i] && Facts(actual[i]) == states[i], "state-changed", "evaluation changed a state");
  }
  if (c.idx < 2) c.Sample(w.d.domain);
}
