// C18: normal forms of effects against the states the actions produce.
#include <cmath>

#include "dnf.h"

namespace {

using symbolic::DisjunctiveFormula;

// Every condition with its variable binding, nested ones included.
void Conditions(const ref::Model& m, const ref::Sx& e, const ref::Env& env,
                std::vector<std::pair<const ref::Sx*, ref::Env>>* out) {
  if (e.k.empty()) return;
  if (e.head() == "and") {
    for (size_t i = 1; i < e.k.size(); i++) Conditions(m, e.k[i], env, out);
  } else if (e.head() == "forall") {
    const ref::Typed vars = ref::TypedList(e.k[1].k, 0);
    for (const ref::Args& t : m.Tuples(vars)) {
      ref::Env inner = env;
      for (size_t i = 0; i < vars.size(); i++) inner[vars[i].first] = t[i];
      Conditions(m, e.k[2], inner, out);
    }
  } else if (e.head() == "when") {
    out->emplace_back(&e.k[1], env);
    Conditions(m, e.k[2], env, out);
  }
}

// The effects read as a formula over one state: each condition implies its effects.
bool Implications(const ref::Model& m, const ref::Sx& e, const ref::Env& env, const ref::State& s) {
  ref::State add, del;
  m.PddlEffects(e, env, s, &add, &del);
  for (const std::string& f : add) {
    if (s.count(f) == 0) return false;
  }
  for (const std::string& f : del) {
    if (s.count(f) > 0) return false;
  }
  return true;
}

std::vector<Conj> Sorted(const Dnf& d) {
  std::vector<Conj> v = *d;
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}

}  // namespace

void RunCase(Ctx& c) {
  gen::Opts o;
  o.max_objects = c.rng.Range(1, 4);
  o.max_preds = 4;
  o.max_arity = 2;
  o.depth = 2;
  o.cond_effects = c.rng.Chance(60);
  o.equality = o.typepred = c.rng.Chance(30);
  o.axioms = c.rng.Chance(30);
  gen::Gen g(&c.rng, o);
  const World w = MakeWorld(c, &g, false);
  const symbolic::Pddl& pddl = *w.pddl;
  const ref::Model& m = w.m();
  const auto axs = m.GroundAxioms();
  const double limit = c.thorough ? 600 : 200;

  // Normal forms extended by axiom consequences.
  const auto check_axioms = [&](const std::string& what, const Dnf& plain,
                                const std::function<std::optional<DisjunctiveFormula>()>& get) {
    std::vector<Conj> expected;
    bool contradiction = false;
    if (plain) {
      for (const Conj& x : *plain) {
        const auto closed = ref::Model::Close(axs, x.first, x.second);
        if (!closed) contradiction = true;
        else expected.push_back(*closed);
      }
    }
    std::optional<DisjunctiveFormula> got;
    const std::string err = Throws([&] { got = get(); });
    if (contradiction) {
      // A conjunct that cannot be completed must not come out as if it could.
      c.Check(!err.empty() || !got || got->conjunctions.size() < plain->size(), "axioms", what + " contradicts the axioms, but gives " + Show(Read(got)));
      c.Count("normal forms contradicting axioms");
      return;
    }
    if (!c.Check(err.empty(), "axioms", what + " with axioms " + err)) return;
    const Dnf d = Read(got);
    if (!c.Equal(d.has_value(), plain.has_value(), "axioms", what + " with axioms has a result")) return;
    if (!d) return;
    c.Check(Sorted(d) == Sorted(Dnf(expected)), "axioms", what + " with axioms gives " + Show(d) + ", expected " + Show(Dnf(expected)) + " from " + Show(plain));
    if (Sorted(plain) != Sorted(Dnf(expected))) c.Count("normal forms extended by axioms");
    c.Count("normal forms with axioms requested");
  };

  for (const ref::Op& op : m.actions) {
    double worst = 0, worst_pre = 0;
    EffectSize(m, op.eff, &worst);
    Size(m, op.pre, &worst_pre);
    if (worst > limit) {
      c.Count("actions skipped (normal form too large)");
      continue;
    }
    std::vector<ref::Args> tuples = m.Tuples(op.params);
    c.rng.Shuffle(&tuples);
    if (tuples.size() > 8) tuples.resize(8);
    for (const ref::Args& t : tuples) {
      const ref::Env env = ref::Bind(op.params, t);
      const std::string call = ref::Fact(op.name, t);
      const std::string at = call + " with effect " + op.eff.str();
      std::vector<std::pair<const ref::Sx*, ref::Env>> conditions;
      Conditions(m, op.eff, env, &conditions);
      // Everything that could be made true or false.
      ref::State all_add, all_del;
      m.Collect(op.eff, env, [](const ref::Sx&, const ref::Env&) { return true; }, &all_add, &all_del);
      bool conflict = false;
      for (const std::string& f : all_add) conflict |= all_del.count(f) > 0;
      std::optional<DisjunctiveFormula> post;
      const std::string err = Throws([&] { post = DisjunctiveFormula::NormalizePostconditions(pddl, call); });
      if (!err.empty()) {
        c.Check(conflict, "throws", "normalising " + at + " " + err);
        c.Count("conflicting effects refused");
        continue;
      }
      const Dnf d = Read(post);
      c.Seen(at);
      c.Check(Read(DisjunctiveFormula::NormalizePostconditions(pddl, call)) == d, "repeat", "normal form changes when computed again: " + at);
      const symbolic::Action& act = FindAction(pddl, op.name);
      const auto args = ToArgs(pddl, t);
      if (post) {
        const DisjunctiveFormula direct(pddl, act.postconditions(), act.parameters(), args);
        c.Check(direct == *post, "entry", "constructor differs: " + at);
      }
      c.Check(Read(DisjunctiveFormula::Create(pddl, act.postconditions(), act.parameters(), args)) == d, "entry", "normal form from the symbol differs: " + at);

      if (conditions.empty() && !conflict) {
        c.Count("unconditional effects");
        const std::vector<Conj> expected = {{all_add, all_del}};
        c.Check(d && (*d == expected || (d->empty() && all_add.empty() && all_del.empty())), "unconditional",
                at + " gives " + Show(d) + ", expected " + Show(Dnf(expected)));
      } else if (!conditions.empty()) {
        c.Count("conditional effects");
      } else {
        c.Count("unconditional conflicting effects");
      }
      // Successors.
      for (int k = 0; k < 12; k++) {
        const ref::State s = g.RandomState(m, c.rng.Pick(std::vector<int>{10, 50, 90}));
        ref::State add, del;
        m.PddlEffects(op.eff, env, s, &add, &del);
        bool overlap = false;
        for (const std::string& f : add) overlap |= del.count(f) > 0;
        if (overlap) continue;
        const ref::State next = m.PddlApply(op.eff, env, s);
        bool stable = true;
        for (const auto& cond : conditions) stable &= m.Eval(*cond.first, cond.second, s) == m.Eval(*cond.first, cond.second, next);
        if (!stable) {
          c.Count("successors skipped (a condition changed)");
          continue;
        }
        if (m.axioms.empty()) {
          const auto real = Facts(pddl.NextState(ToState(pddl, s), call));
          c.Check(Holds(m, d, real), "successor", at + " normalises to " + Show(d) + ", but leads from " + Ctx::Str(s) + " to " + Ctx::Str(real));
        }
        c.Check(Holds(m, d, next), "successor", at + " normalises to " + Show(d) + ", which fails in " + Ctx::Str(next));
        c.Count("successors");
      }
      // Exactly the implications.
      {
        for (int k = 0; k < 12; k++) {
          ref::State s = g.RandomState(m, c.rng.Pick(std::vector<int>{10, 50, 90}));
          if (c.rng.Chance(60)) {
            for (int step = 0; step < 3; step++) s = m.PddlApply(op.eff, env, s);
          }
          const bool truth = Implications(m, op.eff, env, s);
          c.Equal(Holds(m, d, s), truth, "implications", at + " -> " + Show(d) + " in " + Ctx::Str(s));
          c.Count(truth ? "implications hold" : "implications fail");
        }
      }
      // Combined queries.
      if (worst_pre <= limit) {
        const auto pre = DisjunctiveFormula::NormalizePreconditions(pddl, call);
        const auto both = DisjunctiveFormula::NormalizeConditions(pddl, call);
        c.Equal(both.has_value(), pre.has_value() && post.has_value(), "combined", "combined normal form exists for " + at);
        if (both && pre && post) {
          c.Check(both->first == *pre && both->second == *post, "combined", "combined normal form of " + at + " is " + Show(Read(both->first)) + " / " + Show(Read(both->second)) + ", separately " + Show(Read(pre)) + " / " + Show(d));
          c.Count("combined queries");
        }
        if (!m.axioms.empty()) {
          check_axioms("precondition of " + call, Read(pre), [&] { return DisjunctiveFormula::NormalizePreconditions(pddl, call, true); });
          check_axioms("postcondition of " + call, d, [&] { return DisjunctiveFormula::NormalizePostconditions(pddl, call, true); });
          std::optional<DisjunctiveFormula> p1, p2;
          const std::string separate = Throws([&] {
            p1 = DisjunctiveFormula::NormalizePreconditions(pddl, call, true);
            p2 = DisjunctiveFormula::NormalizePostconditions(pddl, call, true);
          });
          if (separate.empty()) {
            const auto x = DisjunctiveFormula::NormalizeConditions(pddl, call, true);
            c.Check(x.has_value() == (p1.has_value() && p2.has_value()) && (!x || (x->first == *p1 && x->second == *p2)), "combined-axioms", "combined normal form with axioms differs for " + at);
            c.Count("combined queries with axioms");
          }
        }
      }
    }
  }
  {
    double worst = 0;
    Size(m, m.goal, &worst);
    if (worst <= limit && !m.axioms.empty()) {
      check_axioms("goal", Read(DisjunctiveFormula::NormalizeGoal(pddl)), [&] { return DisjunctiveFormula::NormalizeGoal(pddl, true); });
    }
  }
  if (c.idx < 2) c.Sample(w.d.domain);
}
