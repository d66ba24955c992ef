// C09: answers on partial states against all completions.
#include "world.h"

namespace {

using symbolic::PartialState;

std::string Ans(const std::optional<bool>& v) { return !v ? "unknown" : *v ? "true" : "false"; }

}  // namespace

void RunCase(Ctx& c) {
  gen::Opts o;
  o.max_objects = c.rng.Range(1, 5);
  o.depth = c.rng.Range(1, c.thorough ? 5 : 4);
  gen::Gen g(&c.rng, o);
  const World w = MakeWorld(c, &g);
  const symbolic::Pddl& pddl = *w.pddl;
  const ref::Model& m = w.m();
  const std::vector<std::string> atoms = m.Atoms();

  struct Cond {
    const symbolic::Formula* f;
    const symbolic::Action* action;
    ref::Typed params;
    ref::Sx sx;
    std::string what;
  };
  std::vector<Cond> conds = {{&pddl.goal(), nullptr, {}, m.goal, "goal"}};
  for (const ref::Op& op : m.actions) {
    const symbolic::Action& a = FindAction(pddl, op.name);
    conds.push_back({&a.preconditions(), &a, op.params, op.pre, op.name});
  }

  for (int round = 0; round < 5; round++) {
    for (const Cond& cond : conds) {
      std::vector<ref::Args> tuples = m.Tuples(cond.params);
      c.rng.Shuffle(&tuples);
      if (tuples.size() > 8) tuples.resize(8);
      const symbolic::Formula copy = *cond.f;
      for (const ref::Args& t : tuples) {
        const ref::Env env = ref::Bind(cond.params, t);
        const std::set<std::string> relevant = m.AtomsOf(cond.sx, env);
        // Know all but a few of the facts that matter; or anything.
        ref::State pos, neg;
        const int known = c.rng.Pick(std::vector<int>{0, 30, 60, 85, 100});
        const int truth = c.rng.Pick(std::vector<int>{15, 50, 85});
        for (const std::string& a : atoms) {
          if (c.rng.Chance(known)) (c.rng.Chance(truth) ? pos : neg).insert(a);
        }
        size_t unknown = 0;
        for (const std::string& a : relevant) unknown += pos.count(a) == 0 && neg.count(a) == 0;
        // Keep the completions enumerable.
        for (const std::string& a : relevant) {
          if (unknown <= 9) break;
          if (pos.count(a) == 0 && neg.count(a) == 0 && c.rng.Chance(80)) {
            (c.rng.Chance(truth) ? pos : neg).insert(a);
            unknown--;
          }
        }
        const PartialState s(ToState(pddl, pos), ToState(pddl, neg));
        const PartialState before = s;
        const auto args = ToArgs(pddl, t);
        const symbolic::Formula& f = c.rng.Chance(50) ? copy : *cond.f;
        const std::optional<bool> got = f(s, args);
        const std::string at = cond.what + Ctx::Str(t) + " = " + cond.sx.str() + " on +" + Ctx::Str(pos) + " -" + Ctx::Str(neg);
        bool too_big = false;
        // (Without an answer nothing is to be compared, only counted.)
        const size_t before_work = m.work;
        m.Eval(cond.sx, env, pos);
        const size_t cost = std::max<size_t>(1, m.work - before_work);
        const size_t most = cost > 1000 ? 5 : cost > 200 ? 8 : 11;
        const bool judge = got.has_value() || c.rng.Chance(20);
        const std::optional<bool> forced = judge ? m.EvalPartial(cond.sx, env, pos, neg, most, &too_big) : std::nullopt;
        if (got.has_value()) {
          c.Count(unknown == 0 ? "answers with everything known" : "answers with facts unknown");
          if (!too_big) {
            c.Check(forced == got, *got ? "unsound-true" : "unsound-false",
                    at + " answers " + Ans(got) + ", completions say " + Ans(forced) + " (unknown: differ)");
          } else {
            for (int k = 0; k < (cost > 1000 ? 16 : 64); k++) {
              ref::State full = pos;
              for (const std::string& a : relevant) {
                if (pos.count(a) == 0 && neg.count(a) == 0 && c.rng.Chance(50)) full.insert(a);
              }
              c.Equal(m.Eval(cond.sx, env, full), *got, "unsound-sample", at + " in completion " + Ctx::Str(full));
            }
          }
        } else if (judge) {
          c.Count(forced.has_value() ? "no answer although all completions agree" : "no answer, completions differ");
        }
        const bool all = pos.size() + neg.size() == atoms.size();
        if (all) {
          c.Equal(Ans(got), Ans(m.Eval(cond.sx, env, pos)), "complete", at + " (every fact known)");
          c.Count("complete states");
        }
        // The same through the other entry points, again, and after other evaluations.
        c.Equal(Ans((*cond.f)(s, args)), Ans(got), "repeat", at + " evaluated again");
        if (cond.params.empty()) c.Equal(Ans((*cond.f)(s)), Ans(got), "repeat", at + " without arguments");
        if (cond.action != nullptr) c.Equal(Ans(cond.action->IsValid(s, args)), Ans(got), "is-valid", at + " through IsValid");
        const symbolic::State full = ToState(pddl, pos);
        c.Equal(f(full, args), m.Eval(cond.sx, env, pos), "full-state", at + " on the full state of the known-true facts");
        c.Equal(Ans(f(s, args)), Ans(got), "repeat", at + " evaluated after a full state");
        c.Check(s == before, "input", "evaluation changed the state: " + at);
        // Knowing more never changes an answer.
        if (got.has_value()) {
          PartialState more = s;
          for (const std::string& a : atoms) {
            if (pos.count(a) || neg.count(a) || !c.rng.Chance(60)) continue;
            const symbolic::Proposition p(pddl, a);
            c.rng.Chance(50) ? more.insert(p) : more.erase(p);
          }
          const auto later = f(more, args);
          c.Check(!later.has_value() || later == got, "monotone", at + " answers " + Ans(got) + ", with more facts known " + Ans(later));
        }
        c.Seen(at);
      }
    }
  }
  if (c.idx < 2) c.Sample(w.d.domain);
}
