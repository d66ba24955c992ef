// C17: normal forms of conditions against a first-order evaluator.
#include <cmath>

#include "dnf.h"

namespace {

using symbolic::DisjunctiveFormula;
using symbolic::Object;

bool Subset(const ref::State& a, const ref::State& b) { return std::includes(b.begin(), b.end(), a.begin(), a.end()); }

}  // namespace

void RunCase(Ctx& c) {
  gen::Opts o;
  o.max_objects = c.rng.Range(1, 4);
  o.max_preds = 4;
  o.max_arity = 2;
  o.depth = c.rng.Range(1, c.thorough ? 5 : 4);
  o.and_below = c.rng.Chance(70) ? 42 : 52;
  o.equality = o.typepred = c.rng.Chance(40);
  o.empty_types = c.rng.Chance(30);
  o.axioms = c.rng.Chance(25);
  gen::Gen g(&c.rng, o);
  const World w = MakeWorld(c, &g, false);
  const symbolic::Pddl& pddl = *w.pddl;
  const ref::Model& m = w.m();
  const auto axs = m.GroundAxioms();
  const double limit = c.thorough ? 600 : 200;

  struct Cond {
    const symbolic::Formula* f;
    std::vector<Object> params;
    ref::Typed vars;
    ref::Sx sx;
    std::string name;
  };
  std::vector<Cond> conds = {{&pddl.goal(), {}, {}, m.goal, ""}};
  for (const ref::Op& op : m.actions) {
    const symbolic::Action& a = FindAction(pddl, op.name);
    conds.push_back({&a.preconditions(), a.parameters(), op.params, op.pre, op.name});
  }
  for (const Cond& cond : conds) {
    double worst = 0;
    Size(m, cond.sx, &worst);
    if (worst > limit) {
      c.Count("conditions skipped (normal form too large)");
      continue;
    }
    std::vector<ref::Args> tuples = m.Tuples(cond.vars);
    c.rng.Shuffle(&tuples);
    if (tuples.size() > 6) tuples.resize(6);
    for (const ref::Args& t : tuples) {
      const ref::Env env = ref::Bind(cond.vars, t);
      const auto args = ToArgs(pddl, t);
      const std::string call = ref::Fact(cond.name, t);
      const std::string at = (cond.name.empty() ? "goal" : call) + " = " + cond.sx.str();
      const auto dnf = DisjunctiveFormula::Create(pddl, *cond.f, cond.params, args);
      const Dnf d = Read(dnf);
      c.Seen(at);
      c.Count(!d ? "never" : d->empty() ? "always" : d->size() == 1 ? "one disjunct" : "several disjuncts");

      // Structure.
      if (d) {
        for (size_t i = 0; i < d->size(); i++) {
          const Conj& x = (*d)[i];
          for (const std::string& f : x.first) c.Check(x.second.count(f) == 0, "contradictory", "disjunct requires " + f + " both ways: " + at + " -> " + Show(d));
          for (size_t j = 0; j < d->size(); j++) {
            if (i == j) continue;
            const Conj& y = (*d)[j];
            c.Check(!(Subset(x.first, y.first) && Subset(x.second, y.second)), "redundant", "a disjunct is subsumed by another: " + at + " -> " + Show(d));
          }
        }
      }
      // The same through every entry point, and again.
      c.Check(Read(DisjunctiveFormula::Create(pddl, cond.f->symbol(), cond.params, args)) == d, "entry", "normal form from the symbol differs: " + at);
      const auto again = cond.name.empty() ? DisjunctiveFormula::NormalizeGoal(pddl) : DisjunctiveFormula::NormalizePreconditions(pddl, call);
      c.Check(again == dnf, "entry", "normal form by name differs: " + at + " -> " + Show(Read(again)) + " vs " + Show(d));
      if (dnf) {
        const DisjunctiveFormula direct(pddl, *cond.f, cond.params, args);
        c.Check(direct == *dnf, "entry", "constructor differs: " + at);
      }
      // Negation.
      Dnf neg;
      bool negated = false;
      double conj_product = 1;
      if (d) {
        for (const Conj& x : *d) conj_product *= std::max<double>(1, x.first.size() + x.second.size());
      }
      if (dnf && conj_product <= 4 * limit) {
        DisjunctiveFormula copy = *dnf;
        const auto n = symbolic::Negate(pddl, std::move(copy));
        neg = Read(n);
        negated = true;
        if (neg) {
          for (const Conj& x : *neg) {
            for (const std::string& f : x.first) c.Check(x.second.count(f) == 0, "contradictory", "negation requires " + f + " both ways: " + at + " -> " + Show(neg));
          }
        }
        c.Count("negations");
      }
      // With axioms, equivalence is owed in the states that satisfy them.
      Dnf with_axioms;
      if (!m.axioms.empty()) with_axioms = Read(DisjunctiveFormula::Create(pddl, *cond.f, cond.params, args, true));

      // Meaning.
      const std::set<std::string> relevant_set = m.AtomsOf(cond.sx, env);
      const std::vector<std::string> relevant(relevant_set.begin(), relevant_set.end());
      std::vector<ref::State> states;
      if (relevant.size() <= (c.thorough ? 10 : 6)) {
        for (size_t mask = 0; mask < (size_t{1} << relevant.size()); mask++) {
          ref::State s;
          for (size_t i = 0; i < relevant.size(); i++) {
            if ((mask >> i) & 1) s.insert(relevant[i]);
          }
          states.push_back(s);
        }
        c.Count("conditions compared in all states");
      } else {
        for (int k = 0; k < 40; k++) states.push_back(g.RandomState(m, c.rng.Pick(std::vector<int>{10, 50, 90})));
        // States around the disjuncts.
        for (size_t k = 0; d && k < d->size() && k < 10; k++) {
          ref::State s = g.RandomState(m, 50);
          for (const std::string& f : (*d)[k].first) s.insert(f);
          for (const std::string& f : (*d)[k].second) s.erase(f);
          states.push_back(s);
        }
      }
      for (const ref::State& s : states) {
        const bool truth = m.Eval(cond.sx, env, s);
        c.Equal(Holds(m, d, s), truth, "equivalent", at + " -> " + Show(d) + " in " + Ctx::Str(s));
        if (negated) c.Equal(Holds(m, neg, s), !truth, "negation", "negation of " + at + " -> " + Show(neg) + " in " + Ctx::Str(s));
        if (!m.axioms.empty()) {
          const auto closed = ref::Model::Close(axs, s);
          if (closed) {
            c.Equal(Holds(m, with_axioms, *closed), m.Eval(cond.sx, env, *closed), "axioms", at + " under axioms -> " + Show(with_axioms) + " in the valid state " + Ctx::Str(*closed));
            c.Count("comparisons in axiom-closed states");
          }
        }
      }
      // Not affected by what was computed in between.
      c.Check(DisjunctiveFormula::Create(pddl, *cond.f, cond.params, args) == dnf, "repeat", "normal form changes when computed again: " + at);
    }
  }
  // Conjunctions of disjunctions given directly.
  for (int k = 0; k < 3; k++) {
    std::vector<std::string> atoms = m.Atoms();
    c.rng.Shuffle(&atoms);
    atoms.resize(std::min<size_t>(atoms.size(), c.rng.Range(1, 6)));
    if (atoms.empty()) break;
    symbolic::ConjunctiveFormula cnf;
    std::vector<std::map<std::string, bool>> clauses;
    std::string text;
    for (int n = c.rng.Range(1, 4); n > 0; n--) {
      std::map<std::string, bool> clause;
      symbolic::PartialState disj;
      for (int j = c.rng.Range(1, 3); j > 0; j--) {
        const std::string& f = c.rng.Pick(atoms);
        if (!clause.emplace(f, c.rng.Chance(50)).second) continue;
        clause[f] ? disj.insert(symbolic::Proposition(pddl, f)) : disj.erase(symbolic::Proposition(pddl, f));
        text += (clause[f] ? " +" : " -") + f;
      }
      text += " &";
      clauses.push_back(clause);
      cnf.disjunctions.push_back(disj);
    }
    const Dnf d = Read(DisjunctiveFormula::Create(pddl, std::move(cnf)));
    for (size_t mask = 0; mask < (size_t{1} << atoms.size()); mask++) {
      ref::State s;
      for (size_t i = 0; i < atoms.size(); i++) {
        if ((mask >> i) & 1) s.insert(atoms[i]);
      }
      bool truth = true;
      for (const auto& clause : clauses) {
        bool some = false;
        for (const auto& kv : clause) some |= (s.count(kv.first) > 0) == kv.second;
        truth &= some;
      }
      c.Equal(Holds(m, d, s), truth, "conjunctive", "(" + text + ") -> " + Show(d) + " in " + Ctx::Str(s));
    }
    c.Count("conjunctive formulas");
  }
  // A second load of the same text.
  if (c.rng.Chance(20)) {
    const auto other = Load(c, w.d, false);
    for (const Cond& cond : conds) {
      double worst = 0;
      Size(m, cond.sx, &worst);
      if (worst > limit || !cond.name.empty()) continue;
      c.Check(Read(DisjunctiveFormula::NormalizeGoal(*other)) == Read(DisjunctiveFormula::NormalizeGoal(pddl)), "reload", "normal form of the goal differs after reloading");
    }
  }
  if (c.idx < 2) c.Sample(w.d.domain);
}
