// C24: random programs over the public interface. The sanitizers and library assertions judge;
// besides, everything held must keep the text it had when it was made.
#include <symbolic/planning/a_star.h>
#include <symbolic/planning/breadth_first_search.h>
#include <symbolic/planning/depth_first_search.h>

#include "dnf.h"
#include "structured.h"
#include "world.h"

namespace {

// Entries of the map of axioms, whatever kind of pointer they are.
template <typename T>
bool Alive(const std::weak_ptr<T>& p) {
  return !p.expired();
}
template <typename T>
bool Alive(const T& p) {
  return p != nullptr;
}


using symbolic::Action;
using symbolic::Axiom;
using symbolic::DerivedPredicate;
using symbolic::DisjunctiveFormula;
using symbolic::Formula;
using symbolic::Object;
using symbolic::ParameterGenerator;
using symbolic::PartialState;
using symbolic::Pddl;
using symbolic::Planner;
using symbolic::Predicate;
using symbolic::Proposition;
using symbolic::SignedProposition;
using symbolic::State;
using symbolic::StateIndex;
using Node = Planner::Node;

template <typename T>
std::string Printed(const T& t) {
  std::stringstream ss;
  ss << t;
  return ss.str();
}

// Text of a value through everything that prints it.
std::string Text(const Object& o) { return Printed(o) + " " + o.name() + " " + Printed(o.type()) + " " + Ctx::Str(o.type().ListTypes()); }
std::string Text(const std::vector<Object>& a) { return Printed(a); }
std::string Text(const Proposition& p) { return Printed(p) + p.to_string() + p.to_pddl() + p.name() + std::to_string(p.hash()); }
std::string Text(const SignedProposition& p) { return Printed(p) + p.sign() + p.to_pddl(); }
std::string Text(const State& s) {
  const auto str = s.Stringify();
  const auto str2 = symbolic::Stringify(s);
  return Printed(s) + std::to_string(str.size()) + Ctx::Str(str2);
}
std::string Text(const PartialState& s) {
  const auto str = s.Stringify();
  return Printed(s) + std::to_string(str.first.size() + str.second.size()) + Ctx::Str(symbolic::Stringify(s).first);
}
std::string Text(const Formula& f) { return Printed(f) + f.to_string(); }
std::string Text(const Action& a) {
  std::stringstream ss;
  ss << a;
  return ss.str() + a.to_string() + Printed(a.preconditions()) + Printed(a.parameters());
}
std::string Text(const Predicate& p) { return Printed(p) + p.to_string() + Printed(p.parameters()) + Printed(p.preconditions()); }
std::string Text(const DerivedPredicate& p) { return Printed(p) + p.to_string() + Printed(p.preconditions()); }
std::string Text(const Axiom& a) { return Printed(a) + Printed(a.context()) + a.to_string(); }
std::string Text(const std::shared_ptr<Axiom>& a) { return Text(*a); }
std::string Text(const ParameterGenerator& g) {
  std::string s = std::to_string(g.size());
  size_t i = 0;
  for (const std::vector<Object>& args : g) {
    s += "|" + Printed(args);
    if (++i >= 40) break;
  }
  return s;
}
std::string Text(const StateIndex& idx) {
  std::string s = std::to_string(idx.size());
  for (size_t i = 0; i < idx.size(); i += 1 + idx.size() / 8) s += "|" + Printed(idx.GetProposition(i));
  return s;
}
std::string Text(const DisjunctiveFormula& d) { return Printed(d) + std::to_string(d.conjunctions.size()); }
std::string Text(const Node& n) { return Printed(n) + n.action() + Printed(n.state()) + std::to_string(n.depth()) + std::to_string(std::hash<Node>{}(n)); }
std::string Text(const std::vector<Node>& plan) {
  std::string s;
  for (const Node& n : plan) s += Text(n) + "\n";
  return s;
}

// A formula and the parameters it takes.
struct HeldFormula {
  Formula f;
  std::vector<Object> params;
};
std::string Text(const HeldFormula& h) { return Text(h.f) + Printed(h.params); }

template <typename T>
struct Pool {
  std::vector<T> items;
  std::vector<std::string> texts;
  size_t max = 10;

  // Adds through a copy, a move or growth.
  void Add(Ctx& c, T value) {
    std::string text;
    try {
      text = Text(value);
    } catch (const std::exception& e) {
      c.Fail("print", std::string("printing a value throws: ") + e.what());
      throw CaseEnd();
    }
    if (items.size() >= max) Drop(c);
    switch (c.rng.Below(3)) {
      case 0: items.push_back(value); break;
      case 1: items.push_back(std::move(value)); break;
      default: {
        auto heap = std::make_unique<T>(value);
        { T gone = std::move(value); }
        items.insert(items.begin() + items.size() / 2, *heap);
        heap.reset();
        texts.insert(texts.begin() + texts.size() / 2, text);
        c.Count("values held");
        return;
      }
    }
    texts.push_back(text);
    c.Count("values held");
  }
  void Drop(Ctx& c) {
    if (items.empty()) return;
    const size_t i = c.rng.Below(items.size());
    items.erase(items.begin() + i);
    texts.erase(texts.begin() + i);
    c.Count("values destroyed");
  }
  // Copies over one another, onto itself, into a fresh vector.
  void Churn(Ctx& c) {
    if (items.empty()) return;
    const size_t i = c.rng.Below(items.size()), j = c.rng.Below(items.size());
    switch (c.rng.Below(4)) {
      case 0: items[i] = items[j]; texts[i] = texts[j]; break;
      case 1: {
        T copy = items[j];
        items[i] = std::move(copy);
        texts[i] = texts[j];
        break;
      }
      case 2: {
        std::vector<T> other = items;
        items.swap(other);
        break;
      }
      default: {
        if (i == j) break;
        T tmp = std::move(items[i]);
        items[i] = std::move(items[j]);
        items[j] = std::move(tmp);
        std::swap(texts[i], texts[j]);
      }
    }
    c.Count("values copied or moved over");
  }
  void Verify(Ctx& c, const std::string& kind) {
    for (size_t i = 0; i < items.size(); i++) {
      c.Check(Text(items[i]) == texts[i], "changed:" + kind, "a held " + kind + " printed as\n" + texts[i] + "\nwhen made, now as\n" + Text(items[i]));
    }
    c.Count("prints", items.size());
  }
  bool empty() const { return items.empty(); }
  const T& Pick(Ctx& c) const { return c.rng.Pick(items); }
  T& Mut(Ctx& c, size_t* i) {
    *i = c.rng.Below(items.size());
    return items[*i];
  }
};

struct Side {
  gen::Dom d;
  bool with_problem = true;
  bool removed = false;  // some object was
  bool frozen = false;   // objects stay as they are
  int added = 0;
  std::unique_ptr<Pddl> pddl;

  // Everything below must die before pddl, in any order among itself.
  Pool<Object> objects;
  Pool<std::vector<Object>> args;
  Pool<Proposition> props;
  Pool<SignedProposition> signs;
  Pool<State> states;
  Pool<PartialState> partials;
  Pool<HeldFormula> formulas;
  Pool<Action> actions;
  Pool<Predicate> preds;
  Pool<DerivedPredicate> derived;
  Pool<Axiom> axioms;
  Pool<std::shared_ptr<Axiom>> shared_axioms;
  Pool<ParameterGenerator> gens;
  Pool<StateIndex> indices;
  Pool<DisjunctiveFormula> dnfs;
  Pool<Node> nodes;
  Pool<std::vector<Node>> plans;

  template <typename F>
  void Each(const F& f) {
    f(objects, "object");
    f(args, "argument list");
    f(props, "fact");
    f(signs, "signed fact");
    f(states, "state");
    f(partials, "partial state");
    f(formulas, "formula");
    f(actions, "action");
    f(preds, "predicate");
    f(derived, "derivation rule");
    f(axioms, "axiom");
    f(shared_axioms, "shared axiom");
    f(gens, "generator");
    f(indices, "state index");
    f(dnfs, "normal form");
    f(nodes, "node");
    f(plans, "plan");
  }
};

struct ByDepth {
  bool operator()(const symbolic::SearchNode<Node>& a, const symbolic::SearchNode<Node>& b) const {
    return a.ancestors.size() > b.ancestors.size();
  }
};

std::vector<Object> RandomArgs(Ctx& c, const Pddl& pddl, const std::vector<Object>& params, bool* ok) {
  // A generator made from a temporary.
  const ParameterGenerator gen = ParameterGenerator(pddl, std::vector<Object>(params));
  *ok = gen.size() > 0;
  if (!*ok) return {};
  return gen[c.rng.Below(gen.size())];
}

class Soup {
 public:
  Soup(Ctx& c, Side& s, gen::Gen* g) : c(c), r(c.rng), s(s), pddl(*s.pddl), g_(g) {}

  void Step() {
    switch (r.Below(20)) {
      case 0: Objects(); break;
      case 1: Facts1(); break;
      case 2: case 3: States(); break;
      case 4: Mutate(); break;
      case 5: Partials(); break;
      case 6: Formulas(); break;
      case 7: case 8: Actions(); break;
      case 9: Predicates(); break;
      case 10: Rules(); break;
      case 11: Generators(); break;
      case 12: Indices(); break;
      case 13: Normal(); break;
      case 14: case 15: Nodes(); break;
      case 16: Plans(); break;
      case 17: Judge(); break;
      case 18: Whole(); break;
      default: {
        s.Each([&](auto& pool, const char*) {
          if (r.Chance(30)) pool.Churn(c);
          if (r.Chance(20)) pool.Drop(c);
        });
      }
    }
  }

 private:
  Ctx& c;
  Rng& r;
  Side& s;
  const Pddl& pddl;
  gen::Gen* g_;

  void Op(const char* what) { c.Count(std::string("op: ") + what); }

  State SomeState() {
    if (!s.states.empty() && r.Chance(70)) return s.states.Pick(c);
    return ToState(pddl, g_->RandomState(s.d.m, r.Pick(std::vector<int>{0, 20, 60, 100})));
  }
  PartialState SomePartial() {
    if (!s.partials.empty() && r.Chance(60)) return s.partials.Pick(c);
    PartialState p;
    for (const std::string& f : s.d.m.Atoms()) {
      const size_t w = r.Below(3);
      if (w == 0) p.insert(Proposition(pddl, f));
      if (w == 1) p.erase(Proposition(pddl, f));
    }
    return p;
  }
  // A call as text, or "" if there is none.
  std::string SomeCall() {
    if (s.d.m.actions.empty()) return "";
    const ref::Op& op = r.Pick(s.d.m.actions);
    const auto tuples = s.d.m.Tuples(op.params);
    return tuples.empty() ? "" : ref::Fact(op.name, r.Pick(tuples));
  }

  void Objects() {
    Op("objects");
    for (const Object& o : pddl.objects()) {
      if (!r.Chance(40)) continue;
      s.objects.Add(c, r.Chance(50) ? o : Object(pddl, std::string(o.name())));
      (void)(o == s.objects.Pick(c));
      (void)(o < s.objects.Pick(c));
    }
    if (!pddl.actions().empty()) {
      const std::vector<Object> params = Action(r.Pick(pddl.actions())).parameters();
      for (const Object& p : params) s.objects.Add(c, p);
      std::vector<Object> copy = params;
      s.args.Add(c, std::move(copy));
    }
  }
  void Facts1() {
    Op("facts");
    const std::vector<std::string> atoms = s.d.m.Atoms();
    if (atoms.empty()) return;
    for (int k = 0; k < 3; k++) {
      const std::string text = r.Pick(atoms);
      Proposition p(pddl, text);
      std::vector<Object> args = p.arguments();
      const std::string name = p.name();
      switch (r.Below(4)) {
        case 0: s.props.Add(c, std::move(p)); break;
        case 1: s.props.Add(c, Proposition(name, std::move(args))); break;
        case 2: {
          const symbolic::PropositionRef ref(&name, &args, std::hash<std::string>{}(name));
          s.props.Add(c, Proposition(ref));
          c.Check(ref == p || p.to_string() != ref.to_string(), "ref", "reference to " + text);
          break;
        }
        default: s.signs.Add(c, SignedProposition(std::move(p), r.Chance(50)));
      }
    }
    for (const auto& a : pddl.axioms()) s.signs.Add(c, a->context());
  }
  void States() {
    Op("states");
    switch (r.Below(7)) {
      case 0: s.states.Add(c, pddl.initial_state()); break;
      case 1: s.states.Add(c, pddl.DerivedState(SomeState())); break;
      case 2: s.states.Add(c, pddl.ConsistentState(SomeState())); break;
      case 3: {
        const std::string call = SomeCall();
        if (!call.empty()) s.states.Add(c, pddl.NextState(SomeState(), call));
        break;
      }
      case 4: {
        std::vector<std::string> calls;
        for (int k = r.Below(4); k > 0; k--) {
          const std::string call = SomeCall();
          if (!call.empty()) calls.push_back(call);
        }
        s.states.Add(c, pddl.ApplyActions(SomeState(), calls));
        break;
      }
      case 5: s.states.Add(c, State(pddl, SomeState().Stringify())); break;
      default: s.states.Add(c, SomeState());
    }
    if (!s.states.empty()) {
      const State& x = s.states.Pick(c);
      const State& y = s.states.Pick(c);
      (void)(x == y);
      (void)(x < y);
      for (const Proposition& p : x) (void)y.contains(p);
      for (const Proposition& p : s.props.items) (void)x.contains(p);
      for (const SignedProposition& p : s.signs.items) (void)x.contains(p);
    }
  }
  void Mutate() {
    Op("mutations");
    if (!s.states.empty()) {
      size_t i;
      State& x = s.states.Mut(c, &i);
      for (int k = r.Below(6); k > 0; k--) {
        if (!x.empty() && r.Chance(40)) {
          const Proposition& own = *std::next(x.begin(), r.Below(x.size()));
          if (r.Chance(50)) x.insert(own);
          else x.erase(own);
        } else if (!s.props.empty()) {
          const Proposition& p = s.props.Pick(c);
          if (r.Chance(50)) x.insert(p);
          else x.erase(p);
        } else {
          const State y = SomeState();
          x.insert(y.begin(), y.end());
        }
      }
      if (r.Chance(10)) x.insert(x.begin(), x.end());
      s.states.texts[i] = Text(x);
    }
    if (!s.partials.empty()) {
      size_t i;
      PartialState& x = s.partials.Mut(c, &i);
      for (int k = r.Below(6); k > 0; k--) {
        if (!x.pos().empty() && r.Chance(40)) {
          const Proposition& own = *std::next(x.pos().begin(), r.Below(x.pos().size()));
          if (r.Chance(50)) x.insert(own);
          else x.erase(own);
        } else if (!x.neg().empty() && r.Chance(40)) {
          const Proposition& own = *std::next(x.neg().begin(), r.Below(x.neg().size()));
          if (r.Chance(50)) x.insert(own);
          else x.erase(own);
        } else if (!s.props.empty()) {
          Proposition p = s.props.Pick(c);
          if (r.Chance(50)) x.insert(std::move(p));
          else x.erase(std::move(p));
        }
      }
      c.Check(x.IsConsistent(), "inconsistent", "a partial state became inconsistent");
      s.partials.texts[i] = Text(x);
    }
  }
  void Partials() {
    Op("partial states");
    switch (r.Below(4)) {
      case 0: s.partials.Add(c, SomePartial()); break;
      case 1: {
        PartialState p = SomePartial();
        PartialState q(p.pos(), p.neg());
        s.partials.Add(c, std::move(q));
        break;
      }
      case 2:
        try {
          s.partials.Add(c, pddl.ConsistentState(SomePartial()));
        } catch (const std::exception& e) {
          c.Count("partial states rejected");
          std::stringstream ss;
          ss << e.what();
        }
        break;
      default: {
        if (s.actions.empty()) return;
        const Action& a = s.actions.Pick(c);
        bool ok;
        const auto args = RandomArgs(c, pddl, a.parameters(), &ok);
        if (!ok) return;
        try {
          s.partials.Add(c, a.Apply(SomePartial(), args));
        } catch (const PartialState::UnknownEvaluation& e) {
          s.props.Add(c, e.proposition());
        } catch (const std::exception&) {
          c.Count("partial states rejected");
        }
      }
    }
    if (!s.partials.empty()) {
      const PartialState& x = s.partials.Pick(c);
      const PartialState& y = s.partials.Pick(c);
      (void)(x == y);
      (void)(x < y);
      for (const Proposition& p : x.pos()) {
        try {
          (void)(y.contains(p) || y.does_not_contain(p));
        } catch (const PartialState::UnknownEvaluation& e) {
          (void)Text(e.proposition());  // may be a '=' or type literal of a normal form
        }
      }
      (void)pddl.IsValidState(x);
    }
  }
  void Formulas() {
    Op("formulas");
    switch (r.Below(3)) {
      case 0:
        if (s.with_problem) s.formulas.Add(c, {pddl.goal(), {}});
        break;
      case 1:
        if (s.with_problem) s.formulas.Add(c, {Formula(pddl, pddl.goal().symbol()), {}});
        break;
      default: break;
    }
    // Held ones, whatever they were taken from.
    for (int k = 0; k < 2 && !s.formulas.empty(); k++) {
      const HeldFormula& h = s.formulas.Pick(c);
      bool ok;
      const auto args = RandomArgs(c, pddl, h.params, &ok);
      if (!ok) continue;
      const State st = SomeState();
      const bool v = h.f(st, args);
      (void)h.f(SomePartial(), args);
      c.Check(h.f(st, args) == v, "held formula", "a held formula changes its answer");
      c.Count("held formulas evaluated");
    }
    // A precondition that outlives every action, evaluated right away.
    if (pddl.actions().empty()) return;
    const std::string name = r.Pick(pddl.actions()).name();
    std::vector<Object> params;
    Formula f;
    {
      const Action temp(pddl, name);
      const Action temp2 = temp;
      f = temp2.preconditions();
      params = temp.parameters();
      if (r.Chance(40)) f = Formula(pddl, temp.preconditions().symbol(), std::vector<Object>(params));
    }
    bool ok;
    const auto args = RandomArgs(c, pddl, params, &ok);
    if (!ok) return;
    const State st = SomeState();
    const bool v = f(st, args);
    const Formula copy = f;
    s.formulas.Add(c, {f, params});
    (void)f(SomePartial(), args);
    c.Check(copy(st, args) == v, "copied formula", "a copy of a precondition answers otherwise");
    c.Count("formula evaluations", 3);
    if (s.with_problem) {
      (void)pddl.goal()(SomePartial());
      (void)pddl.IsGoalSatisfied(st);
    }
  }
  void Actions() {
    Op("actions");
    const std::string call = SomeCall();
    if (call.empty()) return;
    switch (r.Below(4)) {
      case 0: s.actions.Add(c, Action::Parse(pddl, call).first); break;
      case 1: s.actions.Add(c, Action(pddl, call)); break;
      case 2: s.actions.Add(c, r.Pick(pddl.actions())); break;
      default: {
        auto a = std::make_unique<Action>(pddl, r.Pick(pddl.actions()).symbol());
        s.actions.Add(c, *a);
      }
    }
    s.args.Add(c, Action::Parse(pddl, call).second);
    const Action& a = s.actions.Pick(c);
    (void)a.postconditions();
    (void)(a == s.actions.Pick(c));
    (void)(a < s.actions.Pick(c));
    bool ok;
    const auto args = RandomArgs(c, pddl, a.parameters(), &ok);
    if (!ok) return;
    (void)a.to_string(args);
    State st = SomeState();
    (void)a.IsValid(st, args);
    s.states.Add(c, a.Apply(st, args));
    (void)a.Apply(args, &st);
    s.states.Add(c, std::move(st));
    (void)a.IsValid(SomePartial(), args);
    c.Count("action applications", 2);
  }
  void Predicates() {
    Op("predicates");
    if (pddl.predicates().empty()) return;
    const Predicate& listed = r.Pick(pddl.predicates());
    if (r.Chance(50)) s.preds.Add(c, listed);
    else s.preds.Add(c, Predicate(pddl, listed.symbol()));
    const Predicate& p = s.preds.Pick(c);
    bool ok;
    const auto args = RandomArgs(c, pddl, p.parameters(), &ok);
    if (!ok) return;
    s.props.Add(c, Proposition(pddl, p.to_string(args)));
    s.props.Add(c, Proposition(p.name(), args));
    // The inherited condition says whether the arguments fit.
    (void)p.preconditions();
  }
  void Rules() {
    Op("rules");
    if (!pddl.derived_predicates().empty()) {
      const DerivedPredicate& listed = r.Pick(pddl.derived_predicates());
      if (r.Chance(50)) s.derived.Add(c, listed);
      else s.derived.Add(c, DerivedPredicate(pddl, listed.symbol()));
      State st = SomeState();
      (void)s.derived.Pick(c).Apply(&st);
      s.states.Add(c, DerivedPredicate::Apply(st, pddl.derived_predicates()));
      // Copies of all rules, without the originals in between.
      const std::vector<DerivedPredicate> copies = pddl.derived_predicates();
      s.states.Add(c, DerivedPredicate::Apply(st, copies));
      {
        const DerivedPredicate& rule = s.derived.Pick(c);
        s.formulas.Add(c, {rule.preconditions(), rule.parameters()});
      }
    }
    if (!pddl.axioms().empty()) {
      const std::shared_ptr<Axiom> shared = r.Pick(pddl.axioms());
      s.shared_axioms.Add(c, shared);
      if (r.Chance(50)) s.axioms.Add(c, *shared);
      else s.axioms.Add(c, Axiom(pddl, shared->symbol()));
      const Axiom& a = s.axioms.Pick(c);
      State st = SomeState();
      (void)a.IsConsistent(st);
      (void)a.Apply(&st);
      s.states.Add(c, a.Apply(SomeState()));
      const PartialState ps = SomePartial();
      (void)a.IsConsistent(ps);
      PartialState mut = ps;
      (void)s.shared_axioms.Pick(c)->Apply(&mut);
      s.partials.Add(c, a.Apply(ps));
      (void)Axiom::IsConsistent(pddl.axioms(), ps);
      (void)a.MatchContext(a.context().arguments());
      s.signs.Add(c, a.context());
      (void)pddl.IsValidState(st);
      for (const auto& kv : pddl.axiom_map()) {
        for (const auto& weak : kv.second) c.Check(Alive(weak), "axiom map", "an axiom of the map is gone");
      }
    }
  }
  void Generators() {
    Op("generators");
    ParameterGenerator gen;
    if (!pddl.actions().empty() && r.Chance(50)) {
      gen = Action(pddl, r.Pick(pddl.actions()).name()).parameter_generator();
    } else if (!pddl.predicates().empty() && r.Chance(50)) {
      gen = Predicate(r.Pick(pddl.predicates())).parameter_generator();
    } else {
      std::vector<Object> params;
      for (const Object& o : s.objects.items) {
        if (params.size() < 3 && r.Chance(50)) params.push_back(o);
      }
      gen = ParameterGenerator(pddl, params);
    }
    s.gens.Add(c, gen);
    s.gens.Add(c, std::move(gen));
    const ParameterGenerator& x = s.gens.Pick(c);
    if (x.size() == 0) return;
    auto it = x.begin();
    for (int k = r.Below(20); k > 0 && it != x.end(); k--) ++it;
    if (it != x.end()) s.args.Add(c, *it);
    while (it != x.begin() && r.Chance(80)) --it;
    if (it != x.end()) s.args.Add(c, *it);
    const std::vector<Object> args = x.at(r.Below(x.size()));
    c.Check(x.at(x.find(args)) == args, "generator", "a generated tuple is not found");
    auto rit = x.rbegin();
    for (int k = r.Below(20); k > 0 && rit != x.rend(); k--) ++rit;
    (void)pddl.object_map();
    (void)x.pddl();
  }
  void Indices() {
    Op("state indices");
    if (pddl.predicates().empty()) return;
    if (r.Chance(50)) {
      std::vector<Predicate> preds = pddl.predicates();
      r.Shuffle(&preds);
      s.indices.Add(c, StateIndex(preds, r.Chance(50)));
    } else {
      s.indices.Add(c, pddl.state_index());
    }
    const StateIndex& x = s.indices.Pick(c);
    if (x.size() == 0) return;
    s.props.Add(c, x.GetProposition(r.Below(x.size())));
    try {
      const auto bits = x.GetIndexedState(SomeState());
      s.states.Add(c, x.GetState(bits));
    } catch (const std::out_of_range&) {
      // A state may mention an object that was removed.
      if (!s.removed) throw;
      c.Count("facts without a position");
    }
    for (const Proposition& p : x) {
      (void)x.GetPropositionIndex(p);
      if (r.Chance(10)) break;
    }
    auto it = x.begin();
    it += r.Below(x.size());
    s.props.Add(c, *it);
    (void)x.pddl();
  }
  void Normal() {
    const auto small = [&](const ref::Sx& f, double* worst) {
      *worst = 0;
      Size(s.d.m, f, worst);
      return *worst <= 100;
    };
    double worst;
    std::optional<DisjunctiveFormula> d;
    const bool ax = !pddl.axioms().empty() && r.Chance(50);
    if (s.with_problem && r.Chance(30)) {
      if (!small(s.d.m.goal, &worst)) return;
      d = DisjunctiveFormula::NormalizeGoal(pddl, ax);
    } else {
      if (s.d.m.actions.empty()) return;
      const ref::Op& op = r.Pick(s.d.m.actions);
      const auto tuples = s.d.m.Tuples(op.params);
      if (tuples.empty() || !small(op.pre, &worst)) return;
      const std::string call = ref::Fact(op.name, r.Pick(tuples));
      double eff = 0;
      EffectSize(s.d.m, op.eff, &eff);
      if (eff <= 100 && r.Chance(60)) {
        const auto pair = DisjunctiveFormula::NormalizeConditions(pddl, call, ax);
        if (pair) {
          s.dnfs.Add(c, pair->first);
          d = pair->second;
        }
      } else {
        d = DisjunctiveFormula::NormalizePreconditions(pddl, call, ax);
      }
    }
    Op("normal forms");
    if (!d) return;
    s.dnfs.Add(c, *d);
    double product = 1;
    for (const PartialState& conj : d->conjunctions) {
      if (conj.IsConsistent()) s.partials.Add(c, conj);
      product *= std::max<double>(1, conj.size());
    }
    if (product <= 200) {
      DisjunctiveFormula copy = *d;
      const auto n = symbolic::Negate(pddl, std::move(copy));
      if (n) s.dnfs.Add(c, *n);
    }
    (void)(*d == s.dnfs.Pick(c));
  }
  void Nodes() {
    Op("nodes");
    {
      const Planner planner(pddl, SomeState());
      s.nodes.Add(c, planner.root());
      for (const Node& child : planner.root()) {
        if (r.Chance(30)) s.nodes.Add(c, child);
        if (r.Chance(10)) break;
      }
    }
    // Children of a node whose ancestors, siblings and planner are gone.
    const Node n = s.nodes.Pick(c);
    std::vector<Node> children;
    for (auto it = n.begin(); it != n.end(); ++it) {
      if (children.size() < 6) children.push_back(*it);
    }
    for (const Node& child : children) {
      (void)(child == n);
      (void)(child < n);
      if (s.with_problem) (void)static_cast<bool>(child);
      if (r.Chance(40)) s.nodes.Add(c, child);
    }
    c.Count("nodes expanded");
  }
  void Plans() {
    if (!s.with_problem) return;
    Op("searches");
    std::vector<std::vector<Node>> got;
    {
      const Planner planner(pddl, SomeState());
      const size_t depth = r.Below(3);
      size_t seen = 0;
      switch (r.Below(3)) {
        case 0: {
          const symbolic::BreadthFirstSearch<Node> search(planner.root(), depth);
          auto it = search.begin();
          for (; it != search.end() && ++seen < 20; ++it) got.push_back(*it);
          break;
        }
        case 1: {
          symbolic::DepthFirstSearch<Node> search(planner.root(), depth);
          for (const auto& plan : search) {
            got.push_back(plan);
            if (++seen > 20) break;
          }
          break;
        }
        default: {
          const ByDepth cmp;
          symbolic::AStar<Node, ByDepth> search(cmp, planner.root(), depth);
          for (const auto& plan : search) {
            got.push_back(plan);
            if (++seen > 20) break;
          }
        }
      }
    }
    for (const auto& plan : got) {
      if (r.Chance(40)) s.plans.Add(c, plan);
      std::vector<std::string> calls;
      for (const Node& n : plan) {
        if (!n.action().empty()) calls.push_back(n.action());
      }
      (void)pddl.IsValidPlan(calls);
      if (r.Chance(20)) s.nodes.Add(c, plan.back());
    }
    c.Count("plans held", got.size());
  }
  void Judge() {
    Op("queries");
    const State st = SomeState();
    const auto calls = pddl.ListValidActions(st);
    for (const std::string& call : calls) {
      if (!r.Chance(30)) continue;
      (void)pddl.IsValidAction(st, call);
      (void)pddl.IsValidTuple(st, call, SomeState());
      (void)pddl.IsValidTuple(symbolic::Stringify(st), call, symbolic::Stringify(SomeState()));
    }
    for (const Action& a : s.actions.items) {
      for (auto& args : pddl.ListValidArguments(st, a)) {
        if (r.Chance(10)) s.args.Add(c, args);
      }
      (void)pddl.ListValidArguments(symbolic::Stringify(st), a.name());
    }
    (void)pddl.ListValidActions(symbolic::Stringify(st));
    if (s.with_problem) (void)pddl.IsGoalSatisfied(symbolic::Stringify(st));
    (void)symbolic::Stringify(pddl.actions());
    (void)symbolic::Stringify(pddl.objects());
    (void)symbolic::Stringify(s.args.items);
  }
  void Whole() {
    Op("whole problem");
    std::stringstream ss;
    ss << pddl;
    c.Check(!ss.str().empty(), "print", "a problem prints nothing");
    std::stringstream diag;
    (void)pddl.IsValid(r.Chance(50), diag);
    (void)pddl.name();
    if (!s.frozen && s.with_problem && r.Chance(30) && s.d.m.Atoms().size() < 60) {
      const std::string name = "extra" + std::to_string(++s.added);
      const std::string type = s.d.m.type_order.empty() ? "object" : r.Pick(s.d.m.type_order);
      // Copied state indices do not cover the facts of a new object.
      s.indices.items.clear();
      s.indices.texts.clear();
      s.pddl->AddObject(name, type);
      s.d.m.prob_objects.emplace_back(name, type);
      c.Count("objects added");
      // The problem's own axioms follow the objects.
      for (size_t i = 0; i < s.shared_axioms.items.size(); i++) s.shared_axioms.texts[i] = Text(s.shared_axioms.items[i]);
    }
    if (!s.frozen && s.with_problem && r.Chance(20) && !s.d.m.prob_objects.empty()) {
      // Facts, calls and objects held from before may mention the removed object, as may the problem.
      const size_t i = r.Below(s.d.m.prob_objects.size());
      s.indices.items.clear();
      s.indices.texts.clear();
      s.pddl->RemoveObject(s.d.m.prob_objects[i].first);
      s.d.m.prob_objects.erase(s.d.m.prob_objects.begin() + static_cast<ptrdiff_t>(i));
      s.removed = true;
      c.Count("objects removed");
      for (size_t k = 0; k < s.shared_axioms.items.size(); k++) s.shared_axioms.texts[k] = Text(s.shared_axioms.items[k]);
    }
    if (s.with_problem && r.Chance(20)) {
      State st = SomeState();
      s.pddl->set_initial_state(std::move(st));
    }
  }
};

}  // namespace

void RunCase(Ctx& c) {
  Rng& r = c.rng;
  gen::Opts o;
  o.max_objects = r.Range(1, 4);
  o.max_preds = 4;
  o.max_arity = 2;
  o.max_params = 2;
  o.depth = 2;
  o.pre_empty = 25;
  o.derived = r.Chance(50);
  o.axioms = r.Chance(50);
  o.axiom_guards = r.Chance(25);
  o.axiom_static = r.Chance(15);
  o.axiom_constraints = r.Chance(30);
  gen::Gen g(&r, o);
  std::vector<std::unique_ptr<Side>> sides;
  const int n = r.Range(1, 2);
  for (int i = 0; i < n; i++) {
    auto s = std::make_unique<Side>();
    s->d = r.Chance(20) ? gen::Structured(&r) : g.Make();
    s->with_problem = !r.Chance(10);
    if (!s->with_problem) {
      s->d.m.prob_objects.clear();
      s->d.m.init.clear();
    }
    c.context += s->d.domain + s->d.problem;
    WriteFile(DomainPath(c), s->d.domain);
    if (s->with_problem) s->pddl = std::make_unique<Pddl>(DomainPath(c), s->d.problem, !o.axiom_constraints && r.Chance(70));
    else s->pddl = std::make_unique<Pddl>(DomainPath(c));
    c.Seen(s->d.domain + s->d.problem);
    sides.push_back(std::move(s));
  }
  const int steps = r.Range(30, 90);
  for (int k = 0; k < steps; k++) {
    Side& s = *r.Pick(sides);
    try {
      Soup(c, s, &g).Step();
    } catch (const std::runtime_error& e) {
      // The library's own reports: facts that contradict an axiom, effects that cannot be met.
      c.Count("operations rejected");
    }
    c.Count("operations");
    if (r.Chance(8)) {
      for (auto& t : sides) t->Each([&](auto& pool, const char* kind) { pool.Verify(c, kind); });
    }
    // Facts and states of one problem shown to the other.
    if (sides.size() == 2 && r.Chance(15)) {
      for (const State& x : sides[0]->states.items) {
        for (const State& y : sides[1]->states.items) {
          (void)(x == y);
          (void)(x < y);
          for (const Proposition& p : x) (void)y.contains(p);
        }
      }
      c.Count("cross-problem comparisons");
    }
    // Another problem comes and goes.
    if (r.Chance(2)) {
      gen::Dom d = g.Make();
      const auto other = Load(c, d, false);
      (void)other->ListValidActions(other->initial_state());
      c.Count("problems that came and went");
    }
  }
  for (auto& t : sides) t->Each([&](auto& pool, const char* kind) { pool.Verify(c, kind); });
  if (c.idx < 2) c.Sample(c.context);
  // Tear down in random order.
  r.Shuffle(&sides);
  while (!sides.empty()) {
    Side& s = *sides.back();
    std::vector<std::function<void()>> clears;
    s.Each([&](auto& pool, const char*) {
      clears.push_back([&pool] {
        pool.items.clear();
        pool.items.shrink_to_fit();
      });
    });
    r.Shuffle(&clears);
    for (const auto& f : clears) f();
    sides.pop_back();
  }
}
