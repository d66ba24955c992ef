// C23: a problem whose object list was changed against a problem loaded with that list.
#include "query.h"
#include "structured.h"

namespace {

using namespace query;

bool Mentions(const ref::State& s, const std::string& object) {
  for (const std::string& f : s) {
    const std::string args = f.substr(f.find('(') + 1);
    std::string tok;
    for (const char ch : args) {
      if (ch == ',' || ch == ')' || ch == ' ') {
        if (tok == object) return true;
        tok.clear();
      } else {
        tok += ch;
      }
    }
  }
  return false;
}
bool Mentions(const ref::Sx& f, const std::string& object) {
  if (!f.list) return f.a == object;
  for (const ref::Sx& k : f.k) {
    if (Mentions(k, object)) return true;
  }
  return false;
}

bool Compare(Ctx& c, const Answers& got, const Answers& want, const std::string& log) {
  bool ok = true;
  for (const auto& kv : want) {
    const auto it = got.find(kv.first);
    const std::vector<std::string> g = it == got.end() ? std::vector<std::string>{"(no answer)"} : it->second;
    const std::string key = kv.first.substr(0, kv.first.find(' ', kv.first.find(' ') + 1));
    std::string k;
    for (const char ch : kv.first) {
      if (ch == ' ') break;
      k += ch;
    }
    ok &= c.Equal(g, kv.second, k, "after" + log + ": " + kv.first);
  }
  for (const auto& kv : got) {
    if (want.count(kv.first) == 0) {
      c.Fail("extra", "after" + log + ": " + kv.first + " answers " + Ctx::Str(kv.second) + ", nothing expected");
      ok = false;
    }
  }
  c.Count("answers compared", want.size());
  return ok;
}

}  // namespace

void RunCase(Ctx& c) {
  Rng& r = c.rng;
  gen::Opts o;
  o.max_objects = r.Range(1, 4);
  o.max_arity = 2;
  o.max_params = 2;
  o.max_types = 4;
  o.depth = 2;
  o.derived = r.Chance(40);
  o.axioms = r.Chance(45);
  o.axiom_forall = r.Chance(50) ? 60 : 12;
  o.axiom_guards = r.Chance(30);
  o.axiom_static = r.Chance(15);
  gen::Gen g(&r, o);
  gen::Dom d = r.Chance(20) ? gen::Structured(&r) : g.Make();
  ref::Model& m = d.m;
  c.context = d.domain + d.problem;
  if (r.Chance(8)) {
    // A domain without a problem has no objects to add to or to remove.
    WriteFile(DomainPath(c), d.domain);
    Pddl alone(DomainPath(c));
    const auto show = [&] {
      std::stringstream ss;
      ss << alone.objects() << alone.state_index().size();
      for (const symbolic::Action& a : alone.actions()) ss << " " << a.parameter_generator().size();
      return ss.str();
    };
    const std::string text = show();
    c.Check(!Throws([&] { alone.AddObject("n1", "object"); }).empty(), "no-problem", "an object is added without a problem");
    c.Equal(show(), text, "no-problem", "a domain after an object was refused");
    alone.RemoveObject("n1");
    for (const auto& e : m.constants) {
      alone.RemoveObject(e.first);
      break;
    }
    c.Equal(show(), text, "no-problem", "a domain after removals without a problem");
    c.Count("domains without a problem");
  }
  if (m.prob_objects.empty() && r.Chance(70)) {
    // Without any section of objects.
    const size_t at = d.problem.find("(:objects");
    if (at != std::string::npos) d.problem.erase(at, d.problem.find(')', at) + 1 - at);
    c.Count("problems without a section of objects");
  }
  const auto pddl = Load(c, d, false);
  const std::string domain_path = DomainPath(c);

  // Held across all changes.
  const ref::State held_facts = m.Derive(m.init);
  const State held = ToState(*pddl, held_facts);
  std::vector<symbolic::Proposition> held_props;
  for (const symbolic::Proposition& p : held) held_props.push_back(p);
  const std::vector<symbolic::Action>& actions = pddl->actions();
  const symbolic::Action* first = actions.empty() ? nullptr : &actions[0];

  std::vector<std::string> types = m.type_order;
  types.push_back("object");
  static const std::vector<std::string> kNew = {"n1", "n2", "n3", "n10"};
  std::string log;
  const Answers before = Query(c, *pddl, m, {held_facts}, 7);
  const int steps = r.Range(1, 5);
  bool pair_only = r.Chance(25);  // only add followed by remove
  std::string added;
  for (int k = 0; k < steps; k++) {
    const size_t w = r.Below(10);
    std::vector<std::string> removable;
    for (const auto& e : m.prob_objects) {
      if (Mentions(m.init, e.first) || Mentions(held_facts, e.first) || Mentions(m.goal, e.first)) continue;
      removable.push_back(e.first);
    }
    if (pair_only ? added.empty() : (w < 5 || removable.empty())) {
      std::string name;
      for (int t = 0; t < 10 && (name.empty() || m.HasObject(name)); t++) name = r.Pick(kNew);
      if (m.HasObject(name)) continue;
      const std::string type = m.has_types ? r.Pick(types) : "object";
      pddl->AddObject(name, type);
      m.prob_objects.emplace_back(name, type);
      log += " add " + name + " - " + type;
      added = name;
      c.Count("objects added");
    } else if (pair_only || w < 9) {
      const std::string name = pair_only ? added : r.Pick(removable);
      pddl->RemoveObject(name);
      m.prob_objects.erase(std::remove_if(m.prob_objects.begin(), m.prob_objects.end(),
                                          [&](const auto& e) { return e.first == name; }),
                           m.prob_objects.end());
      log += " remove " + name;
      added.clear();
      c.Count("objects removed");
      if (pair_only) {
        Compare(c, Query(c, *pddl, m, {held_facts}, 7), before, log + " (restored)");
        c.Count("restored");
      }
    } else {
      pddl->RemoveObject("nonesuch");
      log += " remove nothing";
    }
    if (m.Atoms().size() > 400) break;
    bool large = false;
    for (const ref::Op& op : m.actions) large |= m.Tuples(op.params).size() > 400;
    if (large) break;
    if (r.Chance(30) && k + 1 < steps) continue;  // several changes between looks

    gen::Gen::Render(&d);
    c.context = d.domain + d.problem;
    const auto fresh = Load(c, d, false);
    std::vector<ref::State> states = {m.Derive(m.init)};
    for (int i = 0; i < 2; i++) states.push_back(m.Derive(g.RandomState(m, r.Pick(std::vector<int>{20, 60, 95}))));
    const uint64_t salt = r.Next();
    Compare(c, Query(c, *pddl, m, states, salt), Query(c, *fresh, m, states, salt), log);
    if (m.axioms.empty()) {
      for (const ref::State& s : states) {
        c.Equal(Sorted(pddl->ListValidActions(ToState(*pddl, s))), Sorted(m.ValidCalls(s)), "reference",
                "after" + log + ": valid actions in " + Ctx::Str(s));
      }
    }
    // Searches.
    if (r.Chance(30)) {
      const size_t depth = m.ValidCalls(states[1]).size() > 30 ? 1 : 2;
      const auto plans = [&](const Pddl& p) {
        std::vector<std::string> out;
        const Planner planner(p, ToState(p, states[1]));
        const symbolic::BreadthFirstSearch<Planner::Node> bfs(planner.root(), depth);
        for (const auto& plan : bfs) {
          std::string s;
          for (const Planner::Node& n : plan) s += " " + n.action() + Ctx::Str(Facts(n.state()));
          out.push_back(s);
          if (out.size() > 200) return std::vector<std::string>{"many"};
        }
        return Sorted(out);
      };
      c.Equal(plans(*pddl), plans(*fresh), "search", "after" + log + ": plans from " + Ctx::Str(states[1]));
      c.Count("searches");
    }
    // What was held before is still usable.
    c.Equal(Facts(held), held_facts, "held", "after" + log + ": held state");
    for (const symbolic::Proposition& p : held_props) {
      c.Check(held.contains(p) && ToState(*pddl, held_facts).contains(p), "held", "after" + log + ": held fact " + p.to_string());
    }
    c.Check(first == nullptr || first == &pddl->actions()[0], "held", "after" + log + ": the actions moved");
    c.Equal(pddl->IsGoalSatisfied(held), fresh->IsGoalSatisfied(ToState(*fresh, held_facts)), "held", "after" + log + ": goal in held state");
    if (first != nullptr) {
      for (const auto& t : m.Tuples(m.actions[0].params)) {
        const symbolic::Action& ref_action = FindAction(*fresh, first->name());
        if (first->name() != m.actions[0].name) break;
        c.Equal(Facts(first->Apply(held, ToArgs(*pddl, t))), Facts(ref_action.Apply(ToState(*fresh, held_facts), ToArgs(*fresh, t))),
                "held", "after" + log + ": held action applied to held state");
        if (r.Chance(30)) break;
      }
    }
    c.Count("comparisons with a fresh load");
    c.Seen(c.context + log);
  }
  (void)domain_path;
  if (c.idx < 2) c.Sample(log + "\n" + d.domain + d.problem);
}
