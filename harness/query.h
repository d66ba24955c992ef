/**
 * Every question one can ask a problem, answered at given states; answers of equal problems are equal.
 */
#ifndef VERIF_QUERY_H_
#define VERIF_QUERY_H_

#include <symbolic/planning/breadth_first_search.h>

#include "dnf.h"
#include "world.h"

namespace query {

using symbolic::Object;
using symbolic::Pddl;
using symbolic::Planner;
using symbolic::State;

using Answers = std::map<std::string, std::vector<std::string>>;

inline std::vector<std::string> Sorted(std::vector<std::string> v) {
  std::sort(v.begin(), v.end());
  return v;
}
inline std::vector<std::string> List(const State& s) {
  const ref::State f = Facts(s);
  return {f.begin(), f.end()};
}
inline std::string Text(const std::vector<Object>& args) {
  std::stringstream ss;
  ss << args;
  return ss.str();
}

inline std::vector<std::string> List(const symbolic::ParameterGenerator& gen) {
  std::vector<std::string> out;
  for (const std::vector<Object>& args : gen) out.push_back(Text(args));
  return Sorted(out);
}

// Every query there is, at the states given as text.
inline Answers Query(Ctx& c, const Pddl& pddl, const ref::Model& m, const std::vector<ref::State>& states, uint64_t salt,
                     bool type_check = true) {
  Answers a;
  Rng r(salt);  // same choices for both problems
  for (const Object& o : pddl.objects()) a["objects"].push_back(o.name() + " - " + o.type().name());
  a["objects"] = Sorted(a["objects"]);
  for (const auto& kv : pddl.object_map()) {
    for (const Object& o : kv.second) a["group " + kv.first].push_back(o.name());
    a["group " + kv.first] = Sorted(a["group " + kv.first]);
    if (kv.second.empty()) a.erase("group " + kv.first);
  }
  for (const Object& o : pddl.constants()) a["constants"].push_back(o.name() + " - " + o.type().name());
  a["initial"] = List(pddl.initial_state());
  for (const auto& p : pddl.predicates()) a["instances " + p.name()] = List(p.parameter_generator());
  for (const auto& p : pddl.actions()) a["instances of action " + p.name()] = List(p.parameter_generator());
  size_t i = 0;
  std::vector<std::string> derived_lists;
  for (const auto& p : pddl.derived_predicates()) {
    std::string s = p.name();
    for (const std::string& t : List(p.parameter_generator())) s += " " + t;
    derived_lists.push_back(s);
  }
  a["instances of rules"] = Sorted(derived_lists);
  std::vector<std::string> index;
  for (const symbolic::Proposition& p : pddl.state_index()) {
    index.push_back(p.to_string());
    const size_t pos = pddl.state_index().GetPropositionIndex(p);
    c.Check(pddl.state_index().GetProposition(pos) == p, "index", "position of " + p.to_string());
  }
  a["state index"] = Sorted(index);
  a["state index size"] = {std::to_string(pddl.state_index().size())};
  if (type_check) a["valid"] = {std::to_string(pddl.IsValid())};
  for (const ref::State& rs : states) {
    const std::string at = " in state " + std::to_string(i++) + " " + Ctx::Str(rs);
    const State s = ToState(pddl, rs);
    a["goal" + at] = {std::to_string(pddl.IsGoalSatisfied(s))};
    a["state valid" + at] = {std::to_string(pddl.IsValidState(s))};
    const std::vector<std::string> calls = Sorted(pddl.ListValidActions(s));
    a["valid actions" + at] = calls;
    a["derived" + at] = List(pddl.DerivedState(s));
    a["consistent" + at] = List(pddl.ConsistentState(s));
    a["indexed" + at] = {};
    const auto bits = pddl.state_index().GetIndexedState(s);
    a["indexed" + at] = List(pddl.state_index().GetState(bits));
    for (const symbolic::Action& act : pddl.actions()) {
      std::vector<std::string> args;
      for (const auto& t : pddl.ListValidArguments(s, act)) args.push_back(Text(t));
      a["valid arguments of " + act.name() + at] = Sorted(args);
    }
    // Successors: by the problem, by the action, for valid and other calls.
    for (const ref::Op& op : m.actions) {
      const auto tuples = m.Tuples(op.params);
      for (int k = 0; k < 4 && !tuples.empty(); k++) {
        const std::string call = ref::Fact(op.name, tuples[r.Below(tuples.size())]);
        a["is valid " + call + at] = {std::to_string(pddl.IsValidAction(s, call))};
        a["next " + call + at] = List(pddl.NextState(s, call));
        const auto parsed = symbolic::Action::Parse(pddl, call);
        a["apply " + call + at] = List(parsed.first.Apply(s, parsed.second));
        const symbolic::Action& listed = FindAction(pddl, op.name);
        a["listed apply " + call + at] = List(listed.Apply(s, parsed.second));
        a["listed valid " + call + at] = {std::to_string(listed.IsValid(s, parsed.second))};
      }
    }
    const Planner planner(pddl, s);
    std::vector<std::string> children;
    const Planner::Node root = planner.root();
    for (const Planner::Node& n : root) children.push_back(n.action() + " -> " + Ctx::Str(Facts(n.state())));
    a["children" + at] = Sorted(children);
  }
  // Normal forms.
  const auto show = [&](const std::optional<symbolic::DisjunctiveFormula>& d) {
    const Dnf x = Read(d);
    if (!x) return std::vector<std::string>{"never"};
    std::vector<std::string> out;
    for (const auto& conj : *x) out.push_back("+" + Ctx::Str(conj.first) + " -" + Ctx::Str(conj.second));
    return Sorted(out);
  };
  double worst = 0;
  Size(m, m.goal, &worst);
  if (worst <= 200) {
    a["normal goal"] = show(symbolic::DisjunctiveFormula::NormalizeGoal(pddl));
    c.Count("normal forms");
  }
  for (const ref::Op& op : m.actions) {
    worst = 0;
    Size(m, op.pre, &worst);
    const auto tuples = m.Tuples(op.params);
    if (worst > 200 || tuples.empty()) continue;
    const std::string call = ref::Fact(op.name, tuples[r.Below(tuples.size())]);
    a["normal precondition " + call] = show(symbolic::DisjunctiveFormula::NormalizePreconditions(pddl, call));
    c.Count("normal forms");
  }
  return a;
}

}  // namespace query

#endif  // VERIF_QUERY_H_
