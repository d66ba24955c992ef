// C12: listings of valid actions and arguments.
#include "world.h"

namespace {

using symbolic::Action;
using symbolic::State;

}  // namespace

void RunCase(Ctx& c) {
  gen::Opts o;
  o.max_objects = c.rng.Range(1, 7);
  o.max_actions = 5;
  o.depth = c.rng.Range(1, 3);
  o.derived = c.rng.Chance(20);
  gen::Gen g(&c.rng, o);
  const World w = MakeWorld(c, &g);
  const symbolic::Pddl& pddl = *w.pddl;
  const ref::Model& m = w.m();

  std::vector<ref::State> states = {m.init, {}};
  for (const int p : {20, 50, 80}) states.push_back(g.RandomState(m, p, true));
  for (const ref::State& s : states) {
    const State state = ToState(pddl, s);
    const State before = state;
    const std::string at = " in " + Ctx::Str(s);
    // Expected calls, grouped by action in declaration order.
    std::vector<std::vector<std::string>> groups;
    std::vector<std::string> flat;
    for (const ref::Op& op : m.actions) {
      groups.emplace_back();
      for (const ref::Args& t : m.Tuples(op.params)) {
        if (m.Applicable(op, t, s)) groups.back().push_back(ref::Fact(op.name, t));
      }
      std::sort(groups.back().begin(), groups.back().end());
      flat.insert(flat.end(), groups.back().begin(), groups.back().end());
    }
    const std::vector<std::string> listed = pddl.ListValidActions(state);
    // Order between actions is fixed, order within one action is not.
    std::vector<std::string> canon = listed;
    const auto idx = [&](const std::string& call) {
      for (size_t i = 0; i < m.actions.size(); i++) {
        if (m.actions[i].name == call.substr(0, call.find('('))) return i;
      }
      return m.actions.size();
    };
    for (size_t i = 1; i < listed.size(); i++) {
      c.Check(idx(listed[i - 1]) <= idx(listed[i]), "order", listed[i - 1] + " is listed before " + listed[i] + at);
    }
    std::sort(canon.begin(), canon.end(), [&](const std::string& a, const std::string& b) {
      return std::make_pair(idx(a), a) < std::make_pair(idx(b), b);
    });
    c.Check(canon == flat, "listing", "valid actions " + Ctx::Str(canon) + ", expected " + Ctx::Str(flat) + at);
    c.Check(pddl.ListValidActions(state) == listed, "repeat", "listing again differs" + at);
    c.Check(pddl.ListValidActions(s) == listed, "text", "text-based listing differs" + at);
    c.Count("listings");
    c.Count("listed calls", listed.size());
    if (listed.empty()) c.Count("empty listings");

    std::vector<std::string> from_args;
    for (const Action& act : pddl.actions()) {
      const ref::Op* op = m.Action(act.name());
      if (op == nullptr) {
        c.Fail("declared", "unknown action " + act.name());
        continue;
      }
      const auto args = pddl.ListValidArguments(state, act);
      std::vector<std::vector<std::string>> names;
      std::vector<std::string> calls;
      for (const auto& a : args) {
        names.push_back(Names(a));
        calls.push_back(ref::Fact(act.name(), names.back()));
        from_args.push_back(act.to_string(a));
      }
      std::sort(calls.begin(), calls.end());
      c.Check(calls == groups[idx(act.name() + "(")], "arguments", "valid arguments of " + act.name() + ": " + Ctx::Str(calls) + ", expected " + Ctx::Str(groups[idx(act.name() + "(")]) + at);
      c.Check(pddl.ListValidArguments(s, act.name()) == names, "arguments-text", "text-based arguments of " + act.name() + at);
      // A copy and an action looked up by name list the same.
      const Action copy(pddl, act.name());
      c.Check(pddl.ListValidArguments(state, copy) == args, "arguments-copy", "arguments of a fresh " + act.name() + at);
    }
    c.Check(from_args == listed, "agree", "per-action listing " + Ctx::Str(from_args) + ", overall listing " + Ctx::Str(listed) + at);

    // Listed calls are accepted; every other type-correct call is judged invalid.
    const std::set<std::string> set(listed.begin(), listed.end());
    for (const ref::Op& op : m.actions) {
      std::vector<ref::Args> tuples = m.Tuples(op.params);
      c.rng.Shuffle(&tuples);
      if (tuples.size() > 6) tuples.resize(6);
      for (const ref::Args& t : tuples) {
        const std::string call = ref::Fact(op.name, t);
        c.Equal(pddl.IsValidAction(state, call), set.count(call) > 0, "judged", "IsValidAction " + call + at);
        c.Count("calls judged");
      }
    }
    for (size_t i = 0; i < listed.size() && i < 5; i++) {
      const std::string& call = c.rng.Pick(listed);
      c.Check(pddl.IsValidAction(state, call), "accepted", "listed call " + call + " is judged invalid" + at);
      const auto parsed = Action::Parse(pddl, call);
      c.Equal(parsed.first.to_string(parsed.second), call, "accepted", "listed call read back");
    }
    c.Check(state == before, "input", "listing changed the state" + at);
    c.Seen(Ctx::Str(flat) + at);
  }
  if (c.idx < 2) c.Sample(w.d.domain);
}
