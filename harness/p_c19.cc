// C19: children of search nodes against the reference transition system.
#include "structured.h"
#include "world.h"

namespace {

using symbolic::Planner;
using symbolic::State;
using Node = symbolic::Planner::Node;

struct Child {
  std::string action;
  ref::State state;
  size_t depth;
  bool operator==(const Child& o) const { return action == o.action && state == o.state && depth == o.depth; }
};

std::string Show(const std::vector<Child>& v) {
  std::string s;
  for (const Child& x : v) s += "\n    " + x.action + " -> " + Ctx::Str(x.state) + " @" + std::to_string(x.depth);
  return s.empty() ? " none" : s;
}

Child Read(const Node& n) { return {n.action(), Facts(n.state()), n.depth()}; }

std::vector<Child> Forward(const Node& n) {
  std::vector<Child> out;
  for (const Node& child : n) out.push_back(Read(child));
  return out;
}

}  // namespace

void RunCase(Ctx& c) {
  gen::Opts o;
  o.max_objects = c.rng.Range(1, 4);
  o.max_preds = 4;
  o.max_arity = 2;
  o.depth = c.rng.Range(0, 2);
  o.pre_empty = c.rng.Chance(50) ? 5 : 45;
  o.empty_types = c.rng.Chance(30);
  o.derived = c.rng.Chance(35);
  o.axioms = c.rng.Chance(15);
  gen::Gen g(&c.rng, o);
  World w;
  int places = 0;
  const bool ring = c.rng.Chance(12);
  w.d = ring ? gen::Ring(&c.rng, &places) : c.rng.Chance(30) ? gen::Structured(&c.rng) : g.Make();
  if (!ring && c.rng.Chance(4)) {
    w.d.m.actions.clear();
    gen::Gen::Render(&w.d);
  }
  c.context = w.d.domain + w.d.problem;
  w.pddl = Load(c, w.d);
  const symbolic::Pddl& pddl = *w.pddl;
  const ref::Model& m = w.m();

  const bool from_init = ring || c.rng.Chance(50);
  const ref::State start = from_init ? Facts(pddl.initial_state()) : m.Derive(g.RandomState(m, c.rng.Pick(std::vector<int>{10, 40, 80})));
  const auto planner = from_init ? std::make_unique<Planner>(pddl) : std::make_unique<Planner>(pddl, ToState(pddl, start));
  Node node = planner->root();
  if (m.axioms.empty()) {
    c.Check(Facts(node.state()) == start, "root", "root holds " + Ctx::Str(Facts(node.state())) + ", expected " + Ctx::Str(start));
  }
  c.Equal(node.depth(), size_t{0}, "root", "depth of the root");
  c.Check(node.action().empty(), "root", "action of the root is " + node.action());

  std::set<ref::State> ancestors;
  const size_t max_level = ring ? 2 * places + 2 : c.rng.Range(1, 6);
  for (size_t level = 0; level < max_level; level++) {
    const ref::State s = Facts(node.state());
    c.Equal(static_cast<bool>(node), m.Eval(m.goal, {}, s), "goal", "goal verdict in " + Ctx::Str(s));
    // What expansion owes.
    std::vector<Child> expected;
    size_t repeats = 0;
    for (const ref::Op& op : m.actions) {
      for (const ref::Args& t : m.Tuples(op.params)) {
        if (!m.Applicable(op, t, s)) continue;
        const std::string call = ref::Fact(op.name, t);
        const ref::State next = m.axioms.empty() ? m.Next(op, t, s) : Facts(pddl.NextState(node.state(), call));
        if (next == s || ancestors.count(next) > 0) {
          repeats++;
          if (next != s) c.Count("successors equal to an ancestor");
          if (next != s && level >= 5) c.Count("successors equal to an ancestor at depth 5 or more");
          continue;
        }
        expected.push_back({call, next, level + 1});
      }
    }
    const std::string at = " of node " + node.action() + " at depth " + std::to_string(level) + " with state " + Ctx::Str(s);
    const std::vector<Child> got = Forward(node);
    c.Check(got == expected, "children", "children" + at + " are" + Show(got) + "\n  expected" + Show(expected));
    c.Check(Forward(node) == got, "again", "expanding again gives other children" + at);
    c.Count("nodes expanded");
    c.Count("children", expected.size());
    if (expected.empty()) c.Count("nodes without children");
    if (repeats > 0) c.Count("nodes with discarded successors");
    if (level >= 2) c.Count("nodes at depth 2 or more");
    c.Seen(at + std::to_string(expected.size()));
    if (got != expected) return;

    // From a copy whose original is gone.
    {
      auto original = std::make_unique<Node>(node);
      const Node copy = *original;
      original.reset();
      c.Check(Forward(copy) == got, "copy", "children of a copy differ" + at);
    }
    // Backwards from the end.
    {
      std::vector<Child> back;
      auto it = node.end();
      for (size_t i = 0; i < expected.size(); i++) {
        --it;
        back.push_back(Read(*it));
      }
      std::reverse(back.begin(), back.end());
      c.Check(back == expected, "backwards", "children backwards" + at + " are (in forward order)" + Show(back) + "\n  expected" + Show(expected));
      c.Count("backward passes");
    }
    // A walk over the children.
    {
      auto it = node.begin();
      const auto end = node.end();
      size_t pos = 0;
      for (int k = 0; k < 20; k++) {
        c.Equal(it == end, pos == expected.size(), "walk", "at the end after a walk to child " + std::to_string(pos) + at);
        c.Equal(it != end, pos != expected.size(), "walk", "not at the end after a walk to child " + std::to_string(pos) + at);
        if (pos < expected.size()) c.Check(Read(*it) == expected[pos], "walk", "walking to child " + std::to_string(pos) + at + " gives " + Show({Read(*it)}));
        if (expected.empty()) break;
        if (pos == 0 || (pos < expected.size() && c.rng.Chance(55))) {
          ++it;
          pos++;
        } else {
          --it;
          pos--;
        }
        c.Count("walk moves");
      }
    }
    // Two expansions interleaved.
    if (expected.size() > 1) {
      auto a = node.begin();
      auto b = node.begin();
      for (size_t i = 0; i < expected.size(); i++) {
        const Node child_a = *a;
        ++a;
        c.Check(Read(*b) == expected[i] && Read(child_a) == expected[i], "interleaved", "interleaved expansions differ" + at);
        ++b;
      }
    }
    if (expected.empty()) break;
    const size_t choice = c.rng.Below(expected.size());
    // Node laws and lifetime: the child outlives its iterator and its parent.
    std::vector<Node> children;
    for (const Node& child : node) children.push_back(child);
    for (size_t i = 0; i < children.size(); i++) {
      for (size_t j = 0; j < children.size(); j++) {
        const bool same = expected[i].state == expected[j].state;
        c.Equal(children[i] == children[j], same, "node-equality", "equality of children " + expected[i].action + ", " + expected[j].action);
        if (same) {
          c.Check(std::hash<Node>{}(children[i]) == std::hash<Node>{}(children[j]), "node-equality", "equal nodes hash differently");
        }
        c.Equal(children[i] < children[j], children[i].state() < children[j].state(), "node-equality", "order of nodes");
      }
    }
    {
      std::stringstream ss;
      ss << children[choice];
      const std::string text = ss.str();
      c.Check(text.find(expected[choice].action) != std::string::npos, "print", "printed node lacks its action: " + text);
      for (const std::string& f : expected[choice].state) c.Check(text.find(f) != std::string::npos, "print", "printed node lacks " + f + ": " + text);
    }
    ancestors.insert(s);
    node = children[choice];
    children.clear();
  }
  if (c.idx < 2) c.Sample(w.d.domain);
}
