// C20: searches against exhaustive enumeration of the bounded plans.
#include <symbolic/planning/a_star.h>
#include <symbolic/planning/breadth_first_search.h>
#include <symbolic/planning/depth_first_search.h>

#include <iostream>

#include <unordered_map>

#include "structured.h"
#include "world.h"

namespace {

using symbolic::AStar;
using symbolic::BreadthFirstSearch;
using symbolic::DepthFirstSearch;
using symbolic::SearchNode;

// A plan as text: one line per node, label first.
using Plan = std::vector<std::string>;

std::string Show(const Plan& p) {
  std::string s;
  for (const std::string& x : p) s += "\n      " + x;
  return s;
}
std::string Show(const std::vector<Plan>& v) {
  std::string s = std::to_string(v.size()) + " plans";
  for (size_t i = 0; i < v.size() && i < 6; i++) s += "\n    plan" + Show(v[i]);
  return s;
}

// Search nodes of a generated tree. A node that was moved from is poisoned, so that a search that
// still uses it is noticed.
struct Tree {
  std::vector<std::vector<int>> children;
  std::vector<bool> goal;
};
struct TNode {
  const Tree* tree = nullptr;
  int id = -1;
  TNode(const Tree* t, int i) : tree(t), id(i) {}
  TNode(const TNode& o) : tree(o.tree), id(o.Id()) {}
  TNode(TNode&& o) noexcept : tree(o.tree), id(o.id) { o.id = -1; }
  TNode& operator=(const TNode& o) {
    tree = o.tree;
    id = o.Id();
    return *this;
  }
  TNode& operator=(TNode&& o) noexcept {
    tree = o.tree;
    id = o.id;
    if (&o != this) o.id = -1;
    return *this;
  }
  int Id() const {
    if (id < 0) throw std::logic_error("a search used a moved-from node");
    return id;
  }
  struct iterator {
    const Tree* tree;
    int parent;
    size_t i;
    TNode operator*() const { return TNode(tree, tree->children[parent][i]); }
    iterator& operator++() {
      ++i;
      return *this;
    }
    bool operator!=(const iterator& o) const { return i != o.i; }
  };
  iterator begin() const { return {tree, Id(), 0}; }
  iterator end() const { return {tree, Id(), tree->children[Id()].size()}; }
  explicit operator bool() const { return tree->goal[Id()]; }
  friend std::ostream& operator<<(std::ostream& os, const TNode& n) { return os << "node " << n.Id(); }
};

std::string Text(const TNode& n) { return std::to_string(n.Id()); }
// Priorities ask for the same texts again and again.
std::unordered_map<symbolic::State, std::string> g_texts;

std::string Text(const symbolic::Planner::Node& n) {
  std::string& text = g_texts[n.state()];
  if (text.empty()) text = Ctx::Str(Facts(n.state()));
  return n.action() + " -> " + text;
}

template <typename NodeT>
Plan Text(const std::vector<NodeT>& nodes) {
  Plan p;
  for (const NodeT& n : nodes) p.push_back(Text(n));
  return p;
}

// A random total order on search nodes that need not favour short plans.
struct Priority {
  uint64_t salt = 0;
  int mode = 0;  // 0: shortest first, 1: longest first, 2: hash of the last state, 3: cost + hash
  Ctx* c = nullptr;
  size_t Cost(const Plan& p) const {
    const size_t h = Fnv(p.back(), salt) % 7;
    return mode == 0 ? p.size() : mode == 1 ? 1000 - p.size() : mode == 2 ? h : p.size() + h;
  }
  bool Less(const Plan& a, const Plan& b) const {  // a comes out after b
    const size_t ca = Cost(a), cb = Cost(b);
    return ca != cb ? ca > cb : a > b;
  }
  template <typename NodeT>
  bool operator()(const SearchNode<NodeT>& a, const SearchNode<NodeT>& b) const {
    Plan pa = Text(a.ancestors), pb = Text(b.ancestors);
    pa.push_back(Text(a.node));
    pb.push_back(Text(b.node));
    return Less(pa, pb);
  }
};

template <typename It>
std::vector<Plan> Drain(Ctx& c, It it, const It& end, size_t expected) {
  std::vector<Plan> out;
  while (it != end) {
    out.push_back(Text(*it));
    if (out.size() > expected + 20) break;
    ++it;
  }
  if (out.size() <= expected) {
    c.Check(it == end, "end", "a finished search does not equal its end");
    ++it;
    c.Check(it == end, "end", "a finished search resumes");
  }
  return out;
}

std::vector<Plan> Sorted(std::vector<Plan> v) {
  std::sort(v.begin(), v.end());
  return v;
}

// `expand(plan)` lists the texts of the children of the plan's last node; `goal(plan)` judges it.
// Returns false without having checked anything if the problem is too small to be interesting and `picky`.
template <typename NodeT>
bool CheckSearches(Ctx& c, const NodeT& root, size_t depth, const Plan& root_plan,
                   const std::function<std::vector<std::string>(const Plan&)>& expand,
                   const std::function<bool(const Plan&)>& goal, const std::string& kind, size_t max_visited, bool picky) {
  // Every bounded path ending in its first goal, found by plain enumeration.
  std::vector<Plan> plans;
  size_t visited = 0;
  std::vector<Plan> todo = {root_plan};
  std::map<Plan, std::vector<Plan>> children;
  while (!todo.empty()) {
    const Plan p = todo.back();
    todo.pop_back();
    if (++visited > max_visited) {
      c.Count(kind + "problems skipped (too large)");
      return false;
    }
    if (goal(p)) {
      plans.push_back(p);
      continue;
    }
    if (p.size() > depth) continue;
    std::vector<Plan>& list = children[p];
    for (const std::string& x : expand(p)) {
      list.push_back(p);
      list.back().push_back(x);
      todo.push_back(list.back());
    }
  }
  if (picky && visited < 8) return false;
  const std::vector<Plan> expected = Sorted(plans);
  const std::string at = " with depth bound " + std::to_string(depth);
  c.Count(kind + "problems");
  c.Count(kind + (expected.empty() ? "problems without plan" : "problems with plans"));
  c.Count(kind + "plans", expected.size());
  c.Count(kind + "paths", visited);
  c.Seen(kind + at + Show(root_plan) + std::to_string(visited) + Show(expected));

  // Breadth first.
  {
    const BreadthFirstSearch<NodeT> search(root, depth);
    const auto got = Drain(c, search.begin(), search.end(), expected.size());
    c.Check(Sorted(got) == expected, "bfs", "breadth-first search" + at + " returns " + Show(got) + "\n  expected " + Show(expected));
    for (size_t i = 1; i < got.size(); i++) {
      c.Check(got[i - 1].size() <= got[i].size(), "bfs-order", "breadth-first search" + at + " returns a plan of length " + std::to_string(got[i].size() - 1) + " after one of length " + std::to_string(got[i - 1].size() - 1));
    }
    const auto again = Drain(c, search.begin(), search.end(), expected.size());
    c.Check(again == got, "bfs-again", "breadth-first search differs when run again" + at);
    if (!got.empty()) {
      // A copy taken on the way continues on its own.
      auto it = search.begin();
      const size_t k = c.rng.Below(got.size());
      for (size_t i = 0; i < k; i++) ++it;
      const auto copy = it;
      const auto rest = Drain(c, it, search.end(), got.size() - k);
      const auto rest2 = Drain(c, copy, search.end(), got.size() - k);
      const std::vector<Plan> tail(got.begin() + k, got.end());
      c.Check(rest == tail && rest2 == tail, "bfs-copy", "a copied breadth-first iterator differs" + at);
    }
    // Verbose output and a generous timeout change nothing.
    std::stringstream sink;
    std::streambuf* old = std::cout.rdbuf(sink.rdbuf());
    const BreadthFirstSearch<NodeT> verbose(root, depth, true, std::chrono::hours(1));
    std::vector<Plan> loud;
    try {
      loud = Drain(c, verbose.begin(), verbose.end(), expected.size());
    } catch (...) {
      std::cout.rdbuf(old);
      throw;
    }
    std::cout.rdbuf(old);
    c.Check(loud == got, "bfs-verbose", "breadth-first search differs when verbose" + at);
    // A timeout may cut the search short, nothing else.
    const BreadthFirstSearch<NodeT> hurried(root, depth, false, std::chrono::microseconds(c.rng.Range(1, 300)));
    const auto some = Drain(c, hurried.begin(), hurried.end(), expected.size());
    c.Check(some.size() <= got.size() && std::equal(some.begin(), some.end(), got.begin()), "bfs-timeout", "a search cut short returns other plans" + at + ": " + Show(some));
    c.Count(some.size() < got.size() ? "searches cut short" : "searches with timeout completed");
  }
  // Depth first.
  {
    DepthFirstSearch<NodeT> search(root, depth);
    const auto got = Drain(c, search.begin(), search.end(), expected.size());
    c.Check(Sorted(got) == expected, "dfs", "depth-first search" + at + " returns " + Show(got) + "\n  expected " + Show(expected));
    const auto again = Drain(c, search.begin(), search.end(), expected.size());
    c.Check(again == got, "dfs-again", "depth-first search differs when run again" + at);
    if (!got.empty()) {
      auto it = search.begin();
      const size_t k = c.rng.Below(got.size());
      for (size_t i = 0; i < k; i++) ++it;
      const auto copy = it;
      const auto rest = Drain(c, it, search.end(), got.size() - k);
      const auto rest2 = Drain(c, copy, search.end(), got.size() - k);
      const std::vector<Plan> tail(got.begin() + k, got.end());
      c.Check(rest == tail && rest2 == tail, "dfs-copy", "a copied depth-first iterator differs" + at);
    }
  }
  // Best first: with a total order the whole sequence is determined.
  for (int mode = 0; mode < 4; mode++) {
    const Priority prio{c.rng.Next(), mode, &c};
    std::vector<Plan> order;
    std::vector<Plan> queue = {root_plan};
    while (!queue.empty()) {
      auto best = queue.begin();
      for (auto it = queue.begin(); it != queue.end(); ++it) {
        if (prio.Less(*best, *it)) best = it;
      }
      const Plan p = *best;
      queue.erase(best);
      if (goal(p)) {
        order.push_back(p);
        continue;
      }
      const auto it = children.find(p);
      if (it == children.end()) continue;
      queue.insert(queue.end(), it->second.begin(), it->second.end());
      if (queue.size() > 400) break;
    }
    if (!queue.empty()) {
      c.Count("best-first runs skipped (queue too long)");
      continue;
    }
    AStar<NodeT, Priority> search(prio, root, depth);
    const auto got = Drain(c, search.begin(), search.end(), order.size());
    c.Check(Sorted(got) == expected, "a-star", "best-first search" + at + " returns " + Show(got) + "\n  expected " + Show(expected));
    if (Sorted(got) == expected) {
      c.Check(got == order, "a-star-order", "best-first search" + at + " does not respect priority " + std::to_string(mode) + ": " + Show(got) + "\n  expected " + Show(order));
    }
    c.Count("best-first runs");
    if (mode == 0 && !got.empty()) {
      auto it = search.begin();
      const size_t k = c.rng.Below(got.size());
      for (size_t i = 0; i < k; i++) ++it;
      const auto copy = it;
      const auto rest = Drain(c, it, search.end(), got.size() - k);
      const auto rest2 = Drain(c, copy, search.end(), got.size() - k);
      const std::vector<Plan> tail(got.begin() + k, got.end());
      c.Check(rest == tail && rest2 == tail, "a-star-copy", "a copied best-first iterator differs" + at);
    }
  }
  // A priority with many ties leaves the order open, not the plans.
  {
    struct Ties {
      bool operator()(const SearchNode<NodeT>& a, const SearchNode<NodeT>& b) const {
        return a.ancestors.size() > b.ancestors.size();
      }
    };
    const Ties ties;
    AStar<NodeT, Ties> search(ties, root, depth);
    const auto got = Drain(c, search.begin(), search.end(), expected.size());
    c.Check(Sorted(got) == expected, "a-star", "best-first search with ties" + at + " returns " + Show(got) + "\n  expected " + Show(expected));
    for (size_t i = 1; i < got.size(); i++) {
      c.Check(got[i - 1].size() <= got[i].size(), "a-star-order", "best-first search by length returns a shorter plan later" + at);
    }
  }
  return true;
}

void OnTree(Ctx& c) {
  Tree tree;
  const int n = c.rng.Range(1, 60);
  tree.children.resize(n);
  const int fan = c.rng.Range(1, 4);
  for (int i = 1; i < n; i++) {
    // Deep or bushy.
    const int parent = c.rng.Chance(50) ? static_cast<int>(c.rng.Below(i)) : std::max(0, i - c.rng.Range(1, fan));
    tree.children[parent].push_back(i);
  }
  const int goals = c.rng.Pick(std::vector<int>{0, 5, 20, 60});
  for (int i = 0; i < n; i++) tree.goal.push_back(c.rng.Chance(goals));
  const TNode root(&tree, 0);
  std::string text;
  for (int i = 0; i < n; i++) {
    text += std::to_string(i) + (tree.goal[i] ? "*" : "") + " -> ";
    for (const int k : tree.children[i]) text += std::to_string(k) + " ";
    text += "\n";
  }
  c.context = text;
  CheckSearches<TNode>(
      c, root, c.rng.Below(9), {"0"},
      [&](const Plan& p) {
        std::vector<std::string> out;
        for (const int k : tree.children[std::stoi(p.back())]) out.push_back(std::to_string(k));
        return out;
      },
      [&](const Plan& p) -> bool { return tree.goal[std::stoi(p.back())]; }, "tree: ",
      c.thorough ? 4000 : 1500, false);
}

bool OnPlanner(Ctx& c, bool picky) {
  gen::Opts o;
  o.max_objects = c.rng.Range(1, 3);
  o.max_preds = 3;
  o.max_arity = c.rng.Range(1, 2);
  o.max_params = 2;
  o.depth = c.rng.Range(0, 2);
  o.pre_empty = c.rng.Chance(50) ? 5 : 45;
  o.empty_types = c.rng.Chance(30);
  o.derived = c.rng.Chance(25);
  gen::Gen g(&c.rng, o);
  World w;
  int places = 0;
  const bool ring = c.rng.Chance(15);
  const bool structured = ring || c.rng.Chance(40);
  w.d = ring ? gen::Ring(&c.rng, &places) : structured ? gen::Structured(&c.rng) : g.Make();
  ref::Model& m = w.d.m;
  // Goals that need work: a few facts of a state reached by a random walk.
  if (!structured && c.rng.Chance(75)) {
    ref::State s = m.init;
    for (int k = c.rng.Range(1, 5); k > 0; k--) {
      std::vector<ref::State> next;
      for (const ref::Op& op : m.actions) {
        for (const ref::Args& t : m.Tuples(op.params)) {
          if (m.Applicable(op, t, s)) next.push_back(m.Next(op, t, s));
        }
      }
      if (next.empty()) break;
      s = c.rng.Pick(next);
    }
    std::vector<ref::Sx> k = {gen::Gen::A("and")};
    std::vector<std::string> atoms = m.Atoms();
    c.rng.Shuffle(&atoms);
    for (size_t i = 0; i < atoms.size() && i < 3; i++) {
      const ref::Sx a = ref::Parse(gen::Gen::FactSx(atoms[i]));
      k.push_back(s.count(atoms[i]) ? a : gen::Gen::L({gen::Gen::A("not"), a}));
    }
    m.goal = gen::Gen::L(k);
    gen::Gen::Render(&w.d);
  }
  c.context = w.d.domain + w.d.problem;
  w.pddl = Load(c, w.d);
  const symbolic::Pddl& pddl = *w.pddl;
  const bool from_init = !structured && c.rng.Chance(60);
  const ref::State start = from_init ? m.init : m.Derive(structured ? m.init : g.RandomState(m, 40));
  struct Forget {
    ~Forget() { g_texts.clear(); }
  } forget;
  const auto planner = from_init ? std::make_unique<symbolic::Planner>(pddl) : std::make_unique<symbolic::Planner>(pddl, ToState(pddl, start));
  // Node texts carry the whole state, so states can be kept aside by text.
  std::map<std::string, ref::State> states;
  const std::string root_text = " -> " + Ctx::Str(start);
  states[root_text] = start;
  return CheckSearches<symbolic::Planner::Node>(
      c, planner->root(), c.rng.Chance(8) ? 0 : ring ? c.rng.Range(places / 2, places + 3) : c.rng.Range(1, c.thorough ? 7 : 5),
      {root_text},
      [&](const Plan& p) {
        std::vector<std::string> out;
        const ref::State s = states.at(p.back());
        for (const ref::Op& op : m.actions) {
          for (const ref::Args& t : m.Tuples(op.params)) {
            if (!m.Applicable(op, t, s)) continue;
            const ref::State next = m.Next(op, t, s);
            bool repeated = false;
            for (const std::string& x : p) repeated |= states.at(x) == next;
            if (repeated) continue;
            out.push_back(ref::Fact(op.name, t) + " -> " + Ctx::Str(next));
            states[out.back()] = next;
          }
        }
        return out;
      },
      [&](const Plan& p) { return m.Eval(m.goal, {}, states.at(p.back())); }, "planner: ",
      // The priorities compare texts of states.
      (c.thorough ? 60000 : 22000) / (20 + m.Atoms().size()), picky);
}

}  // namespace

void RunCase(Ctx& c) {
  if (c.rng.Chance(40)) {
    OnTree(c);
  } else {
    const bool picky = c.rng.Chance(80);
    for (int k = 0; k < 6; k++) {
      if (OnPlanner(c, picky)) break;
    }
  }
  if (c.idx < 3) c.Sample(c.context);
}
