// C05: concurrent iteration of shared generators, concurrent readers of shared states, one problem per thread.
#include <sched.h>
#include <symbolic/planning/a_star.h>
#include <symbolic/planning/depth_first_search.h>

#include <atomic>
#include <thread>

#include "query.h"
#include "structured.h"

namespace {

using namespace query;
using symbolic::CombinationGenerator;
using symbolic::ParameterGenerator;
using symbolic::PartialState;
using symbolic::Proposition;

std::atomic<uint32_t> g_tick{0};
std::atomic<int> g_ready{0};
std::atomic<bool> g_go{false};

// What one thread does and sees. Nothing here orders threads: all shared counters are relaxed.
struct Worker {
  Rng rng;
  bool noise = true;
  std::vector<std::string> seen;   // results, in program order
  std::vector<uint32_t> ticks;     // global order of the steps

  explicit Worker(uint64_t seed) : rng(seed), noise_rng_(seed ^ 0xabcdef) {}
  void Step() {
    if (!noise) return;
    ticks.push_back(g_tick.fetch_add(1, std::memory_order_relaxed));
    switch (noise_rng_.Below(24)) {
      case 0: sched_yield(); break;
      case 1: {
        volatile int x = 0;
        const int n = static_cast<int>(noise_rng_.Below(2000));
        for (int i = 0; i < n; i++) x = x + 1;
        break;
      }
      case 2: std::this_thread::sleep_for(std::chrono::microseconds(noise_rng_.Below(30))); break;
    }
  }
  void See(std::string s) {
    seen.push_back(std::move(s));
    Step();
  }

 private:
  Rng noise_rng_;
};

using Body = std::function<void(int, Worker*)>;

// Runs the body in `n` threads at once, then alone (`alone` gets the objects to use instead, if they must be fresh).
void Together(Ctx& c, int n, const std::string& what, const Body& body, const Body& alone) {
  const uint64_t seed = c.rng.Next();
  std::vector<Worker> workers;
  for (int i = 0; i < n; i++) workers.emplace_back(seed + i);
  g_tick.store(0, std::memory_order_relaxed);
  g_ready.store(0, std::memory_order_relaxed);
  g_go.store(false, std::memory_order_relaxed);
  std::vector<std::string> errors(n);
  std::vector<std::thread> threads;
  for (int i = 0; i < n; i++) {
    threads.emplace_back([&, i] {
      g_ready.fetch_add(1, std::memory_order_relaxed);
      while (!g_go.load(std::memory_order_relaxed)) sched_yield();
      try {
        body(i, &workers[i]);
      } catch (const std::exception& e) {
        errors[i] = e.what();
      }
    });
  }
  while (g_ready.load(std::memory_order_relaxed) < n) sched_yield();
  g_go.store(true, std::memory_order_relaxed);
  for (std::thread& t : threads) t.join();

  std::vector<std::pair<uint32_t, int>> order;
  for (int i = 0; i < n; i++) {
    for (const uint32_t t : workers[i].ticks) order.emplace_back(t, i);
  }
  std::sort(order.begin(), order.end());
  std::string trace;
  uint64_t switches = 0;
  for (size_t k = 0; k < order.size(); k++) {
    trace += static_cast<char>('0' + order[k].second);
    if (k > 0 && order[k].second != order[k - 1].second) switches++;
  }
  c.Count("steps", order.size());
  c.Count("thread switches", switches);
  c.Count(what);
  if (switches >= static_cast<uint64_t>(n)) c.Count("runs with overlapping threads");
  c.Seen(what + trace);

  for (int i = 0; i < n; i++) {
    Worker w(seed + i);
    w.noise = false;
    std::string error;
    try {
      alone(i, &w);
    } catch (const std::exception& e) {
      error = e.what();
    }
    c.Check(errors[i] == error, "result", what + ": thread ended with '" + errors[i] + "', alone with '" + error + "'");
    if (workers[i].seen == w.seen) {
      c.Check(true, "result", "");
      continue;
    }
    size_t k = 0;
    while (k < workers[i].seen.size() && k < w.seen.size() && workers[i].seen[k] == w.seen[k]) k++;
    c.Fail("result", what + ": thread " + std::to_string(i) + " of " + std::to_string(n) + ", result " + std::to_string(k) + " is " +
                         (k < workers[i].seen.size() ? workers[i].seen[k] : "missing") + ", alone " +
                         (k < w.seen.size() ? w.seen[k] : "missing"));
  }
}

template <typename T>
std::string TupleText(const std::vector<T>& v) {
  std::stringstream ss;
  for (const T& x : v) ss << x << " ";
  return ss.str();
}
template <typename T>
std::string TupleText(const std::vector<std::reference_wrapper<T>>& v) {
  std::stringstream ss;
  for (const auto& x : v) ss << x.get() << " ";
  return ss.str();
}

// Iterates the generator in one of many ways. `begin()` of the non-const generator is used when G is not const.
template <typename G>
void Iterate(G& g, Worker* w) {
  const size_t size = g.size();
  const auto see = [&](const auto& t) { w->See(TupleText(t)); };
  const int rounds = w->rng.Range(1, 3);
  for (int round = 0; round < rounds; round++) {
    size_t budget = 150;
    switch (w->rng.Below(6)) {
      case 0:
        for (auto it = g.begin(); it != g.end() && budget-- > 0; ++it) see(*it);
        break;
      case 1:
        for (auto it = g.rbegin(); it != g.rend() && budget-- > 0; ++it) see(*it);
        break;
      case 2: {
        const auto& cg = g;
        for (auto it = cg.begin(); it != cg.end() && budget-- > 0; it++) see(*it);
        break;
      }
      case 3:
        for (int k = 0; k < 20 && size > 0; k++) {
          const int i = static_cast<int>(w->rng.Below(size));
          see(g.at(i));
          const auto t = g[i];
          see(t);
        }
        break;
      case 4: {
        // Random walk with a second iterator copied along the way.
        if (size == 0) break;
        auto it = g.begin();
        auto other = it;
        size_t pos = 0;
        for (int k = 0; k < 30; k++) {
          const size_t to = w->rng.Below(size);
          it += static_cast<int>(to) - static_cast<int>(pos);
          pos = to;
          see(*it);
          if (w->rng.Chance(20)) other = it;
          see(*other);
        }
        break;
      }
      default: {
        const std::remove_const_t<G> copy(g);
        for (auto it = copy.begin(); it != copy.end() && budget-- > 0; ++it) see(*it);
      }
    }
    w->See(std::to_string(g.size()) + (g.empty() ? "e" : ""));
  }
}

void ReadState(const symbolic::State& s, const symbolic::State& t, const std::vector<Proposition>& pool, Worker* w) {
  const int rounds = w->rng.Range(3, 10);
  for (int round = 0; round < rounds; round++) {
    switch (w->rng.Below(7)) {
      case 0:
        for (int k = 0; k < 20 && !pool.empty(); k++) {
          w->See(s.contains(w->rng.Pick(pool)) ? "in" : "out");
        }
        break;
      case 1:
        for (const Proposition& p : s) w->See(p.to_string());
        break;
      case 2: {
        auto it = s.end();
        for (size_t k = 0; k < s.size(); k++) {
          --it;
          w->See(it->to_string());
        }
        break;
      }
      case 3: {
        std::stringstream ss;
        ss << s;
        w->See(ss.str());
        const auto strings = s.Stringify();
        w->See(Ctx::Str(std::set<std::string>(strings.begin(), strings.end())));
        break;
      }
      case 4:
        w->See(std::string(s == t ? "=" : "!") + (s < t ? "<" : ".") + (t < s ? ">" : ".") + (s == s ? "=" : "!"));
        break;
      case 5: {
        // A copy is the reader's own.
        symbolic::State copy(s);
        w->See(copy == s ? "same" : "differs");
        for (int k = 0; k < 4 && !pool.empty(); k++) {
          const Proposition& p = w->rng.Pick(pool);
          w->See((w->rng.Chance(50) ? copy.insert(p) : copy.erase(p)) ? "changed" : "kept");
        }
        w->See(Ctx::Str(Facts(copy)));
        break;
      }
      default: w->See(std::to_string(s.size()) + (s.empty() ? "e" : ""));
    }
  }
}

void ReadPartial(const PartialState& s, const PartialState& t, const std::vector<Proposition>& pool, Worker* w) {
  const int rounds = w->rng.Range(3, 10);
  for (int round = 0; round < rounds; round++) {
    switch (w->rng.Below(6)) {
      case 0:
        for (int k = 0; k < 20 && !pool.empty(); k++) {
          const Proposition& p = w->rng.Pick(pool);
          w->See(std::string(s.contains(p) ? "+" : ".") + (s.does_not_contain(p) ? "-" : "."));
        }
        break;
      case 1: ReadState(s.pos(), t.pos(), pool, w); break;
      case 2: ReadState(s.neg(), s.pos(), pool, w); break;
      case 3: {
        std::stringstream ss;
        ss << s;
        w->See(ss.str());
        const auto strings = s.Stringify();
        w->See(Ctx::Str(std::set<std::string>(strings.first.begin(), strings.first.end())) +
               Ctx::Str(std::set<std::string>(strings.second.begin(), strings.second.end())));
        break;
      }
      case 4:
        w->See(std::string(s == t ? "=" : "!") + (s < t ? "<" : ".") + (s != t ? "!" : ".") + (s.IsConsistent() ? "c" : "i"));
        w->See(std::to_string(s.size()) + (s.empty() ? "e" : ""));
        break;
      default: {
        PartialState copy(s);
        for (int k = 0; k < 4 && !pool.empty(); k++) {
          const Proposition& p = w->rng.Pick(pool);
          w->See(std::to_string(w->rng.Chance(50) ? copy.insert(p) : copy.erase(p)));
        }
        w->See(Ctx::Str(Facts(copy.pos())) + Ctx::Str(Facts(copy.neg())));
      }
    }
  }
}

std::string Actions(const std::vector<Planner::Node>& plan) {
  std::string s;
  for (const Planner::Node& n : plan) s += " " + n.action() + Ctx::Str(Facts(n.state()));
  return s;
}

// A random sequence of single operations on a problem of one's own.
void UseMore(Pddl& pddl, const ref::Model& m, const std::vector<ref::State>& states, Worker* w) {
  using symbolic::DisjunctiveFormula;
  Rng& r = w->rng;
  std::vector<std::string> calls, facts = m.Atoms();
  for (const ref::Op& op : m.actions) {
    for (const ref::Args& t : m.Tuples(op.params)) {
      calls.push_back(ref::Fact(op.name, t));
      if (calls.size() > 200) break;
    }
  }
  calls.push_back("nonesuch(x)");
  if (!calls.empty()) calls.push_back(calls[0] + "x");
  const auto shuffled = [&] {
    std::string t = r.Pick(calls);
    if (r.Chance(10) && t.size() > 2) t.erase(r.Below(t.size()), 1);
    return t;
  };
  double worst = 0;
  Size(m, m.goal, &worst);
  for (const ref::Op& op : m.actions) {
    Size(m, op.pre, &worst);
    double x = 0;
    EffectSize(m, op.eff, &x);
    worst = std::max(worst, x);
  }
  const auto see_dnf = [&](const std::optional<DisjunctiveFormula>& d) {
    if (!d) return w->See("never");
    std::vector<std::string> parts;
    for (const PartialState& p : d->conjunctions) parts.push_back(Ctx::Str(Facts(p.pos())) + Ctx::Str(Facts(p.neg())));
    w->See(Ctx::Str(Sorted(parts)));
  };
  std::vector<symbolic::State> held;
  for (const ref::State& s : states) held.push_back(ToState(pddl, s));
  const int ops = r.Range(15, 40);
  for (int k = 0; k < ops; k++) {
    const symbolic::State& s = r.Pick(held);
    try {
      switch (r.Below(16)) {
        case 0: {
          symbolic::State next = pddl.NextState(s, shuffled());
          w->See(Ctx::Str(Facts(next)));
          if (held.size() < 6) held.push_back(std::move(next));
          break;
        }
        case 1: w->See(std::to_string(pddl.IsValidAction(s, shuffled()))); break;
        case 2: {
          const std::string call = shuffled();
          w->See(std::to_string(pddl.IsValidTuple(s, call, r.Chance(50) ? pddl.NextState(s, call) : r.Pick(held))));
          w->See(std::to_string(pddl.IsValidTuple(symbolic::Stringify(s), call, symbolic::Stringify(r.Pick(held)))));
          break;
        }
        case 3: w->See(std::to_string(pddl.IsValidPlan({shuffled(), shuffled()}))); break;
        case 4: w->See(Ctx::Str(Facts(pddl.ApplyActions(s, {shuffled(), shuffled()})))); break;
        case 5: {
          PartialState p;
          for (const std::string& f : facts) {
            const bool in = s.contains(Proposition(pddl, f));
            if (r.Chance(60)) in ? p.insert(Proposition(pddl, f)) : p.erase(Proposition(pddl, f));
          }
          w->See(std::to_string(pddl.IsValidState(p)));
          if (pddl.axioms().empty()) {
            const PartialState q = pddl.ConsistentState(p);
            w->See(Ctx::Str(Facts(q.pos())) + Ctx::Str(Facts(q.neg())));
          }
          break;
        }
        case 6:
        case 7: {
          if (worst > 100) break;
          const std::string call = shuffled();
          const bool axioms = r.Chance(30);
          switch (r.Below(4)) {
            case 0: see_dnf(DisjunctiveFormula::NormalizePreconditions(pddl, call, axioms)); break;
            case 1: see_dnf(DisjunctiveFormula::NormalizePostconditions(pddl, call, axioms)); break;
            case 2: see_dnf(DisjunctiveFormula::NormalizeGoal(pddl, axioms)); break;
            default: {
              const auto both = DisjunctiveFormula::NormalizeConditions(pddl, call, axioms);
              w->See(both ? "both" : "none");
              if (both) {
                see_dnf(both->first);
                see_dnf(both->second);
              }
            }
          }
          break;
        }
        case 8: {
          if (worst > 30) break;
          auto d = DisjunctiveFormula::NormalizeGoal(pddl);
          if (!d || d->conjunctions.size() > 6) break;
          size_t len = 1;
          for (const PartialState& p : d->conjunctions) len *= std::max<size_t>(1, p.size());
          if (len < 300) see_dnf(Negate(pddl, std::move(*d)));
          break;
        }
        case 9: {
          const Planner planner(pddl, s);
          const Planner::Node root = planner.root();
          symbolic::DepthFirstSearch<Planner::Node> dfs(root, 2);
          int plans = 0;
          for (const auto& plan : dfs) {
            w->See(Actions(plan));
            if (++plans >= 10) break;
          }
          break;
        }
        case 10: {
          const Planner planner(pddl, s);
          const Planner::Node root = planner.root();
          struct Shortest {
            bool operator()(const symbolic::SearchNode<Planner::Node>& a, const symbolic::SearchNode<Planner::Node>& b) const {
              return a.ancestors.size() > b.ancestors.size();
            }
          };
          const Shortest shortest;
          symbolic::AStar<Planner::Node, Shortest> search(shortest, root, 2);
          int plans = 0;
          for (const auto& plan : search) {
            w->See(Actions(plan));
            if (++plans >= 10) break;
          }
          break;
        }
        case 11: {
          const Planner planner(pddl, s);
          const symbolic::BreadthFirstSearch<Planner::Node> search(planner.root(), 2, false, std::chrono::hours(1));
          int plans = 0;
          for (const auto& plan : search) {
            w->See(Actions(plan));
            if (++plans >= 10) break;
          }
          break;
        }
        case 12: {
          // Nodes expanded one after the other, also through copies.
          const Planner planner(pddl, s);
          Planner::Node node = planner.root();
          for (int depth = 0; depth < 3; depth++) {
            std::vector<Planner::Node> children;
            for (const Planner::Node& child : node) children.push_back(child);
            w->See(std::to_string(children.size()) + (node ? "goal" : ""));
            if (children.empty()) break;
            node = r.Pick(children);
            w->See(node.action() + std::to_string(std::hash<Planner::Node>{}(node) % 2 < 2));
          }
          break;
        }
        case 13: {
          if (facts.empty()) break;
          std::string f = r.Pick(facts);
          if (r.Chance(20)) f.insert(f.size() / 2, "y");
          const Proposition p(pddl, f);
          w->See(p.to_string() + (s.contains(p) ? "+" : "-") + std::to_string(pddl.state_index().GetPropositionIndex(p)));
          break;
        }
        case 14: {
          w->See(std::to_string(pddl.IsGoalSatisfied(symbolic::Stringify(s))));
          w->See(Ctx::Str(Sorted(pddl.ListValidActions(symbolic::Stringify(s)))));
          break;
        }
        default: {
          const auto call = symbolic::Action::Parse(pddl, shuffled());
          symbolic::State t(s);
          w->See(std::to_string(call.first.IsValid(s, call.second)) + std::to_string(call.first.Apply(call.second, &t)));
          w->See(Ctx::Str(Facts(t)) + call.first.to_string(call.second));
        }
      }
    } catch (const std::exception& e) {
      w->See(std::string("error: ") + e.what());
    }
  }
  // The problem itself is changed last.
  if (!r.Chance(50)) return;
  const int changes = r.Range(1, 3);
  std::vector<std::string> added;
  for (int k = 0; k < changes; k++) {
    if (!added.empty() && r.Chance(40)) {
      pddl.RemoveObject(added.back());
      added.pop_back();
    } else {
      added.push_back("added" + std::to_string(k));
      pddl.AddObject(added.back(), m.type_order.empty() ? "object" : r.Pick(m.type_order));
    }
    size_t tuples = 0;
    for (const symbolic::Action& a : pddl.actions()) tuples += a.parameter_generator().size();
    w->See(Ctx::Str(symbolic::Stringify(pddl.objects())) + std::to_string(tuples) + " " + std::to_string(pddl.state_index().size()));
    if (tuples < 300) w->See(Ctx::Str(Sorted(pddl.ListValidActions(ToState(pddl, states[0])))));
  }
}

// Everything with one problem.
void UseProblem(Pddl& pddl, const ref::Model& m, const std::vector<ref::State>& states, uint64_t salt, Worker* w) {
  Ctx own;
  const Answers a = Query(own, pddl, m, states, salt, false);  // IsValid() runs VAL's checker, which has global state
  for (const auto& kv : a) w->See(kv.first + " " + Ctx::Str(kv.second));
  for (const Violation& v : own.violations) w->See(v.msg);
  const Planner planner(pddl);
  const symbolic::BreadthFirstSearch<Planner::Node> bfs(planner.root(), 2);
  int plans = 0;
  for (const auto& plan : bfs) {
    std::string s;
    for (const Planner::Node& n : plan) s += " " + n.action();
    w->See(s);
    if (++plans >= 30) break;
  }
  for (const auto& axiom : pddl.axioms()) {
    for (const ref::State& s : states) w->See(axiom->IsConsistent(ToState(pddl, s)) ? "consistent" : "inconsistent");
  }
  // Partial states through the axioms and actions.
  for (const ref::State& s : states) {
    PartialState p(ToState(pddl, s), symbolic::State());
    for (const symbolic::Action& act : pddl.actions()) {
      int k = 0;
      for (const std::vector<Object>& args : act.parameter_generator()) {
        if (k++ >= 2) break;
        try {
          const PartialState q = act.Apply(p, args);
          std::stringstream ss;
          ss << Ctx::Str(Facts(q.pos())) << Ctx::Str(Facts(q.neg()));
          w->See(ss.str());
        } catch (const PartialState::UnknownEvaluation& e) {
          w->See(std::string("unknown ") + e.what());
        }
      }
    }
  }
  std::stringstream ss;
  ss << pddl;
  // Addresses are printed too.
  std::string text, dump = ss.str();
  for (size_t i = 0; i < dump.size(); i++) {
    if (dump.compare(i, 3, "[0x") == 0) i = dump.find(']', i);
    text += dump[i];
  }
  w->See(text);
  UseMore(pddl, m, states, w);
}

}  // namespace

void RunCase(Ctx& c) {
  const int n = c.rng.Range(2, 8);
  switch (c.rng.Below(8)) {
    case 0:
    case 1: {  // combinations of plain values
      std::vector<std::vector<std::string>> lists(c.rng.Below(5));
      for (auto& l : lists) {
        l.resize(c.rng.Range(1, 5));
        for (std::string& x : l) x = std::string("value") + std::to_string(c.rng.Below(50));
      }
      if (c.rng.Chance(50)) {
        std::vector<const std::vector<std::string>*> ptrs;
        for (const auto& l : lists) ptrs.push_back(&l);
        const CombinationGenerator<const std::vector<std::string>> g(ptrs);
        const Body body = [&](int, Worker* w) { Iterate(g, w); };
        Together(c, n, "shared constant combination generator", body, body);
      } else {
        std::vector<std::vector<std::string>*> ptrs;
        for (auto& l : lists) ptrs.push_back(&l);
        CombinationGenerator<std::vector<std::string>> g(ptrs);
        const Body body = [&](int, Worker* w) { Iterate(g, w); };
        Together(c, n, "shared combination generator", body, body);
      }
      return;
    }
    case 2:
    case 3: {  // parameter generators, free-standing or inside actions and predicates
      gen::Opts o;
      o.max_objects = c.rng.Range(1, 7);
      o.depth = 1;
      gen::Gen g(&c.rng, o);
      const World w = MakeWorld(c, &g);
      std::vector<const ParameterGenerator*> gens;
      std::vector<Object> params;
      for (const symbolic::Action& a : w.pddl->actions()) {
        gens.push_back(&a.parameter_generator());
        for (const Object& p : a.parameters()) {
          if (params.size() < 4) params.push_back(p);
        }
      }
      for (const symbolic::Predicate& p : w.pddl->predicates()) gens.push_back(&p.parameter_generator());
      const ParameterGenerator own(*w.pddl, params);
      gens.push_back(&own);
      const bool same = c.rng.Chance(70);
      const ParameterGenerator* one = c.rng.Pick(gens);
      const Body body = [&](int, Worker* x) {
        for (int k = 0; k < 3; k++) {
          const ParameterGenerator& pg = same ? *one : *x->rng.Pick(gens);
          Iterate(pg, x);
          const size_t i = x->rng.Below(pg.size());
          if (!pg.empty()) x->See(std::to_string(pg.find(pg[i])) + "/" + std::to_string(i));
        }
      };
      Together(c, n, "shared parameter generator", body, body);
      return;
    }
    case 4:
    case 5: {  // states
      gen::Opts o;
      o.max_objects = c.rng.Range(1, 6);
      o.depth = 1;
      gen::Gen g(&c.rng, o);
      const World w = MakeWorld(c, &g);
      std::vector<Proposition> pool;
      for (const std::string& f : w.m().Atoms()) pool.emplace_back(*w.pddl, f);
      const int dense = c.rng.Pick(std::vector<int>{0, 10, 50, 100});
      symbolic::State a, b;
      PartialState p, q;
      for (const Proposition& f : pool) {
        if (c.rng.Chance(dense)) a.insert(f);
        if (c.rng.Chance(dense)) b.insert(f);
        if (c.rng.Chance(60)) c.rng.Chance(50) ? p.insert(f) : p.erase(f);
        if (c.rng.Chance(60)) c.rng.Chance(50) ? q.insert(f) : q.erase(f);
      }
      if (c.rng.Chance(30)) {
        b = a;
        q = p;
      }
      if (c.rng.Chance(60)) {
        const Body body = [&](int, Worker* x) { ReadState(a, b, pool, x); };
        Together(c, n, "shared state", body, body);
      } else {
        const Body body = [&](int, Worker* x) { ReadPartial(p, q, pool, x); };
        Together(c, n, "shared partial state", body, body);
      }
      return;
    }
    default: {  // problems loaded beforehand, one per thread
      gen::Opts o;
      o.max_objects = c.rng.Range(1, 4);
      o.max_actions = 3;
      o.depth = c.rng.Range(1, 2);
      o.derived = c.rng.Chance(40);
      o.axioms = c.rng.Chance(40);
      o.axiom_guards = c.rng.Chance(25);
      const int threads = std::min(n, 4);
      std::vector<gen::Dom> doms;
      const bool same = c.rng.Chance(60);
      for (int i = 0; i < (same ? 1 : threads); i++) {
        gen::Gen g(&c.rng, o);
        doms.push_back(c.rng.Chance(20) ? gen::Structured(&c.rng) : g.Make());
      }
      std::vector<std::unique_ptr<Pddl>> together, alone;
      std::vector<std::vector<ref::State>> states;
      for (int i = 0; i < threads; i++) {
        const gen::Dom& d = doms[i % doms.size()];
        together.push_back(Load(c, d));
        gen::Gen g(&c.rng, o);
        states.push_back({d.m.init, g.RandomState(d.m, 50, false)});
      }
      const uint64_t salt = c.rng.Next();
      Together(c, threads, "one problem per thread",
               [&](int i, Worker* w) { UseProblem(*together[i], doms[i % doms.size()].m, states[i], salt, w); },
               [&](int i, Worker* w) {
                 const std::unique_ptr<Pddl> fresh = Load(c, doms[i % doms.size()]);
                 UseProblem(*fresh, doms[i % doms.size()].m, states[i], salt, w);
               });
    }
  }
}
