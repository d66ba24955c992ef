// C14: axiom closure and axiom triggers against the least closure.
#include "structured.h"
#include "world.h"

namespace {

using symbolic::Action;
using symbolic::Axiom;
using symbolic::PartialState;
using symbolic::State;

using Known = std::map<std::string, bool>;

// Applies effects together with the axioms they trigger, in some order. Facts absent from `k` are
// unknown; a full state lists every fact it may contain.
struct Sim {
  const std::vector<ref::Model::GroundAxiom>& axs;
  Rng* rng;
  Known k;
  bool failed = false;
  bool triggered = false;
  std::set<std::pair<std::string, bool>> writes = {};  // demanded by triggered axioms

  void Set(const std::string& f, bool v) {
    const auto it = k.find(f);
    if (it != k.end() && it->second == v) return;
    k[f] = v;
    Trigger(f, v);
  }
  void Trigger(const std::string& f, bool v) {
    std::vector<const ref::Model::GroundAxiom*> match;
    for (const auto& g : axs) {
      if (g.ctx == f && g.pos == v) match.push_back(&g);
    }
    rng->Shuffle(&match);
    for (const auto* g : match) {
      triggered = true;
      failed |= g->impossible;
      std::vector<std::pair<std::string, bool>> todo;
      for (const std::string& x : g->del) todo.emplace_back(x, false);
      for (const std::string& x : g->add) todo.emplace_back(x, true);
      rng->Shuffle(&todo);
      writes.insert(todo.begin(), todo.end());
      for (const auto& x : todo) Set(x.first, x.second);
    }
  }
};

// The outcome if it does not depend on the order, which the specification leaves open.
struct Outcome {
  bool determined = true;
  bool failed = false;
  bool triggered = false;
  Known k;
};

Outcome Predict(Ctx& c, const std::vector<ref::Model::GroundAxiom>& axs, const Known& start,
                const ref::State& add, const ref::State& del) {
  Outcome out;
  for (int i = 0; i < 10; i++) {
    Sim sim{axs, &c.rng, start};
    std::vector<std::string> dels(del.begin(), del.end()), adds(add.begin(), add.end());
    c.rng.Shuffle(&dels);
    c.rng.Shuffle(&adds);
    if (i < 6) {
      for (const std::string& f : dels) sim.Set(f, false);
      for (const std::string& f : adds) sim.Set(f, true);
    } else {
      for (const std::string& f : dels) sim.k[f] = false;
      for (const std::string& f : adds) sim.k[f] = true;
      std::vector<std::string> all = dels;
      all.insert(all.end(), adds.begin(), adds.end());
      c.rng.Shuffle(&all);
      for (const std::string& f : all) {
        const auto it = start.find(f);
        const bool v = add.count(f) > 0;
        if (it != start.end() && it->second == v) continue;
        if (sim.k[f] == v) sim.Trigger(f, v);
      }
    }
    out.triggered |= sim.triggered;
    // An effect and a triggered axiom at odds: the last one wins.
    for (const auto& x : sim.writes) {
      if (x.second ? del.count(x.first) > 0 : add.count(x.first) > 0) out.determined = false;
    }
    if (i == 0) {
      out.failed = sim.failed;
      out.k = sim.k;
    } else if (sim.failed != out.failed || (!sim.failed && sim.k != out.k)) {
      out.determined = false;
    }
  }
  return out;
}

ref::State True(const Known& k) {
  ref::State s;
  for (const auto& kv : k) {
    if (kv.second) s.insert(kv.first);
  }
  return s;
}
ref::State False(const Known& k) {
  ref::State s;
  for (const auto& kv : k) {
    if (!kv.second) s.insert(kv.first);
  }
  return s;
}

}  // namespace

void RunCase(Ctx& c) {
  gen::Opts o;
  o.max_objects = c.rng.Range(1, 5);
  o.depth = 1;
  o.axioms = true;
  o.axiom_constraints = c.rng.Chance(15);
  o.axiom_guards = c.rng.Chance(30);
  o.axiom_forall = c.rng.Chance(30) ? 50 : 12;
  o.axiom_static = c.rng.Chance(10);
  o.derived = c.rng.Chance(15);
  o.max_atoms = 120;
  gen::Gen g(&c.rng, o);
  World w;
  const bool chain = c.rng.Chance(12);
  w.d = chain ? gen::Chain(&c.rng, c.rng.Chance(6)) : g.Make();
  if (chain) c.Count("chains of waiting consequences");
  c.context = w.d.domain + w.d.problem;
  const ref::Model& m = w.m();
  if (m.axioms.empty()) {
    c.Count("domains without axioms (skipped)");
    return;
  }
  const auto axs = m.GroundAxioms();
  bool guards = false;
  for (const auto& ga : axs) guards |= !ga.guard_pos.empty() || !ga.guard_neg.empty();
  if (guards) c.Count("domains with conditional consequences");
  const auto closed_init = ref::Model::Close(axs, m.init);

  // Loading closes the initial state unless told not to.
  {
    const auto raw = Load(c, w.d, false);
    c.Check(Facts(raw->initial_state()) == m.init, "load-raw", "initial state loaded without axioms is " + Ctx::Str(Facts(raw->initial_state())));
    std::unique_ptr<symbolic::Pddl> closed;
    const std::string err = Throws([&] { closed = Load(c, w.d); });
    if (closed_init) {
      c.Check(err.empty(), "load", "loading with axioms " + err);
      if (!err.empty()) return;
      c.Check(Facts(closed->initial_state()) == *closed_init, "load", "initial state is " + Ctx::Str(Facts(closed->initial_state())) + ", closure is " + Ctx::Str(*closed_init));
      c.Count(*closed_init != m.init ? "initial states changed by axioms" : "initial states already closed");
    } else {
      c.Check(!err.empty(), "load", "initial state demands the impossible, but loads");
      c.Count("initial states demanding the impossible");
    }
    w.pddl = c.rng.Chance(50) && closed ? std::move(closed) : Load(c, w.d, false);
  }
  const symbolic::Pddl& pddl = *w.pddl;
  c.Equal(pddl.axioms().size(), m.axioms.size(), "axioms", "number of axioms");

  std::vector<std::string> atoms = m.Atoms();
  const bool big = m.axioms.size() > 40;
  if (big) c.Count("chains of more than 50 axioms");
  std::vector<ref::State> states = {m.init, {}};
  if (!big) for (const int p : {10, 30, 60, 100}) states.push_back(g.RandomState(m, p, true));
  for (const ref::State& s : states) {
    const State state = ToState(pddl, s);
    const State before = state;
    const std::string at = " of " + Ctx::Str(s);
    const auto expected = ref::Model::Close(axs, s);
    State got;
    const std::string err = Throws([&] { got = pddl.ConsistentState(state); });
    c.Check(state == before, "input", "closing changed its argument" + at);
    c.Seen("full" + at);
    if (!expected) {
      c.Check(!err.empty(), "impossible", "closure" + at + " demands the impossible, but gives " + Ctx::Str(Facts(got)));
      c.Count("closures demanding the impossible");
      continue;
    }
    if (!c.Check(err.empty(), "closure", "closing" + at + " " + err)) continue;
    c.Check(Facts(got) == *expected, "closure", "closure" + at + " is " + Ctx::Str(Facts(got)) + ", expected " + Ctx::Str(*expected));
    c.Check(pddl.ConsistentState(got) == got, "stable", "closing again changes the closure" + at);
    c.Check(pddl.ConsistentState(state) == got, "repeat", "closing a second time differs" + at);
    c.Count(*expected == s ? "states already closed" : "states changed by closing");
    if (big) continue;
    // One axiom at a time: everything it demands directly holds afterwards, and it reports changes.
    for (size_t i = 0; i < pddl.axioms().size() && i < m.axioms.size(); i++) {
      State one = state;
      const bool changed = pddl.axioms()[i]->Apply(&one);
      const ref::State f = Facts(one);
      bool direct = false;
      for (const auto& ga : axs) {
        if (ga.op != &m.axioms[i] || !ga.Holds(s)) continue;
        for (const std::string& x : ga.add) {
          direct |= !s.count(x);
          c.Check(f.count(x) > 0, "single", "axiom " + std::to_string(i) + " does not add " + x + " to" + at);
        }
        for (const std::string& x : ga.del) {
          direct |= s.count(x) > 0;
          c.Check(f.count(x) == 0, "single", "axiom " + std::to_string(i) + " does not remove " + x + " from" + at);
        }
      }
      c.Equal(changed, direct, "single-report", "axiom " + std::to_string(i) + " applied: change" + at);
      c.Check((f != s) == changed, "single-report", "axiom " + std::to_string(i) + " misreports its change" + at);
      for (const std::string& x : f) c.Check(s.count(x) || expected->count(x), "single", "axiom " + std::to_string(i) + " adds unjustified " + x + " to" + at);
      for (const std::string& x : s) c.Check(f.count(x) || !expected->count(x), "single", "axiom " + std::to_string(i) + " removes " + x + " without justification from" + at);
      c.Check(pddl.axioms()[i]->Apply(state) == one, "single", "axiom " + std::to_string(i) + " by value differs" + at);
    }
  }

  // Partial states.
  for (int k = 0; k < 8; k++) {
    ref::State pos, neg;
    const int known = c.rng.Pick(std::vector<int>{5, 20, 50, 100});
    const int truth = c.rng.Pick(std::vector<int>{30, 50, 90});
    for (const std::string& a : atoms) {
      if (c.rng.Chance(known)) (c.rng.Chance(truth) ? pos : neg).insert(a);
    }
    if (big && k < 6) {
      // Only the links of the chain known.
      if (k > 1) break;
      pos.clear();
      neg.clear();
      for (const std::string& a : atoms) {
        if (a[0] == 'c') pos.insert(a);
        if (a.compare(0, 3, "p0(") == 0) (m.init.count(a) ? pos : neg).insert(a);
      }
    }
    if (c.rng.Chance(50)) {
      // Remove contradictions with the axioms by forgetting facts.
      while (!pos.empty() || !neg.empty()) {
        if (ref::Model::Close(axs, pos, neg)) break;
        ref::State& from = pos.empty() || (!neg.empty() && c.rng.Chance(50)) ? neg : pos;
        auto it = from.begin();
        std::advance(it, c.rng.Below(from.size()));
        from.erase(it);
      }
    }
    const PartialState state(ToState(pddl, pos), ToState(pddl, neg));
    const PartialState before = state;
    const std::string at = " of +" + Ctx::Str(pos) + " -" + Ctx::Str(neg);
    const auto expected = ref::Model::Close(axs, pos, neg);
    PartialState got;
    const std::string err = Throws([&] { got = pddl.ConsistentState(state); });
    c.Check(state == before, "partial-input", "closing changed its argument" + at);
    c.Seen("partial" + at);
    if (!expected) {
      c.Check(!err.empty(), "partial-contradiction", "closure" + at + " contradicts a known fact, but gives +" + Ctx::Str(Facts(got.pos())) + " -" + Ctx::Str(Facts(got.neg())));
      c.Count("partial states contradicting axioms");
      continue;
    }
    if (!c.Check(err.empty(), "partial-closure", "closing" + at + " " + err)) continue;
    c.Check(Facts(got.pos()) == expected->first && Facts(got.neg()) == expected->second, "partial-closure",
            "closure" + at + " is +" + Ctx::Str(Facts(got.pos())) + " -" + Ctx::Str(Facts(got.neg())) + ", expected +" + Ctx::Str(expected->first) + " -" + Ctx::Str(expected->second));
    c.Check(pddl.ConsistentState(got) == got, "partial-stable", "closing again changes the closure" + at);
    c.Count(expected->first == pos && expected->second == neg ? "partial states already closed" : "partial states changed by closing");
    if (big) continue;
    for (size_t i = 0; i < pddl.axioms().size() && i < m.axioms.size(); i++) {
      PartialState one = state;
      const int changed = pddl.axioms()[i]->Apply(&one);
      bool direct = false;
      for (const auto& ga : axs) {
        if (ga.op != &m.axioms[i] || !ga.Known(pos, neg)) continue;
        for (const std::string& x : ga.add) direct |= !pos.count(x);
        for (const std::string& x : ga.del) direct |= !neg.count(x);
      }
      c.Equal(changed, direct ? 1 : 0, "partial-single-report", "axiom " + std::to_string(i) + " applied: change" + at);
      c.Check((one != state) == (changed != 0), "partial-single-report", "axiom " + std::to_string(i) + " misreports its change" + at);
    }
  }

  // Effects trigger axioms. When a conditional consequence becomes due without its axiom's context becoming
  // true is left open.
  for (const ref::Op& op : m.actions) {
    if (guards) break;
    const Action& act = FindAction(pddl, op.name);
    std::vector<ref::Args> tuples = m.Tuples(op.params);
    c.rng.Shuffle(&tuples);
    if (tuples.size() > 6) tuples.resize(6);
    for (ref::State s : states) {
      // Mostly from closed states, as planning does.
      if (c.rng.Chance(70)) {
        const auto closed = ref::Model::Close(axs, s);
        if (closed) s = *closed;
      }
      const State state = ToState(pddl, s);
      for (const ref::Args& t : tuples) {
        const ref::Env env = ref::Bind(op.params, t);
        const std::string call = ref::Fact(op.name, t);
        const auto args = ToArgs(pddl, t);
        ref::State add, del;
        m.PddlEffects(op.eff, env, s, &add, &del);
        Known start;
        for (const std::string& a : atoms) start[a] = s.count(a) > 0;
        const Outcome exp = Predict(c, axs, start, add, del);
        const std::string at = call + " on " + Ctx::Str(s) + " with effect " + op.eff.str();
        if (!exp.determined) {
          c.Count("applications skipped (result depends on order)");
          continue;
        }
        State r1;
        const std::string err = Throws([&] { r1 = act.Apply(state, args); });
        if (exp.failed) {
          c.Check(!err.empty(), "trigger-impossible", at + " triggers an impossible consequence, but succeeds");
          c.Count("applications triggering the impossible");
          continue;
        }
        if (!c.Check(err.empty(), "trigger", at + " " + err)) continue;
        const ref::State raw = True(exp.k);
        c.Check(Facts(r1) == raw, "trigger", at + " gives " + Ctx::Str(Facts(r1)) + ", expected " + Ctx::Str(raw));
        State r2 = state;
        const bool changed = act.Apply(args, &r2);
        c.Check(r2 == r1, "trigger", "in-place result differs for " + at);
        if (raw != s) c.Equal(changed, true, "trigger-report", "change report of " + at);
        const ref::State next = m.Derive(raw);
        c.Check(Facts(pddl.NextState(state, call)) == next, "next-state", "NextState " + at + ", expected " + Ctx::Str(next));
        c.Check(Facts(pddl.ApplyActions(state, {call})) == next, "next-state", "ApplyActions " + at + ", expected " + Ctx::Str(next));
        c.Count(exp.triggered ? "applications triggering axioms" : "applications without triggers");
        c.Seen(at);

        // With some facts unknown.
        if (!c.rng.Chance(40)) continue;
        const int known = c.rng.Pick(std::vector<int>{40, 70, 95});
        ref::State pos, neg;
        for (const std::string& a : atoms) {
          if (c.rng.Chance(known)) (s.count(a) ? pos : neg).insert(a);
        }
        bool open = false;
        ref::State padd, pdel;
        m.Collect(
            op.eff, env,
            [&](const ref::Sx& cond, const ref::Env& e) {
              for (const std::string& a : m.AtomsOf(cond, e)) open |= pos.count(a) == 0 && neg.count(a) == 0;
              return m.Eval(cond, e, pos);
            },
            &padd, &pdel);
        if (open) continue;
        Known pk;
        for (const std::string& a : pos) pk[a] = true;
        for (const std::string& a : neg) pk[a] = false;
        const Outcome pexp = Predict(c, axs, pk, padd, pdel);
        if (!pexp.determined || pexp.failed) continue;
        const PartialState ps(ToState(pddl, pos), ToState(pddl, neg));
        PartialState pr = act.Apply(ps, args);
        const std::string pat = call + " on +" + Ctx::Str(pos) + " -" + Ctx::Str(neg) + " with effect " + op.eff.str();
        c.Check(Facts(pr.pos()) == True(pexp.k) && Facts(pr.neg()) == False(pexp.k), "partial-trigger",
                pat + " gives +" + Ctx::Str(Facts(pr.pos())) + " -" + Ctx::Str(Facts(pr.neg())) + ", expected +" + Ctx::Str(True(pexp.k)) + " -" + Ctx::Str(False(pexp.k)));
        c.Count("partial applications");
        if (pexp.triggered) c.Count("partial applications triggering axioms");
      }
    }
  }

  // Search nodes: the root is closed, children follow from their parents.
  if (closed_init && m.derived.empty()) {
    const symbolic::Planner planner(pddl);
    const ref::State root = Facts(planner.root().state());
    c.Check(root == *closed_init, "root", "planner root is " + Ctx::Str(root) + ", expected " + Ctx::Str(*closed_init));
    const State s = ToState(pddl, m.init);
    c.Check(Facts(symbolic::Planner(pddl, s).root().state()) == *closed_init, "root", "planner root of a given state is not its closure");
  }
  if (c.idx < 2) c.Sample(w.d.domain);
}
