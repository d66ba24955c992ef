// C10: applying actions against PDDL effect semantics.
#include "world.h"

namespace {

using symbolic::Action;
using symbolic::Object;
using symbolic::PartialState;
using symbolic::State;

ref::State Half(Ctx& c, const ref::State& s, int percent) {
  ref::State out;
  for (const std::string& f : s) {
    if (c.rng.Chance(percent)) out.insert(f);
  }
  return out;
}

bool Overlap(const ref::State& a, const ref::State& b) {
  for (const std::string& f : a) {
    if (b.count(f) > 0) return true;
  }
  return false;
}

void CheckPartial(Ctx& c, const World& w, const Action& act, const ref::Op& op, const ref::Args& t,
                  const std::vector<std::string>& atoms) {
  const ref::Model& m = w.m();
  const symbolic::Pddl& pddl = *w.pddl;
  const ref::Env env = ref::Bind(op.params, t);
  const int known = c.rng.Pick(std::vector<int>{20, 60, 90, 100});
  ref::State pos, neg;
  for (const std::string& a : atoms) {
    if (!c.rng.Chance(known)) continue;
    (c.rng.Chance(50) ? pos : neg).insert(a);
  }
  // A condition fires if it is true, and must not fire unless it is true in every completion. It
  // may be left undecided only if some fact it depends on is unknown.
  bool open = false;
  ref::State add, del;
  m.Collect(
      op.eff, env,
      [&](const ref::Sx& cond, const ref::Env& e) {
        bool all_known = true;
        for (const std::string& a : m.AtomsOf(cond, e)) all_known &= pos.count(a) > 0 || neg.count(a) > 0;
        if (all_known) return m.Eval(cond, e, pos);
        bool too_big = false;
        const auto v = m.EvalPartial(cond, e, pos, neg, 10, &too_big);
        open |= too_big || v.value_or(false);
        return false;
      },
      &add, &del);
  if (open) {
    c.Count("partial applications skipped (condition open)");
    return;
  }
  ref::State pos2, neg2 = neg;
  for (const std::string& f : pos) {
    if (del.count(f) == 0) pos2.insert(f);
  }
  neg2.insert(del.begin(), del.end());
  for (const std::string& f : add) {
    pos2.insert(f);
    neg2.erase(f);
  }
  int report = 0;
  for (const std::string& f : add) report = std::max(report, pos.count(f) ? 0 : neg.count(f) ? 2 : 1);
  for (const std::string& f : del) report = std::max(report, neg.count(f) ? 0 : pos.count(f) ? 2 : 1);

  const PartialState s(ToState(pddl, pos), ToState(pddl, neg));
  const PartialState before = s;
  const auto args = ToArgs(pddl, t);
  const std::string at = ref::Fact(op.name, t) + " on +" + Ctx::Str(pos) + " -" + Ctx::Str(neg);
  const PartialState n = act.Apply(s, args);
  PartialState in_place = s;
  const int got = act.Apply(args, &in_place);
  c.Check(Facts(n.pos()) == pos2 && Facts(n.neg()) == neg2, "partial",
          at + " gives +" + Ctx::Str(Facts(n.pos())) + " -" + Ctx::Str(Facts(n.neg())) + ", expected +" + Ctx::Str(pos2) + " -" + Ctx::Str(neg2));
  c.Check(in_place == n, "partial-in-place", "in-place result differs for " + at);
  c.Check(s == before, "partial-input", "input changed by " + at);
  if (!Overlap(add, del)) {
    c.Equal(got, report, "partial-report", "report of " + at);
    static const char* kNames[] = {"partial: nothing new", "partial: newly known", "partial: flipped"};
    c.Count(kNames[report]);
  } else {
    c.Check(got >= 0 && got <= 2 && (n == s || got > 0), "partial-report", "report of " + at + " is " + std::to_string(got));
  }
}

}  // namespace

void RunCase(Ctx& c) {
  gen::Opts o;
  o.max_objects = c.rng.Range(1, 5);
  o.depth = 2;
  o.derived = c.rng.Chance(30);
  gen::Gen g(&c.rng, o);
  const World w = MakeWorld(c, &g);
  const symbolic::Pddl& pddl = *w.pddl;
  const ref::Model& m = w.m();
  const std::vector<std::string> atoms = m.Atoms();

  std::vector<ref::State> states = {m.Derive(m.init), {}};
  for (const int p : {25, 60}) states.push_back(m.Derive(g.RandomState(m, p)));
  states.push_back(g.RandomState(m, 50, true));  // derived facts at random

  for (const ref::Op& op : m.actions) {
    const Action& act = FindAction(pddl, op.name);
    const Action copy = act;
    std::vector<ref::Args> tuples = m.Tuples(op.params);
    c.rng.Shuffle(&tuples);
    if (tuples.size() > 12) tuples.resize(12);
    for (const ref::State& s : states) {
      const State state = ToState(pddl, s);
      const State before = state;
      for (const ref::Args& t : tuples) {
        const ref::Env env = ref::Bind(op.params, t);
        const std::string call = ref::Fact(op.name, t);
        const auto args = ToArgs(pddl, t);
        ref::State add, del;
        m.PddlEffects(op.eff, env, s, &add, &del);
        const ref::State raw = m.PddlApply(op.eff, env, s);
        const ref::State next = m.Derive(raw);
        const std::string at = call + " on " + Ctx::Str(s) + " with effect " + op.eff.str();
        if (Overlap(add, del)) c.Count("effects adding and deleting one fact");
        // Conditions that would read differently halfway through.
        if (m.SequentialApply(op.eff, env, s) != raw) c.Count("order-sensitive effects");

        const State r1 = act.Apply(state, args);
        c.Check(Facts(r1) == raw, "apply", at + " gives " + Ctx::Str(Facts(r1)) + ", expected " + Ctx::Str(raw));
        State r2 = state;
        const bool report = act.Apply(args, &r2);
        c.Check(r2 == r1, "in-place", "in-place result differs for " + at);
        if (raw != s) c.Equal(report, true, "report", "change report of " + at);
        else if (!Overlap(add, del)) c.Equal(report, false, "report", "change report of " + at);
        c.Count(raw != s ? "changing applications" : "applications without change");
        const auto parsed = Action::Parse(pddl, call);
        c.Check(parsed.first.Apply(state, parsed.second) == r1, "parsed", "parsed call differs for " + at);
        c.Check(copy.Apply(state, args) == r1, "copied", "copied action differs for " + at);

        const State n = pddl.NextState(state, call);
        c.Check(Facts(n) == next, "next-state", "NextState " + at + " gives " + Ctx::Str(Facts(n)) + ", expected " + Ctx::Str(next));
        c.Check(pddl.ApplyActions(state, {call}) == n, "apply-actions", "ApplyActions differs from NextState for " + at);
        const bool ok = m.Applicable(op, t, s);
        const State expected = ToState(pddl, next);
        c.Equal(pddl.IsValidTuple(state, call, expected), ok, "tuple", "IsValidTuple(" + at + ", its successor)");
        if (!atoms.empty()) {
          ref::State wrong = next;
          const std::string& a = c.rng.Pick(atoms);
          if (!wrong.insert(a).second) wrong.erase(a);
          c.Equal(pddl.IsValidTuple(state, call, ToState(pddl, wrong)), false, "tuple", "IsValidTuple(" + at + ", successor with " + a + " flipped)");
          if (c.rng.Chance(30)) {
            c.Equal(pddl.IsValidTuple(s, call, next), ok, "tuple-text", "IsValidTuple as text " + at);
            c.Equal(pddl.IsValidTuple(s, call, wrong), false, "tuple-text", "IsValidTuple as text " + at + ", flipped");
          }
        }
        c.Check(state == before && Facts(state) == s, "input", "input state changed by " + at);
        c.Seen(at);
        if (c.rng.Chance(30)) CheckPartial(c, w, act, op, t, atoms);
      }
    }
  }

  // Sequences: the fold of single steps.
  for (int k = 0; k < 6; k++) {
    ref::State s = c.rng.Pick(states);
    const ref::State start = s;
    const State state = ToState(pddl, start);
    State step = state;
    std::vector<std::string> calls;
    for (int n = c.rng.Below(6); n > 0; n--) {
      const ref::Op& op = c.rng.Pick(m.actions);
      const std::vector<ref::Args> tuples = m.Tuples(op.params);
      if (tuples.empty()) continue;
      const ref::Args t = c.rng.Pick(tuples);
      calls.push_back(ref::Fact(op.name, t));
      s = m.Next(op, t, s);
      step = pddl.NextState(step, calls.back());
      c.Check(Facts(step) == s, "steps", "after " + Ctx::Str(calls) + " from " + Ctx::Str(start) + ": " + Ctx::Str(Facts(step)) + ", expected " + Ctx::Str(s));
    }
    const State end = pddl.ApplyActions(state, calls);
    if (calls.empty()) {
      c.Check(end == state || Facts(end) == m.Derive(start), "sequence", "an empty sequence changes the state");
    } else {
      c.Check(Facts(end) == s, "sequence", "ApplyActions " + Ctx::Str(calls) + " from " + Ctx::Str(start) + " gives " + Ctx::Str(Facts(end)) + ", expected " + Ctx::Str(s));
    }
    c.Count("sequences");
  }
  if (c.idx < 2) c.Sample(w.d.domain);
}
