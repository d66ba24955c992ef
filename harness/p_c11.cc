// C11: malformed and ill-typed calls are rejected by every operation that accepts call text.
#include "dnf.h"

namespace {

using symbolic::Action;
using symbolic::DisjunctiveFormula;
using symbolic::Pddl;
using symbolic::State;

// Outcome of one entry point: "" when it accepted, the error otherwise.
struct Entry {
  const char* name;
  std::function<void(const std::string&)> run;
};

struct Call {
  std::string text;
  std::string why;
};

std::string RandomText(Rng* r, const std::vector<std::string>& words) {
  static const std::string kChars = "(),  \t\n()()?-_ax1\\\"';";
  std::string s;
  const int n = r->Range(0, 12);
  for (int i = 0; i < n; i++) {
    switch (r->Below(5)) {
      case 0: s += static_cast<char>(r->Below(256)); break;
      case 1: case 2: s += kChars[r->Below(kChars.size())]; break;
      default: s += r->Pick(words);
    }
  }
  if (r->Chance(3)) s += std::string(r->Range(1, 5000), r->Chance(50) ? 'a' : '(');
  return s;
}

std::string MutateText(Rng* r, std::string s) {
  const int n = r->Range(1, 3);
  for (int i = 0; i < n && !s.empty(); i++) {
    const size_t p = r->Below(s.size());
    switch (r->Below(4)) {
      case 0: s.erase(p, 1); break;
      case 1: s.insert(p, 1, s[r->Below(s.size())]); break;
      case 2: s[p] = "(), x?"[r->Below(6)]; break;
      default: s.resize(p);
    }
  }
  return s;
}

std::string Spaced(Rng* r, const std::string& name, const ref::Args& args) {
  const auto gap = [&]() { return r->Chance(30) ? std::string(r->Range(1, 3), r->Chance(80) ? ' ' : '\t') : std::string(); };
  std::string s = name + "(";
  for (size_t i = 0; i < args.size(); i++) s += (i ? "," : "") + gap() + args[i] + gap();
  return s + ")";
}

}  // namespace

void RunCase(Ctx& c) {
  gen::Opts o;
  o.max_objects = c.rng.Range(1, 6);
  o.max_actions = 4;
  o.depth = c.rng.Range(1, 2);
  o.derived = c.rng.Chance(40);
  o.axioms = c.rng.Chance(40);
  gen::Gen g(&c.rng, o);
  World w;
  w.d = g.Make();
  // Sometimes an action shares its name with an object, a predicate or a type.
  if (!w.d.m.actions.empty() && c.rng.Chance(30)) {
    ref::Op& op = w.d.m.actions[c.rng.Below(w.d.m.actions.size())];
    std::vector<std::string> names;
    for (const auto& x : w.d.m.objects()) names.push_back(x.first);
    for (const auto& x : w.d.m.preds) names.push_back(x.name);
    for (const auto& x : w.d.m.type_order) names.push_back(x);
    if (!names.empty()) {
      const std::string n = c.rng.Pick(names);
      if (w.d.m.Action(n) == nullptr) op.name = n;
    }
    gen::Gen::Render(&w.d);
    c.Count("actions named like something else");
  }
  c.context = w.d.domain + w.d.problem;
  w.pddl = Load(c, w.d, c.rng.Chance(50));
  const Pddl& pddl = *w.pddl;
  const ref::Model& m = w.m();
  const ref::State init = Facts(pddl.initial_state());
  const State state = ToState(pddl, g.RandomState(m, 50, false));
  const State before = state;
  const ref::State text_state = Facts(state);

  std::vector<std::string> objects, others;
  for (const auto& x : m.objects()) objects.push_back(x.first);
  for (const auto& x : m.preds) others.push_back(x.name);
  for (const auto& x : m.type_order) others.push_back(x);
  for (const auto& op : m.actions) {
    for (const auto& p : op.params) {
      others.push_back(p.first);
      others.push_back(p.first.substr(1));
    }
  }
  for (const char* n : {"axiom", "object", "and", "not", "=", "nothing", "define", "goal", "nil", "a0x", "0", "*"}) others.push_back(n);
  std::vector<std::string> words = objects;
  words.insert(words.end(), others.begin(), others.end());
  for (const auto& op : m.actions) words.push_back(op.name);

  const auto Snapshot = [&]() {
    std::stringstream ss;
    ss << pddl;
    std::string s = ss.str() + Ctx::Str(Facts(pddl.initial_state())) + Ctx::Str(pddl.ListValidActions(state));
    s += pddl.IsGoalSatisfied(text_state) ? "goal" : "no goal";
    s += Ctx::Str(symbolic::Stringify(pddl.objects()));
    return s;
  };
  const std::string snapshot = Snapshot();

  std::vector<Entry> entries = {
      {"Action::Parse", [&](const std::string& t) { Action::Parse(pddl, t); }},
      {"NextState", [&](const std::string& t) { pddl.NextState(state, t); }},
      {"ApplyActions", [&](const std::string& t) { pddl.ApplyActions(state, {t}); }},
      {"IsValidAction", [&](const std::string& t) { pddl.IsValidAction(state, t); }},
      {"IsValidTuple", [&](const std::string& t) { pddl.IsValidTuple(state, t, state); }},
      {"IsValidTuple (text)", [&](const std::string& t) { pddl.IsValidTuple(text_state, t, text_state); }},
      {"IsValidPlan", [&](const std::string& t) { pddl.IsValidPlan({t}); }},
  };
  double worst = 0;
  for (const ref::Op& op : m.actions) {
    double x = 0;
    Size(m, op.pre, &x);
    worst = std::max(worst, x);
    x = 0;
    EffectSize(m, op.eff, &x);
    worst = std::max(worst, x);
  }
  if (worst <= 100) {
    c.Count("domains normalised");
    const std::vector<Entry> normalizers = {
          {"NormalizeConditions", [&](const std::string& t) { DisjunctiveFormula::NormalizeConditions(pddl, t); }},
          {"NormalizePreconditions", [&](const std::string& t) { DisjunctiveFormula::NormalizePreconditions(pddl, t); }},
          {"NormalizePostconditions", [&](const std::string& t) { DisjunctiveFormula::NormalizePostconditions(pddl, t); }},
    };
    entries.insert(entries.end(), normalizers.begin(), normalizers.end());
  }
  const auto Probe = [&](const Entry& e, const std::string& text) -> std::string {
    try {
      e.run(text);
    } catch (const std::exception& ex) {
      return std::string("error: ") + ex.what();
    }
    return "";
  };
  // Contradictory effects have no normal form: the call is well-formed but cannot be normalised.
  const auto NoNormalForm = [&](const Entry& e, const std::string& text) {
    if (std::string(e.name).rfind("Normalize", 0) != 0) return false;
    return !Throws([&] {
      const auto aa = Action::Parse(pddl, text);
      DisjunctiveFormula::Create(pddl, aa.first.postconditions(), aa.first.parameters(), aa.second);
    }).empty();
  };

  // Calls known to be wrong and calls known to be right.
  std::vector<Call> bad, good;
  for (const ref::Op& op : m.actions) {
    std::vector<ref::Args> tuples = m.Tuples(op.params);
    c.rng.Shuffle(&tuples);
    for (size_t i = 0; i < tuples.size() && i < 4; i++) {
      const ref::Args& t = tuples[i];
      good.push_back({c.rng.Chance(50) ? ref::Fact(op.name, t) : Spaced(&c.rng, op.name, t), "well-formed"});
      bool strict = false;
      for (size_t k = 0; k < t.size(); k++) strict |= m.TypeOf(t[k]) != op.params[k].second;
      if (strict) c.Count("calls with arguments of subtypes");

      // Unknown action.
      std::string n = c.rng.Chance(60) ? c.rng.Pick(others) : op.name + c.rng.Pick(std::vector<std::string>{"x", "_", " ", "0"});
      if (c.rng.Chance(20)) n = op.name.substr(0, op.name.size() - 1);
      if (c.rng.Chance(10)) n = c.rng.Pick(objects.empty() ? others : objects);
      if (m.Action(n) == nullptr) bad.push_back({ref::Fact(n, t), "unknown action"});
      // Fewer or more arguments.
      if (!t.empty()) {
        ref::Args u = t;
        u.erase(u.begin() + c.rng.Below(u.size()));
        bad.push_back({ref::Fact(op.name, u), "missing argument"});
        bad.push_back({op.name, "no arguments"});
        bad.push_back({op.name + "()", "no arguments"});
        // Unknown object.
        u = t;
        std::string x = c.rng.Pick(others);
        if (c.rng.Chance(30)) x = t[0] + c.rng.Pick(std::vector<std::string>{"x", "_", "0"});
        if (!m.HasObject(x)) {
          u[c.rng.Below(u.size())] = x;
          bad.push_back({ref::Fact(op.name, u), "unknown object"});
        }
      }
      if (!objects.empty()) {
        ref::Args u = t;
        const int extra = c.rng.Range(1, 3);
        for (int k = 0; k < extra; k++) u.insert(u.begin() + c.rng.Below(u.size() + 1), c.rng.Pick(objects));
        bad.push_back({ref::Fact(op.name, u), "too many arguments"});
      }
      // Wrong type, other arguments right.
      for (size_t k = 0; k < t.size(); k++) {
        std::vector<std::string> wrong;
        for (const std::string& x : objects) {
          if (!m.IsSub(m.TypeOf(x), op.params[k].second)) wrong.push_back(x);
        }
        if (wrong.empty()) continue;
        ref::Args u = t;
        u[k] = c.rng.Pick(wrong);
        bad.push_back({ref::Fact(op.name, u), "wrong type"});
        if (m.IsSub(op.params[k].second, m.TypeOf(u[k]))) c.Count("arguments of a supertype");
      }
    }
    if (tuples.empty() && !objects.empty()) {
      // No call of this action is well-formed.
      ref::Args u;
      for (size_t k = 0; k < op.params.size(); k++) u.push_back(c.rng.Pick(objects));
      bad.push_back({ref::Fact(op.name, u), "wrong type"});
    }
  }
  for (const ref::Op& d : m.derived) {
    for (const ref::Args& t : m.Tuples(d.params)) {
      if (m.Action(d.name) == nullptr) bad.push_back({ref::Fact(d.name, t), "derived predicate as action"});
      break;
    }
  }
  for (const ref::Op& a : m.axioms) {
    for (const ref::Args& t : m.Tuples(a.params)) {
      bad.push_back({ref::Fact("axiom", t), "axiom as action"});
      break;
    }
  }
  bad.push_back({"", "empty"});
  bad.push_back({"()", "empty"});

  c.rng.Shuffle(&bad);
  if (bad.size() > 40) bad.resize(40);
  for (const Call& b : bad) {
    for (const Entry& e : entries) {
      const std::string r = Probe(e, b.text);
      c.Check(!r.empty(), "rejected", std::string(e.name) + " accepts " + Ctx::Str(b.text) + " (" + b.why + ")");
    }
    // As a later step of a sequence and of a plan.
    if (!good.empty()) {
      const Call& a = c.rng.Pick(good);
      const std::string first = c.rng.Chance(50) ? a.text : "";
      std::vector<std::string> seq = {a.text, b.text};
      if (c.rng.Chance(50)) seq.push_back(c.rng.Pick(good).text);
      std::string r = Throws([&] { pddl.ApplyActions(state, seq); });
      c.Check(!r.empty(), "rejected-sequence", "ApplyActions accepts " + Ctx::Str(seq) + " (" + b.why + ")");
      bool verdict = false;
      r = Throws([&] { verdict = pddl.IsValidPlan(seq); });
      c.Check(!verdict, "rejected-plan", "IsValidPlan accepts " + Ctx::Str(seq) + " (" + b.why + ")");
      if (pddl.IsValidAction(pddl.initial_state(), a.text)) {
        c.Check(!r.empty(), "rejected-plan", "IsValidPlan gives a verdict on " + Ctx::Str(seq) + " (" + b.why + ")");
        c.Count("wrong calls after applicable ones");
      }
    }
    if (b.why == "unknown action" || b.why == "empty") {
      c.Check(!Throws([&] { Action(pddl, b.text); }).empty(), "rejected-name", "Action() accepts " + Ctx::Str(b.text));
      c.Check(!Throws([&] { pddl.ListValidArguments(text_state, b.text); }).empty(), "rejected-name",
              "ListValidArguments accepts " + Ctx::Str(b.text));
    }
    if (b.why == "unknown object") {
      c.Check(!Throws([&] { symbolic::Object::ParseArguments(pddl, b.text); }).empty(), "rejected-object",
              "ParseArguments accepts " + Ctx::Str(b.text));
      c.Check(!Throws([&] { symbolic::Proposition(pddl, b.text); }).empty(), "rejected-object",
              "Proposition() accepts " + Ctx::Str(b.text));
    }
    c.Count("rejected: " + b.why);
    c.Seen(b.text + w.d.domain);
  }
  for (const Call& a : good) {
    for (const Entry& e : entries) {
      const std::string r = Probe(e, a.text);
      if (!r.empty() && NoNormalForm(e, a.text)) {
        c.Count("effects without normal form");
        continue;
      }
      c.Check(r.empty(), "accepted", std::string(e.name) + " rejects " + Ctx::Str(a.text) + ": " + r);
    }
    c.Count("accepted calls");
  }

  // Any text at all: no undefined behaviour, and what is accepted is a type-correct call it spells out.
  for (int k = 0; k < 40; k++) {
    const std::string text = !good.empty() && c.rng.Chance(60) ? MutateText(&c.rng, c.rng.Pick(good).text) : RandomText(&c.rng, words);
    const Entry& e = c.rng.Pick(entries);
    std::string canon;
    const std::string r = Throws([&] {
      const auto aa = Action::Parse(pddl, text);
      canon = aa.first.to_string(aa.second);
      const ref::Op* op = m.Action(aa.first.name());
      if (!c.Check(op != nullptr, "garbage", "text " + Ctx::Str(text) + " is parsed as a call of " + aa.first.name())) return;
      const ref::Args args = Names(aa.second);
      bool ok = args.size() == op->params.size() && text.compare(0, op->name.size(), op->name) == 0;
      size_t p = op->name.size();
      for (size_t i = 0; ok && i < args.size(); i++) {
        ok = m.IsSub(m.TypeOf(args[i]), op->params[i].second);
        p = text.find(args[i], p);
        ok = ok && p != std::string::npos;
        p += args[i].size();
      }
      c.Check(ok, "garbage", "text " + Ctx::Str(text) + " is parsed as " + canon);
      c.Check(pddl.NextState(state, text) == pddl.NextState(state, canon), "garbage", "successor by " + Ctx::Str(text) + " and by " + canon);
    });
    const std::string rr = Probe(e, text);
    c.Check(r.empty() == rr.empty() || (r.empty() && NoNormalForm(e, text)), "agree", std::string(e.name) + " and Action::Parse disagree on " + Ctx::Str(text) + ": " + r + " / " + rr);
    // Other readers of text: only that they fail cleanly or give something printable.
    Throws([&] { c.Seen(symbolic::Proposition(pddl, text).to_string()); });
    Throws([&] { c.Seen(symbolic::Object(pddl, text).name()); });
    Throws([&] { pddl.ListValidArguments(text_state, text); });
    Throws([&] { pddl.IsGoalSatisfied({text}); });
    Throws([&] { pddl.ListValidActions(ref::State{text}); });
    Throws([&] { pddl.IsValidTuple({text}, text, {text}); });
    c.Count(r.empty() ? "texts accepted" : "texts rejected");
  }
  c.Check(state == before, "unchanged", "the state changed");
  c.Check(Snapshot() == snapshot, "unchanged", "the problem changed:\n" + Snapshot() + "\nbefore:\n" + snapshot);
  c.Equal(Facts(pddl.initial_state()), init, "unchanged", "initial state");
  if (c.idx < 2) c.Sample(Ctx::Str([&] { std::vector<std::string> v; for (const Call& b : bad) v.push_back(b.text + " (" + b.why + ")"); return v; }()));
}
