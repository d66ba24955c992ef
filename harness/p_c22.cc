// C22: what a load exposes, by every input route, with many instances alive, and after failures.
#include <sys/stat.h>

#include "world.h"

namespace {

using symbolic::Object;
using symbolic::Pddl;
using symbolic::State;

std::string Bare(const std::string& var) { return !var.empty() && var[0] == '?' ? var.substr(1) : var; }

using Pairs = std::vector<std::pair<std::string, std::string>>;

Pairs Typed(const std::vector<Object>& os) {
  Pairs p;
  for (const Object& o : os) p.emplace_back(Bare(o.name()), o.type().name());
  return p;
}
Pairs Typed(const ref::Typed& t) {
  Pairs p;
  for (const auto& e : t) p.emplace_back(Bare(e.first), e.second);
  return p;
}
template <typename T>
T Sorted(T t) {
  std::sort(t.begin(), t.end());
  return t;
}

using Decl = std::pair<std::string, Pairs>;

// Everything the specification declares, as the library shows it.
void Compare(Ctx& c, const Pddl& pddl, const ref::Model& m, bool with_problem, const std::string& how) {
  const auto key = [&](const std::string& k) { return k; };
  c.Equal(pddl.name(), m.name, key("name"), how + ": domain name");
  c.Equal(Sorted(Typed(pddl.constants())), Sorted(Typed(m.constants)), key("constants"), how + ": constants");
  const ref::Typed expected_objects = with_problem ? m.objects() : m.constants;
  c.Equal(Sorted(Typed(pddl.objects())), Sorted(Typed(expected_objects)), key("objects"), how + ": objects");
  std::map<std::string, std::vector<std::string>> groups, expected;
  for (const auto& kv : pddl.object_map()) {
    std::vector<std::string> names;
    for (const Object& o : kv.second) names.push_back(o.name());
    if (!names.empty()) groups[kv.first] = Sorted(names);
  }
  for (const auto& o : expected_objects) {
    for (const std::string& t : m.Chain(o.second)) expected[t].push_back(o.first);
  }
  for (auto& kv : expected) kv.second = Sorted(kv.second);
  std::string got, want;
  for (const auto& kv : groups) got += kv.first + " = " + Ctx::Str(kv.second) + " ";
  for (const auto& kv : expected) want += kv.first + " = " + Ctx::Str(kv.second) + " ";
  c.Equal(got, want, key("groups"), how + ": objects by type");
  for (const Object& o : pddl.objects()) {
    const std::vector<std::string> chain = m.Chain(o.type().name());
    c.Equal(o.type().ListTypes(), chain, key("types"), how + ": types of " + o.name());
    for (const std::string& t : m.type_order) {
      c.Equal(o.type().IsSubtype(t), std::count(chain.begin(), chain.end(), t) > 0, key("types"),
              how + ": " + o.name() + " is a " + t);
    }
    c.Check(o.type().IsSubtype("object") && !o.type().IsSubtype("nonesuch"), key("types"), how + ": types of " + o.name());
    c.Check(Object(pddl, o.name()) == o && Object(pddl, o.name()).type() == o.type(), key("lookup"),
            how + ": lookup of " + o.name());
  }
  for (const std::string& t : m.type_order) {
    c.Check(Object::Type::IsType(pddl, t), key("types"), how + ": type " + t);
    c.Count("types");
  }
  c.Check(!Object::Type::IsType(pddl, "nonesuch"), key("types"), how + ": undeclared type");

  std::vector<Decl> preds, actions, derived, axioms, e_preds, e_actions, e_derived, e_axioms;
  for (const auto& p : pddl.predicates()) preds.emplace_back(p.name(), Typed(p.parameters()));
  for (const auto& a : pddl.actions()) actions.emplace_back(a.name(), Typed(a.parameters()));
  for (const auto& d : pddl.derived_predicates()) derived.emplace_back(d.name(), Typed(d.parameters()));
  for (const auto& a : pddl.axioms()) {
    axioms.emplace_back(std::string(a->context().is_pos() ? "" : "not ") + a->context().name(),
                        Sorted(Typed(a->parameters())));
  }
  for (const ref::Pred& p : m.preds) e_preds.emplace_back(p.name, Typed(p.params));
  for (const ref::Op& a : m.actions) e_actions.emplace_back(a.name, Typed(a.params));
  for (const ref::Op& a : m.derived) e_derived.emplace_back(a.name, Typed(a.params));
  for (const ref::Op& a : m.axioms) {
    const bool neg = a.pre.head() == "not";
    e_axioms.emplace_back((neg ? "not " : "") + (neg ? a.pre.k[1].head() : a.pre.head()), Sorted(Typed(a.params)));
  }
  c.Equal(Sorted(preds), Sorted(e_preds), key("predicates"), how + ": predicates");
  c.Equal(Sorted(actions), Sorted(e_actions), key("actions"), how + ": actions");
  c.Equal(Sorted(derived), Sorted(e_derived), key("derived"), how + ": derivation rules");
  c.Equal(Sorted(axioms), Sorted(e_axioms), key("axioms"), how + ": axioms");
  c.Count("declarations", preds.size() + actions.size() + derived.size() + axioms.size());
  c.Count("objects", pddl.objects().size());
}

struct Inst {
  gen::Dom d;
  std::string domain_path, problem_arg;
  bool with_problem = true;
  bool axioms = true;
  std::unique_ptr<Pddl> pddl;
  std::string how;
};

// Behaviour of an instance: initial facts, goal, valid actions, successors.
void Behave(Ctx& c, const Inst& in, gen::Gen* g) {
  const Pddl& pddl = *in.pddl;
  const ref::Model& m = in.d.m;
  c.Equal(pddl.domain_pddl(), in.domain_path, "path", in.how + ": domain path");
  if (!in.with_problem) {
    c.Check(pddl.initial_state().size() == 0, "initial", in.how + ": initial state without a problem");
    return;
  }
  c.Equal(pddl.problem_pddl(), in.problem_arg, "path", in.how + ": problem");
  const ref::State init = Facts(pddl.initial_state());
  if (!in.axioms || m.axioms.empty()) {
    c.Equal(init, m.init, "initial", in.how + ": initial state");
    c.Count("initial facts", init.size());
  } else {
    // Loaded with its axioms applied: they have nothing left to add.
    c.Equal(Facts(pddl.ConsistentState(pddl.initial_state())), init, "initial", in.how + ": initial state made consistent");
    c.Equal(init, Facts(pddl.ConsistentState(ToState(pddl, m.init))), "initial", in.how + ": initial state with axioms");
    c.Count("initial states with axioms applied");
  }
  std::vector<ref::State> states = {m.init};
  for (int i = 0; i < 3; i++) states.push_back(g->RandomState(m, c.rng.Range(0, 100)));
  for (const ref::State& r : states) {
    const ref::State rs = m.Derive(r);
    const State s = ToState(pddl, rs);
    c.Equal(Facts(s), rs, "facts", in.how + ": facts by text");
    c.Equal(pddl.IsGoalSatisfied(s), m.Eval(m.goal, {}, rs), "goal", in.how + ": goal in " + Ctx::Str(rs));
    if (!m.axioms.empty()) continue;
    c.Equal(Sorted(pddl.ListValidActions(s)), Sorted(m.ValidCalls(rs)), "valid actions",
            in.how + ": valid actions in " + Ctx::Str(rs));
    for (const ref::Op& op : m.actions) {
      const auto tuples = m.Tuples(op.params);
      if (tuples.empty()) continue;
      const ref::Args t = c.rng.Pick(tuples);
      c.Equal(Facts(pddl.NextState(s, ref::Fact(op.name, t))), m.Next(op, t, rs), "successor",
              in.how + ": successor by " + ref::Fact(op.name, t) + " in " + Ctx::Str(rs));
      c.Count("uses");
    }
  }
  // Diagnostics only when asked for, and only where asked for.
  std::stringstream out, loud, diag, quiet;
  std::streambuf* old = std::cout.rdbuf(out.rdbuf());
  const bool plain = pddl.IsValid(), silent = pddl.IsValid(false, quiet);
  std::cout.rdbuf(loud.rdbuf());
  const bool verbose = pddl.IsValid(true, diag);
  std::cout.rdbuf(old);
  c.Check(!loud.str().empty() || !diag.str().empty(), "isvalid", in.how + ": IsValid(verbose) prints nothing");
  c.Count(plain ? "valid by VAL" : "invalid by VAL");
  c.Check(plain && silent, "isvalid", in.how + ": IsValid()");
  c.Check(verbose, "isvalid", in.how + ": IsValid(verbose)");
  c.Check(out.str().empty() && quiet.str().empty(), "isvalid", in.how + ": IsValid() that is not verbose prints " + out.str() + quiet.str());
}

std::string White(Rng& r) {
  std::string s;
  for (int n = r.Below(6); n > 0; n--) s += " \n\t\r"[r.Below(4)];
  return s;
}

// Same specification, other layout: white space and comments between tokens.
std::string Respace(Rng& r, const std::string& text) {
  std::string s;
  for (const char ch : text) {
    if (ch == ' ' && r.Chance(20)) {
      s += White(r) + (r.Chance(15) ? "; a (comment " + std::string(r.Chance(50) ? ")" : "") + "\n" : " ");
    } else {
      s += ch;
      if ((ch == '(' || ch == ')') && r.Chance(15)) s += White(r);
    }
  }
  return s;
}

gen::Dom MakeDom(Ctx& c, bool* axioms) {
  gen::Opts o;
  o.max_types = 6;
  o.max_objects = c.rng.Range(1, 8);
  o.max_arity = o.max_objects > 5 ? 2 : 3;
  o.depth = 2;
  o.derived = c.rng.Chance(40);
  o.axioms = *axioms = c.rng.Chance(30);
  o.axiom_forall = c.rng.Chance(30) ? 50 : 12;
  o.axiom_guards = c.rng.Chance(30);
  o.axiom_static = c.rng.Chance(15);
  gen::Gen g(&c.rng, o);
  gen::Dom d = g.Make();
  d.m.name = c.rng.Pick(std::vector<std::string>{"dom", "d1", "my-domain", "d_2"});
  gen::Gen::Render(&d);
  return d;
}

Inst Open(Ctx& c, const gen::Dom& d, int serial) {
  Inst in;
  in.d = d;
  Rng& r = c.rng;
  const std::string base = c.tmpdir + "/i" + std::to_string(serial % 7);
  in.domain_path = base + (r.Chance(50) ? "_domain.pddl" : "_domain");
  WriteFile(in.domain_path, r.Chance(50) ? d.domain : Respace(r, d.domain) + White(r));
  const std::string text = r.Chance(50) ? d.problem : Respace(r, d.problem);
  const size_t route = r.Below(10);
  if (route < 4) {
    in.problem_arg = (r.Chance(30) ? White(r) : "") + text + White(r);
    in.how = "problem text";
    c.Count("loads from text");
  } else if (route < 8) {
    in.problem_arg = base + (r.Chance(50) ? "_problem.pddl" : "_problem");
    WriteFile(in.problem_arg, White(r) + text + White(r));
    in.how = "problem file";
    c.Count("loads from files");
  } else {
    in.with_problem = false;
    in.how = route == 8 ? "no problem" : "empty problem";
    c.Count("loads without problem");
  }
  in.axioms = r.Chance(50);
  if (in.with_problem) {
    // Axioms are applied by default.
    if (in.axioms && r.Chance(50)) in.pddl = std::make_unique<Pddl>(in.domain_path, in.problem_arg);
    else in.pddl = std::make_unique<Pddl>(in.domain_path, in.problem_arg, in.axioms);
  } else if (route == 8) {
    in.pddl = std::make_unique<Pddl>(in.domain_path);
  } else {
    in.pddl = std::make_unique<Pddl>(in.domain_path, "");
  }
  return in;
}

// Input that cannot be loaded must be reported.
void Bad(Ctx& c, const gen::Dom& d) {
  Rng& r = c.rng;
  const std::string good = c.tmpdir + "/good_domain.pddl";
  WriteFile(good, d.domain);
  const std::string path = c.tmpdir + "/bad.pddl";
  std::string domain = good, problem = d.problem, what;
  const auto cut = [&](const std::string& t) {
    const size_t end = t.find_last_of(')');
    return t.substr(0, r.Below(end));
  };
  if (r.Chance(8)) {
    // A kind of condition that is not supported is reported; if it is supported some day, it holds here.
    gen::Dom d2 = d;
    d2.m.goal = gen::Gen::L({gen::Gen::A("imply"), d.m.goal, d.m.goal});
    gen::Gen::Render(&d2);
    c.Count("implications");
    const std::string error = Throws([&] {
      const Pddl p(good, d2.problem);
      c.Check(p.IsGoalSatisfied(p.initial_state()), "imply", "(imply x x) is loaded and false");
    });
    c.Count(error.empty() ? "implications loaded" : "implications rejected");
    return;
  }
  if (r.Chance(8)) {
    // An axiom whose context is not a single literal.
    const std::string context = r.Pick(std::vector<std::string>{"(and (zz) (zy))", "(or (zz) (zy))", "(forall (?x) (zz))", "(not (and (zz) (zy)))", "(exists (?x) (zy))"});
    const std::string odd = "(define (domain odd) (:requirements :adl) (:predicates (zz) (zy))\n (:axiom :vars () :context " + context +
                            " :implies (zz)))";
    WriteFile(path, odd);
    c.Check(!Throws([&] { Pddl p(path); }).empty(), "accepted", "an axiom with context " + context + " was loaded without an error");
    c.Count("rejected: context of an axiom");
    c.Count("rejected input");
    return;
  }
  switch (r.Below(10)) {
    case 0: what = "missing domain file"; domain = c.tmpdir + "/none.pddl"; break;
    case 1: what = "missing problem file"; problem = c.tmpdir + "/none.pddl"; break;
    case 2: what = "truncated domain"; WriteFile(path, cut(d.domain)); domain = path; break;
    case 3: {
      what = "truncated problem text";
      problem = cut(d.problem);
      const size_t last = problem.find_last_of(')');
      if (last == std::string::npos) problem = "(define (problem p)";
      else if (r.Chance(70)) problem.resize(last + 1);
      break;
    }
    case 4: what = "truncated problem file"; WriteFile(path, cut(d.problem)); problem = path; break;
    case 5: what = "problem file as domain"; WriteFile(path, d.problem); domain = path; break;
    case 6: what = "empty domain file"; WriteFile(path, r.Chance(50) ? "" : White(r)); domain = path; break;
    case 7: what = "empty problem file"; WriteFile(path, r.Chance(50) ? "" : White(r)); problem = path; break;
    case 8: what = "domain as problem text"; problem = d.domain; break;
    case 9: {
      what = "garbage problem";
      std::string t;
      for (int n = r.Range(1, 40); n > 0; n--) t += "()abc ?-:;"[r.Below(10)];
      problem = t + ")";
      break;
    }
  }
  const bool only = domain != good && r.Chance(50);
  bool thrown = false;
  try {
    if (only) {
      Pddl p(domain);
    } else {
      Pddl p(domain, problem);
    }
  } catch (const std::exception&) {
    thrown = true;
  }
  c.Check(thrown, "accepted", what + " was loaded without an error");
  c.Count("rejected input");
  c.Count("rejected: " + what);
}

}  // namespace

void RunCase(Ctx& c) {
  Rng& r = c.rng;
  gen::Opts go;
  gen::Gen g(&r, go);
  std::vector<gen::Dom> doms;
  for (int n = r.Range(1, 3); n > 0; n--) {
    bool ax = false;
    doms.push_back(MakeDom(c, &ax));
  }
  for (const gen::Dom& d : doms) c.context += d.domain + d.problem;
  std::vector<Inst> live;
  const int steps = r.Range(4, 10);
  for (int k = 0; k < steps; k++) {
    const size_t w = r.Below(10);
    if (live.empty() || (w < 4 && live.size() < 4)) {
      live.push_back(Open(c, r.Pick(doms), k));
      Compare(c, *live.back().pddl, live.back().d.m, live.back().with_problem, live.back().how);
    } else if (w < 7) {
      const Inst& in = live[r.Below(live.size())];
      Behave(c, in, &g);
      Compare(c, *in.pddl, in.d.m, in.with_problem, in.how + ", later");
      c.Count("looks at an instance after other loads");
      if (live.size() > 1) c.Count("uses with several instances alive");
    } else if (w < 8) {
      live.erase(live.begin() + r.Below(live.size()));
      c.Count("destroyed");
    } else {
      Bad(c, r.Pick(doms));
    }
  }
  for (const Inst& in : live) {
    Behave(c, in, &g);
    Compare(c, *in.pddl, in.d.m, in.with_problem, in.how + ", at the end");
    c.Seen(in.d.domain + in.d.problem + in.how);
  }
  if (!live.empty()) c.Sample(live[0].how + ":\n" + live[0].d.domain + live[0].d.problem);
}
