// C07: text round trips, identity by name, hashing and order of facts and objects.
#include "world.h"

namespace {

using symbolic::Action;
using symbolic::Object;
using symbolic::Proposition;
using symbolic::PropositionBase;
using symbolic::PropositionRef;
using symbolic::SignedProposition;

std::string Blank(Ctx& c) {
  static const std::vector<std::string> kBlanks = {"", " ", "  ", "\t", "\n", " \t "};
  return c.rng.Pick(kBlanks);
}

// The same call with other spacing between the arguments.
std::string Respace(Ctx& c, const std::string& name, const ref::Args& args) {
  std::string s = name + "(" + Blank(c);
  for (size_t i = 0; i < args.size(); i++) {
    if (i > 0) s += Blank(c) + "," + Blank(c);
    s += args[i];
  }
  return s + Blank(c) + ")";
}

std::string Pddl(const std::string& name, const ref::Args& args) {
  std::string s = "(" + name;
  for (const std::string& a : args) s += " " + a;
  return s + ")";
}

struct Fact {
  std::string text;
  std::string name;
  ref::Args args;
};

}  // namespace

void RunCase(Ctx& c) {
  gen::Opts o;
  o.max_objects = c.rng.Range(1, 8);
  o.max_preds = 7;
  o.depth = 1;
  gen::Gen g(&c.rng, o);
  const World w = MakeWorld(c, &g);
  const symbolic::Pddl& pddl = *w.pddl;
  const ref::Model& m = w.m();
  const auto other = Load(c, w.d);

  std::vector<Fact> facts;
  for (const ref::Pred& p : m.preds) {
    std::vector<ref::Args> tuples = m.Tuples(p.params);
    c.rng.Shuffle(&tuples);
    if (tuples.size() > 8) tuples.resize(8);
    for (const ref::Args& t : tuples) facts.push_back({ref::Fact(p.name, t), p.name, t});
  }

  // One fact, many constructions.
  std::vector<std::vector<Proposition>> forms;
  std::vector<const PropositionBase*> keep;
  for (const Fact& f : facts) {
    std::vector<Proposition> v;
    v.emplace_back(pddl, f.text);
    v.emplace_back(pddl, Respace(c, f.name, f.args));
    v.emplace_back(f.name, ToArgs(pddl, f.args));
    const std::vector<Object> lvalue = ToArgs(*other, f.args);
    v.emplace_back(f.name, lvalue);
    v.emplace_back(*other, f.text);
    const std::string name = f.name;
    const PropositionRef r(&name, &lvalue, std::hash<std::string>{}(name));
    v.emplace_back(r);
    const SignedProposition sp(Proposition(pddl, f.text), c.rng.Chance(50));
    v.emplace_back(static_cast<const PropositionBase&>(sp));
    const SignedProposition sn(f.name, ToArgs(pddl, f.args), true);
    v.emplace_back(static_cast<const PropositionBase&>(sn));
    for (const symbolic::Predicate& p : pddl.predicates()) {
      if (p.name() != f.name) continue;
      const std::string text = p.to_string(ToArgs(pddl, f.args));
      c.Equal(text, f.text, "predicate-text", "text of a predicate instance");
      v.emplace_back(pddl, text);
    }
    // Reassigned.
    Proposition q(pddl, facts[0].text);
    q = v[0];
    v.push_back(q);
    Proposition q2(*other, facts.back().text);
    q2 = std::move(q);
    v.push_back(q2);
    for (const Proposition& p : v) {
      c.Equal(p.to_string(), f.text, "text", "printed fact");
      std::stringstream ss;
      ss << p;
      c.Equal(ss.str(), f.text, "print", "streamed fact");
      c.Equal(p.to_pddl(), Pddl(f.name, f.args), "pddl", "PDDL rendering");
      c.Equal(p.name(), f.name, "name", "name of " + f.text);
      c.Equal(Names(p.arguments()), f.args, "arguments", "arguments of " + f.text);
      c.Check(p == v[0] && v[0] == p && !(p != v[0]), "equal", "constructions of " + f.text + " are unequal");
      c.Check(std::hash<Proposition>{}(p) == std::hash<PropositionBase>{}(v[0]) && p.hash() == v[0].hash(), "hash", "constructions of " + f.text + " hash differently");
      const Proposition back(pddl, p.to_string());
      c.Check(back == p && Names(back.arguments()) == f.args, "round-trip", f.text + " read back");
      c.Count("constructions");
    }
    c.Check(r == v[0] && v[0] == r && r.hash() == v[0].hash() && std::hash<PropositionRef>{}(r) == v[0].hash(), "ref", "reference to " + f.text);
    c.Equal(r.to_string(), f.text, "ref", "printed reference");
    c.Check(sp == v[0] && sn == sp && sp.sign() == (sp.is_pos() ? "+" : "-"), "signed", "signed " + f.text);
    c.Equal(Proposition::ParseHead(f.text), f.name, "head", "head of " + f.text);
    forms.push_back(std::move(v));
    c.Seen(f.text);
  }

  // Any two facts: equal exactly when the texts are; strict total order.
  size_t pairs = 0;
  for (size_t i = 0; i < facts.size(); i++) {
    for (size_t j = 0; j < facts.size(); j++) {
      const PropositionBase& a = c.rng.Pick(forms[i]);
      const PropositionBase& b = c.rng.Pick(forms[j]);
      const bool same = facts[i].text == facts[j].text;
      const std::string at = facts[i].text + " vs " + facts[j].text;
      c.Equal(a == b, same, "identity", "== of " + at);
      c.Equal(a != b, !same, "identity", "!= of " + at);
      c.Equal((a < b) + (b < a), same ? 0 : 1, "order", "directions of < for " + at);
      // The order does not depend on the construction.
      c.Equal(a < b, forms[i][0] < forms[j][0], "order-construction", "< of " + at + " depends on the construction");
      if (a < b) {
        for (size_t k = 0; k < facts.size(); k += 1 + c.rng.Below(3)) {
          if (forms[j][0] < forms[k][0]) c.Check(a < forms[k][0], "order-transitive", at + " and " + facts[k].text);
        }
      }
      pairs++;
    }
  }
  c.Count("pairs of facts", pairs);
  // Facts that look alike: the same arguments under another name, split differently, permuted.
  for (int n = 0; n < 10 && facts.size() > 1; n++) {
    const Fact& f = c.rng.Pick(facts);
    const Fact& h = c.rng.Pick(facts);
    ref::Args args = f.args;
    if (c.rng.Chance(50) && !args.empty()) c.rng.Shuffle(&args);
    if (c.rng.Chance(30)) args.push_back(c.rng.Pick(m.objects()).first);
    if (c.rng.Chance(30) && !args.empty()) args.pop_back();
    const std::string name = c.rng.Chance(50) ? f.name : h.name;
    const Proposition a(f.name, ToArgs(pddl, f.args));
    const Proposition b(name, ToArgs(*other, args));
    const bool same = name == f.name && args == f.args;
    c.Equal(a == b, same, "identity", "== of " + f.text + " vs " + b.to_string());
    c.Equal((a < b) + (b < a), same ? 0 : 1, "order", "directions of < for " + f.text + " vs " + b.to_string());
    if (same) c.Check(a.hash() == b.hash(), "hash", "equal facts hash differently");
    const Proposition back(pddl, b.to_string());
    c.Check(back == b && back.to_string() == b.to_string(), "round-trip", b.to_string() + " read back");
    c.Count("look-alike pairs");
  }

  // Objects.
  std::vector<std::string> names;
  for (const auto& e : m.objects()) names.push_back(e.first);
  for (const std::string& x : names) {
    const Object a(pddl, x);
    const Object a2(*other, x);
    c.Equal(a.name(), x, "object-name", "name of object");
    c.Equal(a.type().name(), m.TypeOf(x), "object-type", "type of " + x);
    std::stringstream ss;
    ss << a;
    c.Equal(ss.str(), x, "object-print", "printed object");
    c.Check(a == a2 && !(a < a2) && !(a2 < a) && a.hash() == a2.hash() && std::hash<Object>{}(a) == a2.hash(), "object-identity", x + " of two loads");
    for (const std::string& y : names) {
      const Object b(c.rng.Chance(50) ? pddl : *other, y);
      c.Equal(a == b, x == y, "object-identity", "== of objects " + x + " and " + y);
      c.Equal(a != b, x != y, "object-identity", "!= of objects " + x + " and " + y);
      c.Equal((a < b) + (b < a), x == y ? 0 : 1, "object-order", "directions of < for objects " + x + " and " + y);
      {
        const std::string &ta = m.TypeOf(x), &tb = m.TypeOf(y);
        const Object::Type &p = a.type(), &q = b.type();
        c.Check((p == q) == (ta == tb) && (p < q) + (q < p) == (ta == tb ? 0 : 1), "type-order", "comparison of the types " + ta + " and " + tb);
        c.Equal(p.IsSubtype(q), m.IsSub(ta, tb), "type-order", ta + " is a " + tb);
      }
      for (const std::string& z : names) {
        const Object d(pddl, z);
        if (a < b && b < d) c.Check(a < d, "object-transitive", x + " < " + y + " < " + z);
      }
    }
  }

  // Action calls.
  for (const ref::Op& op : m.actions) {
    std::vector<ref::Args> tuples = m.Tuples(op.params);
    c.rng.Shuffle(&tuples);
    if (tuples.size() > 10) tuples.resize(10);
    for (const ref::Args& t : tuples) {
      const Action& act = FindAction(pddl, op.name);
      const std::string text = act.to_string(ToArgs(pddl, t));
      c.Equal(text, ref::Fact(op.name, t), "call-text", "printed call");
      for (const std::string& s : {text, Respace(c, op.name, t)}) {
        const auto parsed = Action::Parse(pddl, s);
        c.Equal(parsed.first.name(), op.name, "call-name", "action of " + s);
        c.Check(parsed.first == act, "call-action", "parsed action equals the declared one");
        c.Equal(Names(parsed.second), t, "call-arguments", "arguments of " + s);
        c.Check(parsed.second == ToArgs(pddl, t), "call-arguments", "arguments of " + s + " as objects");
        c.Equal(parsed.first.to_string(parsed.second), text, "call-round-trip", "call printed again");
        c.Count("calls parsed");
      }
    }
  }
  // Objects and facts in lists.
  for (int n = 0; n < 4 && !names.empty(); n++) {
    ref::Args list;
    for (int k = c.rng.Below(5); k > 0; k--) list.push_back(c.rng.Pick(names));
    const auto objs = Object::ParseArguments(pddl, list);
    c.Equal(Names(objs), list, "list", "objects by name");
    std::stringstream ss;
    ss << objs;
    std::string expected;
    for (size_t i = 0; i < list.size(); i++) expected += (i ? ", " : "") + list[i];
    c.Equal(ss.str(), expected, "list-print", "printed object list");
    c.Equal(Names(Object::ParseArguments(pddl, "f(" + ss.str() + ")")), list, "list-parse", "printed object list read back");
  }
  if (c.idx < 2 && !facts.empty()) c.Sample(facts[0].text + " respaced " + Respace(c, facts[0].name, facts[0].args));
}
