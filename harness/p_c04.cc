// C04: parameter enumeration against the typed product of the object lists.
#include <symbolic/utils/parameter_generator.h>

#include "large.h"
#include "world.h"

namespace {

using symbolic::Object;
using symbolic::ParameterGenerator;

std::string Show(const ref::Typed& t) {
  std::string s;
  for (const auto& p : t) s += " " + p.first + " - " + p.second;
  return "(" + s + " )";
}

void CheckGen(Ctx& c, const symbolic::Pddl& pddl, const ref::Model& m, const ParameterGenerator& g,
              const ref::Typed& params, const std::string& what) {
  std::vector<ref::Args> expected = m.Tuples(params);
  std::vector<ref::Args> got, back;
  for (const std::vector<Object>& t : g) got.push_back(Names(t));
  const std::string at = what + " over " + Show(params);
  c.Equal(g.size(), expected.size(), "size", "size() of " + at);
  c.Equal(g.empty(), expected.empty(), "empty", "empty() of " + at);
  c.Equal(got.size(), g.size(), "count", "number of tuples enumerated of " + at);
  for (auto it = g.rbegin(); it != g.rend(); ++it) back.push_back(Names(*it));
  std::vector<ref::Args> rev(got.rbegin(), got.rend());
  c.Check(back == rev, "reverse", "reverse enumeration of " + at + " gives " + Ctx::Str(back) + ", forward " + Ctx::Str(got));
  for (size_t i = 0; i < got.size(); i++) {
    const size_t j = got.size() <= 24 ? i : c.rng.Below(got.size());
    if (i >= 24) break;
    c.Equal(Names(g[j]), got[j], "index", "[" + std::to_string(j) + "] of " + at);
    c.Equal(Names(g.at(static_cast<int>(j) - static_cast<int>(got.size()))), got[j], "at", "at(-) of " + at);
    c.Equal(static_cast<size_t>(g.find(ToArgs(pddl, got[j]))), j, "find", "find of " + at);
    c.Equal(Names(*(g.end() - static_cast<int>(got.size() - j))), got[j], "end", "end() - n of " + at);
  }
  std::sort(expected.begin(), expected.end());
  // Lookups of tuples that are not there.
  const ref::Typed objects = m.objects();
  for (int k = 0; k < 3 && !objects.empty(); k++) {
    ref::Args args;
    for (size_t n = c.rng.Chance(70) ? params.size() : c.rng.Below(params.size() + 3); n > 0; n--) args.push_back(c.rng.Pick(objects).first);
    if (std::binary_search(expected.begin(), expected.end(), args)) continue;
    const std::string e = Throws([&] { g.find(ToArgs(pddl, args)); });
    c.Check(!e.empty(), "find-foreign", "find of " + Ctx::Str(args) + " in " + at + " is accepted");
    c.Count("lookups of wrong tuples");
  }
  std::sort(got.begin(), got.end());
  c.Check(got == expected, "tuples", at + " enumerates " + Ctx::Str(got) + ", expected " + Ctx::Str(expected));
  c.Equal(&g.pddl() == &pddl, true, "pddl", "pddl() of " + at);
  c.Count("tuples", got.size());
  c.Count("generators observed");
  if (params.empty()) c.Count("generators without parameters");
  if (!params.empty() && expected.empty()) c.Count("generators with an empty type");
  c.Seen(at + Ctx::Str(expected));
}

// More tuples than can be enumerated.
void RunLarge(Ctx& c) {
  const large::LargeWorld w = large::Make(c);
  for (const symbolic::Predicate& pred : w.pddl->predicates()) {
    const large::Pred* p = nullptr;
    for (const large::Pred& q : w.preds) {
      if (q.name == pred.name()) p = &q;
    }
    if (p == nullptr || !c.Equal(pred.parameters().size(), p->options.size(), "parameters", "parameters of " + pred.name())) continue;
    const ParameterGenerator made(*w.pddl, pred.parameters());
    const ParameterGenerator& g = c.rng.Chance(50) ? made : pred.parameter_generator();
    const std::string at = "generator of " + pred.name();
    c.Equal(static_cast<long>(g.size()), p->size, "size", "size() of " + at);
    c.Equal(g.empty(), p->size == 0, "empty", "empty() of " + at);
    c.Equal(static_cast<long>(g.end() - g.begin()), p->size, "count", "end() - begin() of " + at);
    if (p->size == 0) continue;
    for (int k = 0; k < 20; k++) {
      const ref::Args t = large::Tuple(c, *p);
      const long pos = g.find(ToArgs(*w.pddl, t));
      if (!c.Check(pos >= 0 && pos < p->size, "find", "find(" + Ctx::Str(t) + ") gives " + std::to_string(pos) + " of " + std::to_string(p->size))) continue;
      c.Equal(Names(g[pos]), t, "index", "[" + std::to_string(pos) + "] of " + at);
      c.Equal(Names(g.at(pos - p->size)), t, "at", "at(-) of " + at);
      const long q = large::Position(c, p->size);
      const ref::Args u = Names(*(g.begin() + q));
      for (size_t i = 0; i < u.size(); i++) {
        c.Check(std::find(p->options[i].begin(), p->options[i].end(), u[i]) != p->options[i].end(), "tuples",
                Ctx::Str(u) + " at " + std::to_string(q) + " of " + at + " is no instance");
      }
      c.Equal(static_cast<long>(g.find(ToArgs(*w.pddl, u))), q, "find", "find of " + Ctx::Str(u));
      c.Equal(Names(*(g.end() - (p->size - q))), u, "end", "end() - n of " + at);
    }
    c.Count(p->size > (1L << 31) ? "generators beyond 2^31" : "large generators");
    c.Seen(at + std::to_string(p->size));
  }
}

}  // namespace

void RunCase(Ctx& c) {
  if (c.rng.Chance(10)) return RunLarge(c);
  gen::Opts o;
  o.max_objects = c.rng.Range(1, 8);
  o.max_types = c.rng.Range(1, 6);
  o.axioms = c.rng.Chance(30);
  o.derived = c.rng.Chance(30);
  o.depth = 1;
  gen::Gen g(&c.rng, o);
  const World w = MakeWorld(c, &g);
  const symbolic::Pddl& pddl = *w.pddl;
  const ref::Model& m = w.m();

  // Parameters of declared symbols.
  std::vector<std::pair<Object, std::pair<std::string, std::string>>> params;  // object, (name, type)
  const auto collect = [&](const std::vector<Object>& ps, const ref::Typed& t, const std::string& what) {
    if (!c.Equal(ps.size(), t.size(), "parameters", "number of parameters of " + what)) return;
    for (size_t i = 0; i < t.size(); i++) {
      c.Equal(ps[i].type().name(), t[i].second, "type", "type of parameter " + std::to_string(i) + " of " + what);
      params.push_back({ps[i], t[i]});
    }
  };
  for (const symbolic::Action& a : pddl.actions()) {
    const ref::Op* op = m.Action(a.name());
    collect(a.parameters(), op->params, a.name());
    CheckGen(c, pddl, m, a.parameter_generator(), op->params, "action " + a.name());
  }
  for (const symbolic::Predicate& p : pddl.predicates()) {
    for (const ref::Pred& q : m.preds) {
      if (q.name != p.name()) continue;
      collect(p.parameters(), q.params, p.name());
      CheckGen(c, pddl, m, p.parameter_generator(), q.params, "predicate " + p.name());
    }
  }
  for (size_t i = 0; i < m.axioms.size() && i < pddl.axioms().size(); i++) {
    collect(pddl.axioms()[i]->parameters(), m.axioms[i].params, "axiom " + std::to_string(i));
  }
  // Objects can serve as parameters of their own type.
  for (const auto& obj : m.objects()) {
    params.push_back({Object(pddl, obj.first), {obj.first, obj.second}});
  }

  for (int n = 0; n < 12; n++) {
    std::vector<Object> ps;
    ref::Typed t;
    for (int k = c.rng.Range(0, 4); k > 0 && !params.empty(); k--) {
      const auto& p = c.rng.Pick(params);
      ps.push_back(p.first);
      t.push_back(p.second);
    }
    while (m.Tuples(t).size() > 300) {
      t.pop_back();
      ps.pop_back();
    }
    auto g1 = std::make_unique<ParameterGenerator>(pddl, ps);
    ps.clear();
    CheckGen(c, pddl, m, *g1, t, "generator");
    auto copy = std::make_unique<ParameterGenerator>(*g1);
    ParameterGenerator assigned;
    c.Check(assigned.empty() && assigned.size() == 0 && assigned.begin() == assigned.end(), "default", "default generator is empty");
    if (c.rng.Chance(50)) assigned = *copy;
    assigned = *g1;
    {
      const ParameterGenerator& self = assigned;
      assigned = self;
    }
    // Iterators of a generator are about that generator, whatever happens to its source.
    auto it = copy->begin();
    auto moved = std::make_unique<ParameterGenerator>(std::move(*g1));
    if (c.rng.Chance(50)) {
      // The source can be given a new value.
      std::vector<Object> ps2;
      ref::Typed t2;
      if (!params.empty()) {
        const auto& p = c.rng.Pick(params);
        ps2.push_back(p.first);
        t2.push_back(p.second);
      }
      *g1 = ParameterGenerator(pddl, ps2);
      CheckGen(c, pddl, m, *g1, t2, "reassigned moved-from generator");
    }
    g1.reset();
    CheckGen(c, pddl, m, *copy, t, "copy of a destroyed generator");
    CheckGen(c, pddl, m, assigned, t, "assigned from a destroyed generator");
    CheckGen(c, pddl, m, *moved, t, "moved from a destroyed generator");
    if (!copy->empty()) {
      c.Equal(Names(*it), Names((*copy)[0]), "iterator", "iterator of a copy after its source went away");
      it += copy->size() - 1;
      c.Equal(Names(*it), Names((*copy)[copy->size() - 1]), "iterator", "advanced iterator of a copy");
    }
    ParameterGenerator move_assigned;
    move_assigned = std::move(*moved);
    moved.reset();
    CheckGen(c, pddl, m, move_assigned, t, "move-assigned from a destroyed generator");
    // In a container that reallocates.
    std::vector<ParameterGenerator> v;
    for (int k = 0; k < 5; k++) v.push_back(k % 2 ? assigned : *copy);
    CheckGen(c, pddl, m, v[c.rng.Below(5)], t, "generator in a reallocated vector");
  }
  // Actions and predicates copied out of the problem carry their own generators.
  std::vector<symbolic::Action> actions = pddl.actions();
  std::vector<symbolic::Predicate> preds = pddl.predicates();
  std::reverse(preds.begin(), preds.end());
  for (const symbolic::Action& a : actions) {
    CheckGen(c, pddl, m, a.parameter_generator(), m.Action(a.name())->params, "copied action " + a.name());
    const symbolic::Action by_name(pddl, a.name());
    CheckGen(c, pddl, m, by_name.parameter_generator(), m.Action(a.name())->params, "action by name " + a.name());
  }
  for (const symbolic::Predicate& p : preds) {
    for (const ref::Pred& q : m.preds) {
      if (q.name == p.name()) CheckGen(c, pddl, m, p.parameter_generator(), q.params, "copied predicate " + p.name());
    }
  }
  if (c.idx < 2) c.Sample(w.d.domain);
}
