/**
 * Reference interpreter for the PDDL subset the library handles, written from the PDDL semantics
 * and from nothing in /repo. Works on its own S-expression parse of the text; facts are strings
 * "p(a, b)", states are sets of strings.
 */
#ifndef VERIF_REF_H_
#define VERIF_REF_H_

#include <algorithm>
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace ref {

struct Sx {
  bool list = false;
  std::string a;
  std::vector<Sx> k;
  const std::string& head() const {
    static const std::string empty;
    return list && !k.empty() ? k[0].a : empty;
  }
  std::string str() const {
    if (!list) return a;
    std::string s = "(";
    for (size_t i = 0; i < k.size(); i++) s += (i ? " " : "") + k[i].str();
    return s + ")";
  }
};

inline Sx Parse(const std::string& t, size_t* pos) {
  const auto skip = [&] {
    while (*pos < t.size()) {
      if (isspace(static_cast<unsigned char>(t[*pos]))) {
        ++*pos;
      } else if (t[*pos] == ';') {
        while (*pos < t.size() && t[*pos] != '\n') ++*pos;
      } else {
        break;
      }
    }
  };
  skip();
  if (*pos >= t.size()) throw std::runtime_error("ref: unexpected end");
  Sx s;
  if (t[*pos] == ')') throw std::runtime_error("ref: unexpected )");
  if (t[*pos] == '(') {
    s.list = true;
    ++*pos;
    while (true) {
      skip();
      if (*pos >= t.size()) throw std::runtime_error("ref: unexpected end");
      if (t[*pos] == ')') {
        ++*pos;
        return s;
      }
      s.k.push_back(Parse(t, pos));
    }
  }
  while (*pos < t.size() && !isspace(static_cast<unsigned char>(t[*pos])) && t[*pos] != '(' &&
         t[*pos] != ')' && t[*pos] != ';') {
    s.a += t[(*pos)++];
  }
  return s;
}
inline Sx Parse(const std::string& t) {
  size_t pos = 0;
  Sx s = Parse(t, &pos);
  while (pos < t.size() && isspace(static_cast<unsigned char>(t[pos]))) pos++;
  if (pos != t.size()) throw std::runtime_error("ref: trailing text");
  return s;
}

using Typed = std::vector<std::pair<std::string, std::string>>;  // (name, type)
using Env = std::map<std::string, std::string>;                  // variable (with ?) -> object
using State = std::set<std::string>;
using Args = std::vector<std::string>;

inline Typed TypedList(const std::vector<Sx>& k, size_t begin) {
  Typed out;
  size_t pending = 0;
  for (size_t i = begin; i < k.size(); i++) {
    if (k[i].a == "-") {
      i++;
      for (size_t j = pending; j < out.size(); j++) out[j].second = k[i].a;
      pending = out.size();
    } else {
      out.emplace_back(k[i].a, "object");
    }
  }
  return out;
}

inline std::string Fact(const std::string& name, const Args& args) {
  std::string s = name + "(";
  for (size_t i = 0; i < args.size(); i++) s += (i ? ", " : "") + args[i];
  return s + ")";
}

struct Op {
  std::string name;
  Typed params;
  Sx pre;
  Sx eff;
};
struct Pred {
  std::string name;
  Typed params;
};

// One axiom or derivation rule or action applied to given arguments.
inline Env Bind(const Typed& params, const Args& args) {
  Env e;
  for (size_t i = 0; i < params.size(); i++) e[params[i].first] = args[i];
  return e;
}

struct Model {
  std::string name, problem_name;
  std::vector<std::string> type_order;
  std::map<std::string, std::string> parent;  // declared type -> parent
  Typed constants, prob_objects;
  std::vector<Pred> preds;
  std::vector<Op> actions, axioms, derived;  // derived: name/params = head, pre = body
  State init;
  Sx goal;
  bool has_types = false;

  Typed objects() const {
    Typed o = constants;
    o.insert(o.end(), prob_objects.begin(), prob_objects.end());
    return o;
  }
  std::string TypeOf(const std::string& obj) const {
    for (const auto& o : constants) {
      if (o.first == obj) return o.second;
    }
    for (const auto& o : prob_objects) {
      if (o.first == obj) return o.second;
    }
    throw std::runtime_error("ref: no object " + obj);
  }
  bool HasObject(const std::string& obj) const {
    for (const auto& o : constants) {
      if (o.first == obj) return true;
    }
    for (const auto& o : prob_objects) {
      if (o.first == obj) return true;
    }
    return false;
  }
  std::vector<std::string> Chain(std::string type) const {
    std::vector<std::string> c;
    while (true) {
      c.push_back(type);
      if (type == "object") return c;
      const auto it = parent.find(type);
      type = it == parent.end() ? "object" : it->second;
    }
  }
  bool IsSub(const std::string& type, const std::string& super) const {
    for (const std::string& t : Chain(type)) {
      if (t == super) return true;
    }
    return false;
  }
  bool IsType(const std::string& n) const { return n == "object" || parent.count(n) > 0; }
  std::vector<std::string> OfType(const std::string& type) const {
    std::vector<std::string> out;
    for (const auto& o : objects()) {
      if (IsSub(o.second, type)) out.push_back(o.first);
    }
    return out;
  }
  // All type-correct argument tuples, leftmost slowest.
  std::vector<Args> Tuples(const Typed& params) const {
    std::vector<Args> out = {{}};
    for (const auto& p : params) {
      std::vector<Args> next;
      const std::vector<std::string> os = OfType(p.second);
      for (const Args& t : out) {
        for (const std::string& o : os) {
          next.push_back(t);
          next.back().push_back(o);
        }
      }
      out = std::move(next);
    }
    return out;
  }
  const Op* Action(const std::string& n) const {
    for (const Op& op : actions) {
      if (op.name == n) return &op;
    }
    return nullptr;
  }
  bool IsDerived(const std::string& pred) const {
    for (const Op& d : derived) {
      if (d.name == pred) return true;
    }
    return false;
  }
  // Every type-correct instance of every declared predicate, in declaration order.
  std::vector<std::string> Atoms(bool with_derived = true) const {
    std::vector<std::string> out;
    for (const Pred& p : preds) {
      if (!with_derived && IsDerived(p.name)) continue;
      for (const Args& t : Tuples(p.params)) out.push_back(Fact(p.name, t));
    }
    return out;
  }

  void Load(const std::string& domain_text, const std::string& problem_text) {
    const Sx d = Parse(domain_text);
    name = d.k[1].k[1].a;
    for (size_t i = 2; i < d.k.size(); i++) {
      const Sx& s = d.k[i];
      const std::string& h = s.head();
      if (h == ":types") {
        has_types = true;
        for (const auto& t : TypedList(s.k, 1)) {
          type_order.push_back(t.first);
          if (t.first != "object") parent[t.first] = t.second;
        }
      } else if (h == ":constants") {
        constants = TypedList(s.k, 1);
      } else if (h == ":predicates") {
        for (size_t j = 1; j < s.k.size(); j++) {
          preds.push_back({s.k[j].k[0].a, TypedList(s.k[j].k, 1)});
        }
      } else if (h == ":action" || h == ":axiom") {
        Op op;
        size_t j = 1;
        if (h == ":action") op.name = s.k[j++].a;
        op.pre.list = op.eff.list = true;
        for (; j + 1 < s.k.size(); j += 2) {
          const std::string& key = s.k[j].a;
          if (key == ":parameters" || key == ":vars") op.params = TypedList(s.k[j + 1].k, 0);
          if (key == ":precondition" || key == ":context") op.pre = s.k[j + 1];
          if (key == ":effect" || key == ":implies") op.eff = s.k[j + 1];
        }
        (h == ":action" ? actions : axioms).push_back(op);
      } else if (h == ":derived") {
        Op op;
        op.name = s.k[1].k[0].a;
        op.params = TypedList(s.k[1].k, 1);
        op.pre = s.k[2];
        derived.push_back(op);
      }
    }
    goal.list = true;
    if (problem_text.empty()) return;
    const Sx p = Parse(problem_text);
    problem_name = p.k[1].k[1].a;
    for (size_t i = 2; i < p.k.size(); i++) {
      const Sx& s = p.k[i];
      const std::string& h = s.head();
      if (h == ":objects") prob_objects = TypedList(s.k, 1);
      if (h == ":init") {
        for (size_t j = 1; j < s.k.size(); j++) init.insert(Ground(s.k[j], {}));
      }
      if (h == ":goal") goal = s.k[1];
    }
  }

  static Args GroundArgs(const Sx& s, const Env& env) {
    Args args;
    for (size_t i = 1; i < s.k.size(); i++) {
      const std::string& a = s.k[i].a;
      args.push_back(a[0] == '?' ? env.at(a) : a);
    }
    return args;
  }
  static std::string Ground(const Sx& s, const Env& env) {
    return Fact(s.k[0].a, GroundArgs(s, env));
  }

  // First-order closed-world truth. `lookup` answers atoms.
  template <typename Lookup>
  bool EvalWith(const Sx& f, const Env& env, const Lookup& lookup) const {
    if (f.k.empty()) return true;
    const std::string& h = f.head();
    if (h == "and") {
      bool all = true;
      for (size_t i = 1; i < f.k.size(); i++) all = EvalWith(f.k[i], env, lookup) && all;
      return all;
    }
    if (h == "or") {
      bool any = false;
      for (size_t i = 1; i < f.k.size(); i++) any = EvalWith(f.k[i], env, lookup) || any;
      return any;
    }
    if (h == "not") return !EvalWith(f.k[1], env, lookup);
    if (h == "forall" || h == "exists") {
      const Typed vars = TypedList(f.k[1].k, 0);
      bool all = true;
      bool any = false;
      for (const Args& t : Tuples(vars)) {
        Env inner = env;
        for (size_t i = 0; i < vars.size(); i++) inner[vars[i].first] = t[i];
        const bool v = EvalWith(f.k[2], inner, lookup);
        all &= v;
        any |= v;
      }
      return h == "forall" ? all : any;
    }
    if (h == "=") {
      const Args a = GroundArgs(f, env);
      return a[0] == a[1];
    }
    if (IsType(h)) return IsSub(TypeOf(GroundArgs(f, env)[0]), h);
    return lookup(Ground(f, env));
  }
  bool Eval(const Sx& f, const Env& env, const State& s) const {
    return EvalWith(f, env, [&](const std::string& a) {
      ++work;
      return s.count(a) > 0;
    });
  }
  // Atoms whose value the formula can depend on.
  std::set<std::string> AtomsOf(const Sx& f, const Env& env) const {
    std::set<std::string> atoms;
    EvalWith(f, env, [&](const std::string& a) {
      atoms.insert(a);
      return false;
    });
    return atoms;
  }

  mutable size_t work = 0;  // facts looked up by Eval so far

  // Kleene-complete value on a partial state: set only if all completions agree. Returns nullopt
  // with *too_big set when there are more than max_unknown unknown atoms.
  std::optional<bool> EvalPartial(const Sx& f, const Env& env, const State& pos, const State& neg,
                                  size_t max_unknown, bool* too_big) const {
    std::vector<std::string> unknown;
    for (const std::string& a : AtomsOf(f, env)) {
      if (pos.count(a) == 0 && neg.count(a) == 0) unknown.push_back(a);
    }
    *too_big = unknown.size() > max_unknown;
    if (*too_big) return {};
    std::optional<bool> v;
    for (size_t m = 0; m < (size_t{1} << unknown.size()); m++) {
      State s = pos;
      for (size_t i = 0; i < unknown.size(); i++) {
        if ((m >> i) & 1) s.insert(unknown[i]);
      }
      const bool x = Eval(f, env, s);
      if (v.has_value() && *v != x) return {};
      v = x;
    }
    return v;
  }

  // Effects ---------------------------------------------------------------------

  // Literals made true/false by the effects with all conditions evaluated by `cond`.
  template <typename Cond>
  void Collect(const Sx& e, const Env& env, const Cond& cond, State* add, State* del) const {
    if (e.k.empty()) return;
    const std::string& h = e.head();
    if (h == "and") {
      for (size_t i = 1; i < e.k.size(); i++) Collect(e.k[i], env, cond, add, del);
    } else if (h == "not") {
      del->insert(Ground(e.k[1], env));
    } else if (h == "forall") {
      const Typed vars = TypedList(e.k[1].k, 0);
      for (const Args& t : Tuples(vars)) {
        Env inner = env;
        for (size_t i = 0; i < vars.size(); i++) inner[vars[i].first] = t[i];
        Collect(e.k[2], inner, cond, add, del);
      }
    } else if (h == "when") {
      if (cond(e.k[1], env)) Collect(e.k[2], env, cond, add, del);
    } else {
      add->insert(Ground(e, env));
    }
  }
  void PddlEffects(const Sx& e, const Env& env, const State& s, State* add, State* del) const {
    Collect(e, env, [&](const Sx& c, const Env& en) { return Eval(c, en, s); }, add, del);
  }
  // PDDL successor without derived facts and axioms: deletes, then adds.
  State PddlApply(const Sx& e, const Env& env, const State& s) const {
    State add, del, out;
    PddlEffects(e, env, s, &add, &del);
    for (const std::string& f : s) {
      if (del.count(f) == 0) out.insert(f);
    }
    out.insert(add.begin(), add.end());
    return out;
  }

  // In-place effect order the library uses: within one effect list, forall effects, adds, deletes,
  // conditional effects, each seeing the changes of the previous ones.
  struct Flat {
    std::vector<const Sx*> foralls, adds, dels, whens;
  };
  static void Flatten(const Sx& e, Flat* f) {
    if (e.k.empty()) return;
    const std::string& h = e.head();
    if (h == "and") {
      for (size_t i = 1; i < e.k.size(); i++) Flatten(e.k[i], f);
    } else if (h == "not") {
      f->dels.push_back(&e.k[1]);
    } else if (h == "forall") {
      f->foralls.push_back(&e);
    } else if (h == "when") {
      f->whens.push_back(&e);
    } else {
      f->adds.push_back(&e);
    }
  }
  // `set(fact, value)` performs a change; `cond(f, env)` evaluates against the current state.
  template <typename Set, typename Cond>
  void Sequential(const Sx& e, const Env& env, const Set& set, const Cond& cond) const {
    Flat f;
    Flatten(e, &f);
    for (const Sx* x : f.foralls) {
      const Typed vars = TypedList(x->k[1].k, 0);
      for (const Args& t : Tuples(vars)) {
        Env inner = env;
        for (size_t i = 0; i < vars.size(); i++) inner[vars[i].first] = t[i];
        Sequential(x->k[2], inner, set, cond);
      }
    }
    for (const Sx* x : f.adds) set(Ground(*x, env), true);
    for (const Sx* x : f.dels) set(Ground(*x, env), false);
    for (const Sx* x : f.whens) {
      if (cond(x->k[1], env)) Sequential(x->k[2], env, set, cond);
    }
  }
  State SequentialApply(const Sx& e, const Env& env, const State& s) const {
    State out = s;
    Sequential(
        e, env,
        [&](const std::string& f, bool v) {
          if (v) out.insert(f);
          else out.erase(f);
        },
        [&](const Sx& c, const Env& en) { return Eval(c, en, out); });
    return out;
  }

  // Derived predicates ----------------------------------------------------------

  static void Polarity(const Sx& f, bool pos, std::set<std::pair<std::string, bool>>* out) {
    if (f.k.empty()) return;
    const std::string& h = f.head();
    if (h == "and" || h == "or") {
      for (size_t i = 1; i < f.k.size(); i++) Polarity(f.k[i], pos, out);
    } else if (h == "not") {
      Polarity(f.k[1], !pos, out);
    } else if (h == "forall" || h == "exists") {
      Polarity(f.k[2], pos, out);
    } else {
      out->insert({h, pos});
    }
  }
  // Stratum of each derived predicate, or nullopt if rules recurse through negation.
  std::optional<std::map<std::string, int>> Strata() const {
    std::map<std::string, int> level;
    for (const Op& d : derived) level[d.name] = 0;
    const int n = static_cast<int>(level.size());
    std::vector<std::set<std::pair<std::string, bool>>> deps(derived.size());
    for (size_t i = 0; i < derived.size(); i++) Polarity(derived[i].pre, true, &deps[i]);
    for (bool changed = true; changed;) {
      changed = false;
      for (size_t i = 0; i < derived.size(); i++) {
        const Op& d = derived[i];
        for (const auto& p : deps[i]) {
          if (level.count(p.first) == 0) continue;
          const int need = level[p.first] + (p.second ? 0 : 1);
          if (level[d.name] < need) {
            level[d.name] = need;
            if (need > n) return {};
            changed = true;
          }
        }
      }
    }
    return level;
  }
  State Basic(const State& s) const {
    State out;
    for (const std::string& f : s) {
      if (!IsDerived(f.substr(0, f.find('(')))) out.insert(f);
    }
    return out;
  }
  // Basic facts of s plus the stratified least model of the rules.
  State Derive(const State& s) const {
    State out = Basic(s);
    if (derived.empty()) return out;
    const auto level = Strata();
    if (!level) throw std::runtime_error("ref: not stratified");
    int max_level = 0;
    for (const auto& kv : *level) max_level = std::max(max_level, kv.second);
    for (int l = 0; l <= max_level; l++) {
      for (bool changed = true; changed;) {
        changed = false;
        for (const Op& d : derived) {
          if (level->at(d.name) != l) continue;
          for (const Args& t : Tuples(d.params)) {
            const std::string fact = Fact(d.name, t);
            if (out.count(fact) == 0 && Eval(d.pre, Bind(d.params, t), out)) {
              out.insert(fact);
              changed = true;
            }
          }
        }
      }
    }
    return out;
  }

  // Axioms -----------------------------------------------------------------------

  // One consequence set of an axiom instance: due when the context and the guards hold.
  struct GroundAxiom {
    const Op* op;
    std::string ctx;  // empty if the context is true of the objects themselves
    bool pos;
    State add, del;
    State guard_pos, guard_neg;
    bool impossible = false;  // a consequence that is false of the objects themselves
    bool Holds(const State& s) const {
      if (!ctx.empty() && (s.count(ctx) > 0) != pos) return false;
      for (const std::string& f : guard_pos) {
        if (!s.count(f)) return false;
      }
      for (const std::string& f : guard_neg) {
        if (s.count(f)) return false;
      }
      return true;
    }
    bool Known(const State& p, const State& n) const {
      if (!ctx.empty() && !(pos ? p : n).count(ctx)) return false;
      for (const std::string& f : guard_pos) {
        if (!p.count(f)) return false;
      }
      for (const std::string& f : guard_neg) {
        if (!n.count(f)) return false;
      }
      return true;
    }
  };
  // Truth of a fact that depends on the objects alone.
  std::optional<bool> Static(const std::string& f) const {
    const std::string n = f.substr(0, f.find('('));
    std::string a = f.substr(f.find('(') + 1);
    a.pop_back();
    if (n == "=") {
      const size_t comma = a.find(", ");
      return a.substr(0, comma) == a.substr(comma + 2);
    }
    if (IsType(n)) return IsSub(TypeOf(a), n);
    return {};
  }
  // Guards are conjunctions of literals.
  void GroundConsequences(const Sx& e, const Env& env, GroundAxiom g, std::map<std::pair<State, State>, GroundAxiom>* out) const {
    if (e.k.empty()) return;
    const std::string& h = e.head();
    if (h == "and") {
      for (size_t i = 1; i < e.k.size(); i++) GroundConsequences(e.k[i], env, g, out);
    } else if (h == "forall") {
      const Typed vars = TypedList(e.k[1].k, 0);
      for (const Args& t : Tuples(vars)) {
        Env inner = env;
        for (size_t i = 0; i < vars.size(); i++) inner[vars[i].first] = t[i];
        GroundConsequences(e.k[2], inner, g, out);
      }
    } else if (h == "when") {
      std::vector<const Sx*> lits = {&e.k[1]};
      if (e.k[1].head() == "and") {
        lits.clear();
        for (size_t i = 1; i < e.k[1].k.size(); i++) lits.push_back(&e.k[1].k[i]);
      }
      for (const Sx* l : lits) {
        const bool sign = l->head() != "not";
        const std::string f = Ground(sign ? *l : l->k[1], env);
        const auto known = Static(f);
        if (!known) {
          (sign ? g.guard_pos : g.guard_neg).insert(f);
        } else if (*known != sign) {
          return;
        }
      }
      GroundConsequences(e.k[2], env, g, out);
    } else {
      const bool sign = h != "not";
      const std::string f = Ground(sign ? e : e.k[1], env);
      GroundAxiom& to = out->emplace(std::make_pair(g.guard_pos, g.guard_neg), g).first->second;
      const auto known = Static(f);
      if (known) {
        to.impossible |= *known != sign;
      } else {
        (sign ? to.add : to.del).insert(f);
      }
    }
  }
  std::vector<GroundAxiom> GroundAxioms() const {
    std::vector<GroundAxiom> out;
    for (const Op& op : axioms) {
      const bool pos = op.pre.head() != "not";
      const Sx& atom = pos ? op.pre : op.pre.k[1];
      for (const Args& t : Tuples(op.params)) {
        const Env env = Bind(op.params, t);
        GroundAxiom g{&op, Ground(atom, env), pos, {}, {}, {}, {}};
        const auto known = Static(g.ctx);
        if (known) {
          if (*known != pos) continue;
          g.ctx.clear();
        }
        std::map<std::pair<State, State>, GroundAxiom> parts;
        GroundConsequences(op.eff, env, g, &parts);
        for (const auto& part : parts) out.push_back(part.second);
      }
    }
    return out;
  }
  // Closure of a full state, or nullopt if an axiom demands the impossible. The axioms must be
  // monotone (each consequence predicate with one sign, contexts on it with that sign).
  static std::optional<State> Close(const std::vector<GroundAxiom>& axs, State s) {
    for (bool changed = true; changed;) {
      changed = false;
      for (const GroundAxiom& g : axs) {
        if (!g.Holds(s)) continue;
        if (g.impossible) return {};
        for (const std::string& f : g.add) changed |= s.insert(f).second;
        for (const std::string& f : g.del) changed |= s.erase(f) > 0;
      }
    }
    return s;
  }
  // Likewise for known-true and known-false facts; nullopt also if a known fact is contradicted.
  static std::optional<std::pair<State, State>> Close(const std::vector<GroundAxiom>& axs, State p,
                                                      State n) {
    for (bool changed = true; changed;) {
      changed = false;
      for (const GroundAxiom& g : axs) {
        if (!g.Known(p, n)) continue;
        if (g.impossible) return {};
        for (const std::string& f : g.add) {
          if (n.count(f)) return {};
          changed |= p.insert(f).second;
        }
        for (const std::string& f : g.del) {
          if (p.count(f)) return {};
          changed |= n.insert(f).second;
        }
      }
    }
    return std::make_pair(p, n);
  }
  static bool Valid(const std::vector<GroundAxiom>& axs, const State& s) {
    for (const GroundAxiom& g : axs) {
      if (!g.Holds(s)) continue;
      if (g.impossible) return false;
      for (const std::string& f : g.add) {
        if (!s.count(f)) return false;
      }
      for (const std::string& f : g.del) {
        if (s.count(f)) return false;
      }
    }
    return true;
  }

  // Calls -----------------------------------------------------------------------

  bool Applicable(const Op& op, const Args& t, const State& s) const {
    return Eval(op.pre, Bind(op.params, t), s);
  }
  std::vector<std::string> ValidCalls(const State& s) const {
    std::vector<std::string> out;
    for (const Op& op : actions) {
      for (const Args& t : Tuples(op.params)) {
        if (Applicable(op, t, s)) out.push_back(Fact(op.name, t));
      }
    }
    return out;
  }
  // Successor including derived facts (no axioms).
  State Next(const Op& op, const Args& t, const State& s) const {
    return Derive(PddlApply(op.eff, Bind(op.params, t), s));
  }
};

}  // namespace ref

#endif  // VERIF_REF_H_
