/**
 * Random PDDL domains, problems, formulas, effects and states. Everything generated is type
 * correct; what a check cannot handle is switched off through GenOpts.
 */
#ifndef VERIF_GEN_H_
#define VERIF_GEN_H_

#include <functional>
#include <map>
#include <string>
#include <vector>

#include "common.h"
#include "ref.h"

namespace gen {

struct Opts {
  int max_types = 4;
  int max_objects = 5;
  int max_preds = 5;
  int max_arity = 3;
  int max_actions = 3;
  int max_params = 3;
  int depth = 3;
  int wide = 4;               // percent of connectives and effects with many members
  int pre_empty = 5;          // percent of actions without precondition
  size_t and_below = 48;      // 25..65: share of conjunctions among connectives
  bool nullary = true;        // predicates and actions without parameters
  bool constants = true;
  bool quantifiers = true;
  bool equality = true;
  bool typepred = true;
  bool shadow = true;         // inner variables may shadow outer ones
  bool clash = true;          // variables may be named like constants
  bool cond_effects = true;
  bool forall_effects = true;
  bool derived = false;
  bool axioms = false;
  bool axiom_constraints = false;  // '=' and type consequences
  bool axiom_guards = false;       // conditional consequences
  bool axiom_static = false;       // '=' and type contexts
  int axiom_forall = 12;           // percent of consequences that are quantified
  bool empty_types = true;    // types without objects
  bool untyped = true;        // sometimes no :types section at all
  size_t max_atoms = 200;
};

struct Dom {
  std::string domain;   // text
  std::string problem;  // text
  ref::Model m;
};

using Scope = ref::Typed;  // variables with their '?' and type

class Gen {
 public:
  Gen(Rng* rng, const Opts& o) : r_(*rng), o_(o) {}

  Dom Make() {
    Dom d;
    for (int attempt = 0;; attempt++) {
      d.m = ref::Model();
      MakeWorld(&d.m);
      if (d.m.Atoms().size() <= o_.max_atoms) break;
      if (attempt > 20) o_.max_arity = 1;
    }
    MakeRules(&d.m);
    for (const std::string& a : d.m.Atoms(false)) {
      if (r_.Chance(35)) d.m.init.insert(a);
    }
    // The goal may mention every object.
    consts_ = d.m.objects();
    d.m.goal = Formula(d.m, {}, o_.depth);
    Render(&d);
    return d;
  }

  // Text of the model (also after a check has edited it).
  static void Render(Dom* d) {
    d->domain = DomainText(d->m);
    d->problem = ProblemText(d->m);
  }

  static std::string TypedText(const ref::Typed& t, bool has_types) {
    std::string s;
    // Entries without a type are objects, and come last.
    size_t typed = t.size();
    uint64_t h = 0;
    for (const auto& e : t) h = h * 31 + e.first.size() + static_cast<unsigned char>(e.first.back());
    while (typed > 0 && t[typed - 1].second == "object" && (!has_types || h % 3 == 0)) typed--;
    for (size_t i = 0; i < t.size(); i++) s += " " + t[i].first + (i < typed ? " - " + t[i].second : "");
    return s;
  }

  static std::string DomainText(const ref::Model& m) {
    std::string s = "(define (domain " + m.name + ")\n  (:requirements :strips :typing :adl)\n";
    if (m.has_types) {
      s += "  (:types";
      // So do types without a parent.
      size_t typed = m.type_order.size();
      while ((m.type_order.size() + m.preds.size()) % 2 == 0 && typed > 0 && m.type_order[typed - 1] != "object" &&
             m.parent.at(m.type_order[typed - 1]) == "object") {
        typed--;
      }
      for (size_t i = 0; i < m.type_order.size(); i++) {
        const std::string& t = m.type_order[i];
        s += " " + t;
        if (t != "object" && i < typed) s += " - " + m.parent.at(t);
      }
      s += ")\n";
    }
    if (!m.constants.empty()) s += "  (:constants" + TypedText(m.constants, m.has_types) + ")\n";
    s += "  (:predicates";
    for (const ref::Pred& p : m.preds) s += "\n    (" + p.name + TypedText(p.params, m.has_types) + ")";
    s += ")\n";
    for (const ref::Op& a : m.axioms) {
      s += "  (:axiom\n    :vars (" + TypedText(a.params, m.has_types) + ")\n    :context " + a.pre.str() +
           "\n    :implies " + a.eff.str() + ")\n";
    }
    for (const ref::Op& a : m.derived) {
      s += "  (:derived (" + a.name + TypedText(a.params, m.has_types) + ") " + a.pre.str() + ")\n";
    }
    for (const ref::Op& a : m.actions) {
      s += "  (:action " + a.name + "\n    :parameters (" + TypedText(a.params, m.has_types) +
           ")\n    :precondition " + a.pre.str() + "\n    :effect " + a.eff.str() + ")\n";
    }
    return s + ")\n";
  }

  static std::string FactSx(const std::string& fact) {
    std::string s = "(" + fact.substr(0, fact.find('('));
    std::string args = fact.substr(fact.find('(') + 1);
    args.pop_back();
    if (!args.empty()) {
      s += " ";
      for (const char c : args) {
        if (c != ',') s += c;
      }
    }
    return s + ")";
  }

  static std::string ProblemText(const ref::Model& m) {
    std::string s = "(define (problem " + m.problem_name + ")\n  (:domain " + m.name + ")\n";
    s += "  (:objects" + TypedText(m.prob_objects, m.has_types) + ")\n  (:init";
    for (const std::string& f : m.init) s += " " + FactSx(f);
    s += ")\n  (:goal " + m.goal.str() + ")\n)\n";
    return s;
  }

  ref::State RandomState(const ref::Model& m, int percent, bool with_derived = false) {
    ref::State s;
    for (const std::string& a : m.Atoms(with_derived)) {
      if (r_.Chance(percent)) s.insert(a);
    }
    return s;
  }

  // Formulas -------------------------------------------------------------------

  static ref::Sx A(const std::string& a) {
    ref::Sx s;
    s.a = a;
    return s;
  }
  static ref::Sx L(std::vector<ref::Sx> k) {
    ref::Sx s;
    s.list = true;
    s.k = std::move(k);
    return s;
  }
  static ref::Sx VarList(const ref::Typed& t, bool has_types) {
    std::vector<ref::Sx> k;
    for (const auto& e : t) {
      k.push_back(A(e.first));
      if (has_types) {
        k.push_back(A("-"));
        k.push_back(A(e.second));
      }
    }
    return L(k);
  }

  void set_consts(const ref::Typed& c) { consts_ = c; }

  // A term of (a subtype of) the type, or "" if there is none.
  std::string Term(const ref::Model& m, const Scope& scope, const std::string& type) {
    std::vector<std::string> vars, consts;
    for (const auto& v : scope) {
      if (m.IsSub(v.second, type)) vars.push_back(v.first);
    }
    for (const auto& c : consts_) {
      if (m.IsSub(c.second, type)) consts.push_back(c.first);
    }
    if (!vars.empty() && (consts.empty() || r_.Chance(75))) return r_.Pick(vars);
    if (!consts.empty()) return r_.Pick(consts);
    return "";
  }

  // allowed(pred name) filters predicates. Returns an empty list if nothing fits.
  template <typename Allowed>
  ref::Sx Atom(const ref::Model& m, const Scope& scope, const Allowed& allowed) {
    for (int attempt = 0; attempt < 8; attempt++) {
      const ref::Pred& p = r_.Pick(m.preds);
      if (!allowed(p.name)) continue;
      std::vector<ref::Sx> k = {A(p.name)};
      for (const auto& param : p.params) {
        const std::string t = Term(m, scope, param.second);
        if (t.empty()) break;
        k.push_back(A(t));
      }
      if (k.size() == p.params.size() + 1) return L(k);
    }
    return L({});
  }

  static bool Any(const std::string&) { return true; }

  ref::Sx Literal(const ref::Model& m, const Scope& scope) {
    const size_t w = r_.Below(100);
    ref::Sx a = L({});
    if (w < 14 && o_.equality) {
      const std::string x = Term(m, scope, "object");
      const std::string y = Term(m, scope, "object");
      if (!x.empty() && !y.empty()) a = L({A("="), A(x), A(y)});
    } else if (w < 26 && o_.typepred && !m.type_order.empty()) {
      const std::string x = Term(m, scope, "object");
      if (!x.empty()) a = L({A(r_.Pick(m.type_order)), A(x)});
    }
    if (a.k.empty()) a = Atom(m, scope, [&](const std::string& n) { return atom_ok_ ? atom_ok_(n) : true; });
    if (a.k.empty()) return L({A("and")});
    return a;
  }

  ref::Sx Formula(const ref::Model& m, const Scope& scope, int depth) {
    const size_t w = r_.Below(100);
    if (depth <= 0 || w < 25) {
      const ref::Sx l = Literal(m, scope);
      return r_.Chance(30) ? L({A("not"), l}) : l;
    }
    if (w < 65) {
      std::vector<ref::Sx> k = {A(w < o_.and_below ? "and" : "or")};
      const bool wide = r_.Chance(o_.wide);
      const int n = wide ? r_.Range(4, 7) : r_.Chance(4) ? 0 : r_.Range(1, 3);
      for (int i = 0; i < n; i++) k.push_back(Formula(m, scope, wide ? 0 : depth - 1));
      return L(k);
    }
    if (w < 78 || !o_.quantifiers) return L({A("not"), Formula(m, scope, depth - 1)});
    ref::Typed vars = NewVars(m, scope, r_.Chance(2) ? 3 : r_.Chance(20) ? 2 : 1);
    while (vars.size() > 2 && m.Tuples(vars).size() > 30) vars.pop_back();
    Scope inner = scope;
    for (const auto& v : vars) {
      inner.erase(std::remove_if(inner.begin(), inner.end(),
                                 [&](const auto& e) { return e.first == v.first; }),
                  inner.end());
    }
    inner.insert(inner.end(), vars.begin(), vars.end());
    return L({A(w < 89 ? "forall" : "exists"), VarList(vars, m.has_types),
              Formula(m, inner, depth - 1)});
  }

  ref::Typed NewVars(const ref::Model& m, const Scope& scope, int n) {
    static const std::vector<std::string> kNames = {"?x", "?y", "?z", "?w", "?v1", "?v2"};
    ref::Typed vars;
    for (int i = 0; i < n; i++) {
      for (int attempt = 0; attempt < 30; attempt++) {
        std::string name = r_.Pick(kNames);
        if (o_.clash && !m.constants.empty() && r_.Chance(15)) {
          name = "?" + r_.Pick(m.constants).first;
        }
        bool used = false;
        for (const auto& v : vars) used |= v.first == name;
        for (const auto& v : scope) used |= v.first == name && (!o_.shadow || !r_.Chance(30));
        if (used) continue;
        vars.emplace_back(name, RandomType(m));
        break;
      }
    }
    return vars;
  }

  std::string RandomType(const ref::Model& m) {
    if (!m.has_types || m.type_order.empty() || r_.Chance(15)) return "object";
    return r_.Pick(m.type_order);
  }

  // Effects ----------------------------------------------------------------------

  ref::Sx Effect(const ref::Model& m, const Scope& scope, int depth) {
    const auto basic = [&](const std::string& n) {
      return !m.IsDerived(n) && (!effect_ok_ || effect_ok_(n));
    };
    std::vector<ref::Sx> k = {A("and")};
    const int n = r_.Chance(o_.wide) ? r_.Range(4, 7) : r_.Range(1, 3);
    for (int i = 0; i < n; i++) {
      const size_t w = r_.Below(100);
      if (depth > 0 && w < 20 && o_.forall_effects) {
        const ref::Typed vars = NewVars(m, scope, 1);
        Scope inner = scope;
        for (const auto& v : vars) {
          inner.erase(std::remove_if(inner.begin(), inner.end(),
                                     [&](const auto& e) { return e.first == v.first; }),
                      inner.end());
        }
        inner.insert(inner.end(), vars.begin(), vars.end());
        k.push_back(L({A("forall"), VarList(vars, m.has_types), Effect(m, inner, depth - 1)}));
      } else if (depth > 0 && w < 45 && o_.cond_effects) {
        k.push_back(L({A("when"), Formula(m, scope, 1), Effect(m, scope, depth - 1)}));
      } else {
        const ref::Sx a = Atom(m, scope, basic);
        if (a.k.empty()) continue;
        k.push_back(r_.Chance(45) ? L({A("not"), a}) : a);
      }
    }
    if (k.size() == 2 && r_.Chance(40)) return k[1];
    return L(k);
  }

  std::function<bool(const std::string&)> atom_ok_, effect_ok_;

 private:
  void MakeWorld(ref::Model* m) {
    m->name = "dom";
    m->problem_name = "prob";
    m->has_types = !(o_.untyped && r_.Chance(8));
    if (m->has_types) {
      const int n = r_.Range(1, o_.max_types);
      static const std::vector<std::string> kNames = {"t", "t1", "t10", "block", "t-a", "s_b"};
      std::vector<std::string> names = kNames;
      r_.Shuffle(&names);
      for (int i = 0; i < n; i++) {
        const std::string parent =
            i == 0 || r_.Chance(35) ? "object" : m->type_order[r_.Below(m->type_order.size())];
        m->type_order.push_back(names[i]);
        m->parent[names[i]] = parent;
      }
      if (r_.Chance(40)) r_.Shuffle(&m->type_order);
    }
    static const std::vector<std::string> kObj = {"a", "b", "ab", "a-b", "a_b", "o1",
                                                  "o10", "box", "x", "c", "y", "z1"};
    std::vector<std::string> names = kObj;
    r_.Shuffle(&names);
    const int n = r_.Range(1, o_.max_objects);
    for (int i = 0; i < n; i++) {
      ref::Typed& list = o_.constants && r_.Chance(30) ? m->constants : m->prob_objects;
      list.emplace_back(names[i], RandomType(*m));
    }
    if (!o_.empty_types) {
      for (const std::string& t : m->type_order) {
        if (m->OfType(t).empty()) {
          size_t i = 0;
          while (m->HasObject(names[i])) i++;
          m->prob_objects.emplace_back(names[i], t);
        }
      }
    }
    static const std::vector<std::string> kPred = {"p", "q", "r", "pq", "on", "p-q", "at_x", "s2"};
    names = kPred;
    r_.Shuffle(&names);
    const int np = r_.Range(2, o_.max_preds);
    for (int i = 0; i < np; i++) {
      static const int kArity[] = {0, 1, 1, 1, 2, 2, 2, 3};
      int arity = std::min(kArity[r_.Below(8)], o_.max_arity);
      if (o_.max_arity >= 3 && r_.Chance(2)) arity = r_.Range(4, 5);
      if (arity == 0 && !o_.nullary) arity = 1;
      ref::Pred p{names[i], {}};
      for (int j = 0; j < arity; j++) p.params.emplace_back("?a" + std::to_string(j), RandomType(*m));
      m->preds.push_back(p);
    }
  }

  void MakeRules(ref::Model* m) {
    consts_ = m->constants;
    if (o_.derived) MakeDerived(m);
    if (o_.axioms) MakeAxioms(m);
    const int na = r_.Range(1, o_.max_actions);
    static const std::vector<std::string> kAct = {"act", "act2", "pick", "pick-up", "put_on", "a"};
    std::vector<std::string> names = kAct;
    r_.Shuffle(&names);
    for (int i = 0; i < na; i++) {
      ref::Op op;
      op.name = names[i];
      int n = o_.max_params >= 3 && r_.Chance(4) ? r_.Range(4, 5) : r_.Range(0, o_.max_params);
      if (n == 0 && !o_.nullary) n = 1;
      op.params = NewVars(*m, {}, n);
      while (op.params.size() > 1 && m->Tuples(op.params).size() > 64) op.params.pop_back();
      op.pre = r_.Chance(o_.pre_empty) ? L({}) : Formula(*m, op.params, o_.depth);
      op.eff = Effect(*m, op.params, 2);
      m->actions.push_back(op);
    }
  }

  void MakeDerived(ref::Model* m) {
    const int n = r_.Range(1, 3);
    for (int i = 0; i < n; i++) {
      ref::Pred p{"dp" + std::to_string(i), {}};
      const int arity = o_.nullary && r_.Chance(15) ? 0 : r_.Range(1, 2);
      for (int j = 0; j < arity; j++) p.params.emplace_back("?a" + std::to_string(j), RandomType(*m));
      m->preds.push_back(p);
      ref::Op d;
      d.name = p.name;
      m->derived.push_back(d);  // placeholder: marks it derived
    }
    m->derived.clear();
    for (int i = 0; i < n; i++) {
      const std::string name = "dp" + std::to_string(i);
      const ref::Pred* p = nullptr;
      for (const ref::Pred& q : m->preds) {
        if (q.name == name) p = &q;
      }
      const int rules = r_.Chance(35) ? 2 : 1;
      for (int k = 0; k < rules; k++) {
        ref::Op d;
        d.name = name;
        static const std::vector<std::string> kVars = {"?x", "?y", "?z"};
        for (size_t j = 0; j < p->params.size(); j++) {
          d.params.emplace_back(kVars[j], p->params[j].second);
        }
        // Basic or lower derived predicates anywhere; recursion only through an existential
        // conjunction, positively.
        atom_ok_ = [i](const std::string& q) {
          return q.compare(0, 2, "dp") != 0 || std::stoi(q.substr(2)) < i;
        };
        d.pre = Formula(*m, d.params, 2);
        atom_ok_ = nullptr;
        if (r_.Chance(45) && !p->params.empty()) {
          // (or base (exists (?m) (and step (dp ... ?m))))
          const std::string type = p->params.back().second;
          Scope inner = d.params;
          inner.emplace_back("?m", type);
          std::vector<ref::Sx> rec = {A(name)};
          for (size_t j = 0; j + 1 < d.params.size(); j++) rec.push_back(A(d.params[j].first));
          rec.push_back(A("?m"));
          atom_ok_ = [](const std::string& q) { return q.compare(0, 2, "dp") != 0; };
          const ref::Sx step = Literal(*m, inner);
          atom_ok_ = nullptr;
          d.pre = L({A("or"), d.pre,
                     L({A("exists"), VarList({{"?m", type}}, m->has_types),
                        L({A("and"), step, L(rec)})})});
        }
        m->derived.push_back(d);
      }
    }
    if (r_.Chance(40)) r_.Shuffle(&m->derived);
  }

  // Axioms whose closure is unique: every predicate that is a consequence has one sign, and
  // contexts on it use that sign.
  void MakeAxioms(ref::Model* m) {
    std::map<std::string, bool> sign;
    for (const ref::Pred& p : m->preds) sign[p.name] = r_.Chance(65);
    const int n = r_.Range(1, 3);
    const auto basic = [&](const std::string& q) { return !m->IsDerived(q); };
    std::set<std::string> consequences;
    std::vector<std::pair<ref::Op, std::string>> todo;
    for (int i = 0; i < n; i++) {
      ref::Op op;
      op.params = NewVars(*m, {}, r_.Range(o_.nullary ? 0 : 1, 3));
      ref::Sx ctx = Atom(*m, op.params, basic);
      if (o_.axiom_static && r_.Chance(30)) {
        const std::string x = Term(*m, op.params, "object");
        const std::string y = Term(*m, op.params, "object");
        if (x.empty() || y.empty()) continue;
        ctx = r_.Chance(50) || m->type_order.empty() ? L({A("="), A(x), A(y)}) : L({A(r_.Pick(m->type_order)), A(x)});
      }
      if (ctx.k.empty()) continue;
      // Keep only variables of the context, most of the time (others range freely).
      ref::Typed used;
      for (const auto& v : op.params) {
        bool in = false;
        for (const ref::Sx& s : ctx.k) in |= s.a == v.first;
        if (in) used.push_back(v);
      }
      if (!r_.Chance(25)) op.params = used;
      std::vector<ref::Sx> k = {A("and")};
      for (int j = r_.Range(1, 2); j > 0; j--) {
        if (o_.axiom_constraints && r_.Chance(30)) {
          const std::string x = Term(*m, op.params, "object");
          const std::string y = Term(*m, op.params, "object");
          if (x.empty() || y.empty()) continue;
          ref::Sx lit = r_.Chance(60) || m->type_order.empty()
                            ? L({A("="), A(x), A(y)})
                            : L({A(r_.Pick(m->type_order)), A(x)});
          k.push_back(r_.Chance(60) ? L({A("not"), lit}) : lit);
          continue;
        }
        Scope scope = op.params;
        ref::Typed vars;
        if (r_.Chance(o_.axiom_forall)) {
          vars = NewVars(*m, {}, 1);
          for (const auto& v : vars) {
            scope.erase(std::remove_if(scope.begin(), scope.end(),
                                       [&](const auto& e) { return e.first == v.first; }),
                        scope.end());
            scope.push_back(v);
          }
        }
        const ref::Sx a = Atom(*m, scope, basic);
        if (a.k.empty()) continue;
        consequences.insert(a.k[0].a);
        ref::Sx lit = sign[a.k[0].a] ? a : L({A("not"), a});
        if (o_.axiom_guards && r_.Chance(60)) {
          std::vector<ref::Sx> lits;
          for (int n = r_.Range(1, 2); n > 0; n--) {
            if (r_.Chance(10)) {
              const std::string x = Term(*m, scope, "object");
              const std::string y = Term(*m, scope, "object");
              if (x.empty() || y.empty()) continue;
              const ref::Sx eq = r_.Chance(50) || m->type_order.empty() ? L({A("="), A(x), A(y)}) : L({A(r_.Pick(m->type_order)), A(x)});
              lits.push_back(r_.Chance(50) ? L({A("not"), eq}) : eq);
              continue;
            }
            const ref::Sx guard = Atom(*m, scope, basic);
            if (guard.k.empty()) continue;
            lits.push_back(sign[guard.k[0].a] ? guard : L({A("not"), guard}));
          }
          ref::Sx cond = L({A("and")});
          cond.k.insert(cond.k.end(), lits.begin(), lits.end());
          lit = L({A("when"), lits.size() == 1 && r_.Chance(60) ? lits[0] : cond, lit});
        }
        k.push_back(vars.empty() ? lit
                                 : L({A("forall"), VarList(vars, m->has_types), L({A("and"), lit})}));
      }
      if (k.size() == 1) continue;
      op.eff = k.size() == 2 && r_.Chance(50) ? k[1] : L(k);
      op.pre = ctx;
      todo.emplace_back(op, ctx.k[0].a);
    }
    for (auto& t : todo) {
      bool positive = consequences.count(t.second) > 0 ? sign[t.second] : r_.Chance(70);
      if (!positive) t.first.pre = L({A("not"), t.first.pre});
      m->axioms.push_back(t.first);
    }
  }

  Rng& r_;
  Opts o_;
  ref::Typed consts_;
};

}  // namespace gen

#endif  // VERIF_GEN_H_
