/**
 * PDDL parser behind the VAL stand-in (see VAL/ptree.h).
 */
#include <VAL/FlexLexer.h>
#include <VAL/ptree.h>
#include <VAL/typecheck.h>

#include <sstream>
#include <stdexcept>

int line_no = 1;
int yydebug = 0;
const char* current_filename = nullptr;

namespace VAL {

// Defined by symbolic (src/pddl.cc), as with the real VAL.
extern parse_category* top_thing;
extern analysis* current_analysis;
extern yyFlexLexer* yfl;
extern bool Verbose;
extern std::ostream* report;

parse_category::~parse_category() {
  if (owner_ != nullptr) owner_->forget(this);
}

arena::~arena() {
  while (!owned_.empty()) delete *owned_.begin();
}

std::string pddl_req_flags_string(pddl_req_flag flags) {
  static const char* const kNames[] = {
      ":strips",  ":typing",           ":equality", ":negative-preconditions",
      ":adl",     ":conditional-effects", ":disjunctive-preconditions",
      ":universal-preconditions", ":existential-preconditions",
      ":derived-predicates", ":quantified-preconditions", ":domain-axioms"};
  std::string s;
  for (size_t i = 0; i < sizeof(kNames) / sizeof(*kNames); i++) {
    if (flags & (1UL << i)) s += std::string(kNames[i]) + " ";
  }
  return s;
}

}  // namespace VAL

namespace {

using namespace VAL;  // NOLINT

struct Sx {
  bool is_list = false;
  std::string atom;
  std::vector<Sx> kids;
};

[[noreturn]] void Fail(const std::string& msg) { throw std::runtime_error(msg); }

class Reader {
 public:
  explicit Reader(std::istream& is) : is_(is) {}
  bool Next(std::string* tok) {
    tok->clear();
    int c;
    while ((c = is_.get()) != EOF) {
      if (c == ';') {
        while ((c = is_.get()) != EOF && c != '\n') {
        }
        if (c == '\n') line_no++;
        if (!tok->empty()) return true;
        continue;
      }
      if (c == '\n') line_no++;
      if (isspace(c) != 0) {
        if (!tok->empty()) return true;
        continue;
      }
      if (c == '(' || c == ')') {
        if (!tok->empty()) {
          is_.unget();
          return true;
        }
        *tok = static_cast<char>(c);
        return true;
      }
      *tok += static_cast<char>(c);
    }
    return !tok->empty();
  }
  Sx Read() {
    std::string tok;
    if (!Next(&tok)) Fail("unexpected end of input");
    return ReadFrom(tok);
  }

 private:
  Sx ReadFrom(const std::string& tok) {
    Sx s;
    if (tok == ")") Fail("unexpected )");
    if (tok != "(") {
      s.atom = tok;
      return s;
    }
    s.is_list = true;
    std::string t;
    while (true) {
      if (!Next(&t)) Fail("unexpected end of input");
      if (t == ")") return s;
      s.kids.push_back(ReadFrom(t));
    }
  }
  std::istream& is_;
};

class Builder {
 public:
  explicit Builder(analysis* an) : an_(an), mem_(an->mem()) {}

  void Build(const Sx& s) {
    if (!s.is_list || s.kids.size() < 2 || s.kids[0].atom != "define" || !s.kids[1].is_list ||
        s.kids[1].kids.size() != 2) {
      Fail("expected (define (domain|problem NAME) ...)");
    }
    const std::string& what = s.kids[1].kids[0].atom;
    const std::string& name = s.kids[1].kids[1].atom;
    if (what == "domain") {
      BuildDomain(name, s);
    } else if (what == "problem") {
      BuildProblem(name, s);
    } else {
      Fail("expected domain or problem");
    }
  }

 private:
  using Scope = std::map<std::string, var_symbol*>;

  pddl_type* Type(const std::string& n) {
    pddl_type*& t = an_->pddl_type_tab[n];
    if (t == nullptr) t = mem_.make<pddl_type>(n);
    return t;
  }
  pred_symbol* Pred(const std::string& n) {
    pred_symbol*& p = an_->pred_tab[n];
    if (p == nullptr) p = mem_.make<pred_symbol>(n);
    return p;
  }
  const_symbol* Const(const std::string& n) {
    const_symbol*& c = an_->const_tab[n];
    if (c == nullptr) c = mem_.make<const_symbol>(n);
    return c;
  }

  void SetType(pddl_typed_symbol* sym, const Sx& type) {
    if (type.is_list) {
      if (type.kids.empty() || type.kids[0].atom != "either") Fail("expected (either ...)");
      sym->either_types = mem_.make<pddl_type_list>();
      for (size_t i = 1; i < type.kids.size(); i++) {
        sym->either_types->push_back(Type(type.kids[i].atom));
      }
    } else {
      sym->type = Type(type.atom);
    }
  }

  template <typename T, typename Make>
  typed_symbol_list<T>* TypedList(const std::vector<Sx>& kids, size_t begin, Make make) {
    auto* list = mem_.make<typed_symbol_list<T>>();
    std::vector<T*> pending;
    for (size_t i = begin; i < kids.size(); i++) {
      if (!kids[i].is_list && kids[i].atom == "-") {
        if (++i >= kids.size() || pending.empty()) Fail("dangling -");
        for (T* t : pending) SetType(t, kids[i]);
        pending.clear();
        continue;
      }
      if (kids[i].is_list) Fail("unexpected list in typed list");
      T* t = make(kids[i].atom);
      pending.push_back(t);
      list->push_back(t);
    }
    return list;
  }

  var_symbol_list* Vars(const Sx& s, Scope* scope) {
    if (!s.is_list) Fail("expected variable list");
    return TypedList<var_symbol>(s.kids, 0, [&](const std::string& n) {
      if (n.size() < 2 || n[0] != '?') Fail("expected variable, found " + n);
      var_symbol* v = mem_.make<var_symbol>(n.substr(1));
      (*scope)[n.substr(1)] = v;
      return v;
    });
  }
  const_symbol_list* Consts(const Sx& s) {
    return TypedList<const_symbol>(s.kids, 1, [&](const std::string& n) {
      if (n[0] == '?') Fail("unexpected variable " + n);
      return Const(n);
    });
  }

  proposition* Prop(const Sx& s, const Scope& scope) {
    if (!s.is_list || s.kids.empty() || s.kids[0].is_list) Fail("expected proposition");
    auto* p = mem_.make<proposition>();
    p->head = Pred(s.kids[0].atom);
    p->args = mem_.make<parameter_symbol_list>();
    for (size_t i = 1; i < s.kids.size(); i++) {
      if (s.kids[i].is_list) Fail("expected term");
      const std::string& a = s.kids[i].atom;
      if (a[0] == '?') {
        const auto it = scope.find(a.substr(1));
        if (it == scope.end()) Fail("undeclared variable " + a);
        p->args->push_back(it->second);
      } else {
        p->args->push_back(Const(a));
      }
    }
    return p;
  }

  goal_list* Goals(const Sx& s, const Scope& scope) {
    auto* l = mem_.make<goal_list>();
    for (size_t i = 1; i < s.kids.size(); i++) l->push_back(Goal(s.kids[i], scope));
    return l;
  }

  goal* Goal(const Sx& s, const Scope& scope) {
    if (!s.is_list) Fail("expected goal");
    if (s.kids.empty()) return mem_.make<conj_goal>(mem_.make<goal_list>());
    const std::string& h = s.kids[0].atom;
    if (h == "and") return mem_.make<conj_goal>(Goals(s, scope));
    if (h == "or") return mem_.make<disj_goal>(Goals(s, scope));
    if (h == "not") {
      if (s.kids.size() != 2) Fail("not takes one goal");
      return mem_.make<neg_goal>(Goal(s.kids[1], scope));
    }
    if (h == "imply") {
      if (s.kids.size() != 3) Fail("imply takes two goals");
      goal* l = Goal(s.kids[1], scope);
      return mem_.make<imply_goal>(l, Goal(s.kids[2], scope));
    }
    if (h == "forall" || h == "exists") {
      if (s.kids.size() != 3) Fail("quantifier takes variables and a goal");
      Scope inner = scope;
      var_symbol_list* vars = Vars(s.kids[1], &inner);
      return mem_.make<qfied_goal>(h == "forall" ? E_FORALL : E_EXISTS, vars,
                                   Goal(s.kids[2], inner));
    }
    return mem_.make<simple_goal>(Prop(s, scope), E_POS);
  }

  void Effects(const Sx& s, const Scope& scope, effect_lists* out) {
    if (!s.is_list) Fail("expected effect");
    if (s.kids.empty()) return;
    const std::string& h = s.kids[0].atom;
    if (h == "and") {
      for (size_t i = 1; i < s.kids.size(); i++) Effects(s.kids[i], scope, out);
    } else if (h == "not") {
      if (s.kids.size() != 2) Fail("not takes one effect");
      out->del_effects.push_back(mem_.make<simple_effect>(Prop(s.kids[1], scope)));
    } else if (h == "forall") {
      if (s.kids.size() != 3) Fail("forall takes variables and an effect");
      Scope inner = scope;
      var_symbol_list* vars = Vars(s.kids[1], &inner);
      auto* e = mem_.make<effect_lists>();
      Effects(s.kids[2], inner, e);
      out->forall_effects.push_back(mem_.make<forall_effect>(e, vars));
    } else if (h == "when") {
      if (s.kids.size() != 3) Fail("when takes a goal and an effect");
      goal* g = Goal(s.kids[1], scope);
      auto* e = mem_.make<effect_lists>();
      Effects(s.kids[2], scope, e);
      out->cond_effects.push_back(mem_.make<cond_effect>(g, e));
    } else {
      out->add_effects.push_back(mem_.make<simple_effect>(Prop(s, scope)));
    }
  }

  pddl_req_flag Requirements(const Sx& s) {
    pddl_req_flag f = 0;
    for (size_t i = 1; i < s.kids.size(); i++) {
      for (unsigned b = 0; b < 12; b++) {
        if (pddl_req_flags_string(1UL << b) == s.kids[i].atom + " ") f |= 1UL << b;
      }
    }
    return f;
  }

  template <typename Op>
  void Operator(const Sx& s, size_t begin, const std::string& name, const char* params,
                const char* pre, const char* eff) {
    auto* op = mem_.make<Op>();
    op->name = mem_.template make<operator_symbol>(name);
    Scope scope;
    const Sx* sx_params = nullptr;
    const Sx* sx_pre = nullptr;
    const Sx* sx_eff = nullptr;
    for (size_t i = begin; i < s.kids.size(); i += 2) {
      if (i + 1 >= s.kids.size()) Fail("missing value of " + s.kids[i].atom);
      if (s.kids[i].atom == params) sx_params = &s.kids[i + 1];
      else if (s.kids[i].atom == pre) sx_pre = &s.kids[i + 1];
      else if (s.kids[i].atom == eff) sx_eff = &s.kids[i + 1];
      else Fail("unexpected " + s.kids[i].atom);
    }
    op->parameters = sx_params != nullptr ? Vars(*sx_params, &scope)
                                          : mem_.template make<var_symbol_list>();
    op->precondition = sx_pre != nullptr
                           ? Goal(*sx_pre, scope)
                           : mem_.template make<conj_goal>(mem_.template make<goal_list>());
    op->effects = mem_.template make<effect_lists>();
    if (sx_eff != nullptr) Effects(*sx_eff, scope, op->effects);
    dom_->ops->push_back(op);
  }

  void BuildDomain(const std::string& name, const Sx& s) {
    dom_ = mem_.make<domain>();
    dom_->name = name;
    dom_->ops = mem_.make<operator_list>();
    dom_->drvs = mem_.make<derivations_list>();
    for (size_t i = 2; i < s.kids.size(); i++) {
      const Sx& sec = s.kids[i];
      if (!sec.is_list || sec.kids.empty()) Fail("expected section");
      const std::string& h = sec.kids[0].atom;
      if (h == ":requirements") {
        dom_->req = Requirements(sec);
      } else if (h == ":types") {
        dom_->types = TypedList<pddl_type>(sec.kids, 1,
                                           [&](const std::string& n) { return Type(n); });
      } else if (h == ":constants") {
        dom_->constants = Consts(sec);
      } else if (h == ":predicates") {
        dom_->predicates = mem_.make<pred_decl_list>();
        for (size_t j = 1; j < sec.kids.size(); j++) {
          const Sx& p = sec.kids[j];
          if (!p.is_list || p.kids.empty()) Fail("expected predicate");
          auto* decl = mem_.make<pred_decl>();
          decl->head = Pred(p.kids[0].atom);
          Sx vars = p;
          vars.kids.erase(vars.kids.begin());
          Scope scope;
          decl->args = Vars(vars, &scope);
          dom_->predicates->push_back(decl);
        }
      } else if (h == ":action") {
        if (sec.kids.size() < 2) Fail("expected action name");
        Operator<action>(sec, 2, sec.kids[1].atom, ":parameters", ":precondition", ":effect");
      } else if (h == ":axiom") {
        Operator<axiom>(sec, 1, "axiom", ":vars", ":context", ":implies");
      } else if (h == ":derived") {
        if (sec.kids.size() != 3) Fail("derived takes a head and a goal");
        Sx vars = sec.kids[1];
        if (!vars.is_list || vars.kids.empty()) Fail("expected derived head");
        auto* p = mem_.make<proposition>();
        p->head = Pred(vars.kids[0].atom);
        p->args = mem_.make<parameter_symbol_list>();
        vars.kids.erase(vars.kids.begin());
        Scope scope;
        for (var_symbol* v : *Vars(vars, &scope)) p->args->push_back(v);
        dom_->drvs->push_back(mem_.make<derivation_rule>(p, Goal(sec.kids[2], scope)));
      } else {
        Fail("unknown section " + h);
      }
    }
    an_->the_domain = dom_;
    top_thing = dom_;
  }

  void BuildProblem(const std::string& name, const Sx& s) {
    auto* prob = mem_.make<problem>();
    prob->name = name;
    for (size_t i = 2; i < s.kids.size(); i++) {
      const Sx& sec = s.kids[i];
      if (!sec.is_list || sec.kids.empty()) Fail("expected section");
      const std::string& h = sec.kids[0].atom;
      if (h == ":domain") {
        prob->domain_name = sec.kids.size() > 1 ? sec.kids[1].atom : "";
      } else if (h == ":requirements") {
        prob->req = Requirements(sec);
      } else if (h == ":objects") {
        prob->objects = Consts(sec);
      } else if (h == ":init") {
        prob->initial_state = mem_.make<effect_lists>();
        for (size_t j = 1; j < sec.kids.size(); j++) {
          Effects(sec.kids[j], {}, prob->initial_state);
        }
      } else if (h == ":goal") {
        if (sec.kids.size() != 2) Fail("expected one goal");
        prob->the_goal = Goal(sec.kids[1], {});
      } else {
        Fail("unknown section " + h);
      }
    }
    an_->the_problem = prob;
    top_thing = prob;
  }

  analysis* an_;
  arena& mem_;
  domain* dom_ = nullptr;
};

}  // namespace

int yyparse() {
  try {
    std::istream* in = VAL::yfl->input();
    if (in == nullptr || !*in) Fail("cannot read input");
    Sx s = Reader(*in).Read();
    std::string rest;
    if (Reader(*in).Next(&rest)) Fail("trailing input: " + rest);
    Builder(VAL::current_analysis).Build(s);
  } catch (const std::exception& e) {
    std::stringstream ss;
    ss << (current_filename != nullptr ? current_filename : "?") << ": line " << line_no << ": "
       << e.what();
    VAL::current_analysis->error_list.add(ss.str());
    return 1;
  }
  return 0;
}

// Type checker ------------------------------------------------------------------

namespace VAL {

static bool Fits(const pddl_type* arg, const pddl_type* param) {
  if (param == nullptr || param->getNameRef() == "object") return true;
  for (; arg != nullptr; arg = arg->type) {
    if (arg == param) return true;
  }
  return false;
}

bool TypeChecker::checkProp(const proposition* prop) const {
  const std::string& name = prop->head->getNameRef();
  if (name == "=") return prop->args->size() == 2;
  if (an_->pddl_type_tab.count(name) > 0 || name == "object") return prop->args->size() == 1;
  if (an_->the_domain->predicates == nullptr) return false;
  for (const pred_decl* decl : *an_->the_domain->predicates) {
    if (decl->head != prop->head) continue;
    if (decl->args->size() != prop->args->size()) return false;
    auto it = decl->args->begin();
    for (const parameter_symbol* arg : *prop->args) {
      if (arg->either_types == nullptr && !Fits(arg->type, (*it)->type)) {
        if (Verbose && report != nullptr) {
          *report << "Type problem with proposition " << name << std::endl;
        }
        return false;
      }
      ++it;
    }
    return true;
  }
  return false;
}

bool TypeChecker::checkGoal(const goal* g) const {
  if (const auto* s = dynamic_cast<const simple_goal*>(g)) return checkProp(s->getProp());
  if (const auto* n = dynamic_cast<const neg_goal*>(g)) return checkGoal(n->getGoal());
  if (const auto* q = dynamic_cast<const qfied_goal*>(g)) return checkGoal(q->getGoal());
  const goal_list* l = nullptr;
  if (const auto* c = dynamic_cast<const conj_goal*>(g)) l = c->getGoals();
  if (const auto* d = dynamic_cast<const disj_goal*>(g)) l = d->getGoals();
  if (l != nullptr) {
    for (const goal* x : *l) {
      if (!checkGoal(x)) return false;
    }
  }
  return true;
}

bool TypeChecker::checkEffects(const effect_lists* e) const {
  for (const simple_effect* x : e->add_effects) {
    if (!checkProp(x->prop)) return false;
  }
  for (const simple_effect* x : e->del_effects) {
    if (!checkProp(x->prop)) return false;
  }
  for (const forall_effect* x : e->forall_effects) {
    if (!checkEffects(x->getEffects())) return false;
  }
  for (const cond_effect* x : e->cond_effects) {
    if (!checkGoal(x->getCondition()) || !checkEffects(x->getEffects())) return false;
  }
  return true;
}

bool TypeChecker::typecheckDomain() {
  for (const operator_* op : *an_->the_domain->ops) {
    if (!checkGoal(op->precondition) || !checkEffects(op->effects)) return false;
  }
  for (const derivation_rule* d : *an_->the_domain->drvs) {
    if (!checkGoal(d->get_body())) return false;
  }
  return true;
}

bool TypeChecker::typecheckProblem() {
  const problem* p = an_->the_problem;
  if (p == nullptr) return true;
  if (p->initial_state != nullptr && !checkEffects(p->initial_state)) return false;
  return p->the_goal == nullptr || checkGoal(p->the_goal);
}

}  // namespace VAL
