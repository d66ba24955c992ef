/**
 * Stand-in for VAL's ptree.h (the VAL fork that symbolic depends on is not available offline).
 *
 * Only the parse-tree API which symbolic uses, with VAL's class names, base classes and ownership:
 * everything parsed belongs to its `analysis` and dies with it, so use after destruction is visible
 * to AddressSanitizer. An object deleted earlier (Pddl::RemoveObject deletes symbols) is forgotten
 * by its owner.
 */
#ifndef VALSHIM_PTREE_H_
#define VALSHIM_PTREE_H_

#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <unordered_set>
#include <vector>

// VAL exposes these names globally (formula.cc relies on it).
using std::cout;
using std::endl;
using std::list;
using std::map;
using std::ostream;
using std::string;
using std::vector;

extern int line_no;

namespace VAL {

class analysis;
class arena;

class parse_category {
 public:
  parse_category() = default;
  parse_category(const parse_category&) = delete;
  parse_category& operator=(const parse_category&) = delete;
  virtual ~parse_category();
  arena* owner_ = nullptr;
};

class arena {
 public:
  ~arena();
  template <typename T, typename... A>
  T* make(A&&... a) {
    T* t = new T(std::forward<A>(a)...);
    t->owner_ = this;
    owned_.insert(t);
    return t;
  }
  void forget(parse_category* p) { owned_.erase(p); }

 private:
  std::unordered_set<parse_category*> owned_;
};

template <class pc>
class pc_list : public std::list<pc>, public parse_category {};

template <typename T>
class typed_symbol_list : public pc_list<T*> {};

class pddl_type;
class parameter_symbol;
class var_symbol;
class const_symbol;

using pddl_type_list = typed_symbol_list<pddl_type>;
using parameter_symbol_list = typed_symbol_list<parameter_symbol>;
using var_symbol_list = typed_symbol_list<var_symbol>;
using const_symbol_list = typed_symbol_list<const_symbol>;

class symbol : public parse_category {
 public:
  symbol() = default;
  explicit symbol(const std::string& n) : name(n) {}
  virtual std::string getName() const { return name; }
  const std::string& getNameRef() const { return name; }

 protected:
  std::string name;
};

class pred_symbol : public symbol {
 public:
  using symbol::symbol;
};
class func_symbol : public symbol {
 public:
  using symbol::symbol;
};
class operator_symbol : public symbol {
 public:
  using symbol::symbol;
};

class pddl_typed_symbol : public symbol {
 public:
  using symbol::symbol;
  pddl_type* type = nullptr;
  pddl_type_list* either_types = nullptr;
};
class parameter_symbol : public pddl_typed_symbol {
 public:
  using pddl_typed_symbol::pddl_typed_symbol;
};
class var_symbol : public parameter_symbol {
 public:
  using parameter_symbol::parameter_symbol;
};
class const_symbol : public parameter_symbol {
 public:
  using parameter_symbol::parameter_symbol;
};
class pddl_type : public pddl_typed_symbol {
 public:
  using pddl_typed_symbol::pddl_typed_symbol;
};

class proposition : public parse_category {
 public:
  pred_symbol* head = nullptr;
  parameter_symbol_list* args = nullptr;
};

class pred_decl : public parse_category {
 public:
  pred_symbol* head = nullptr;
  var_symbol_list* args = nullptr;
  const pred_symbol* getPred() const { return head; }
  const var_symbol_list* getArgs() const { return args; }
};
class pred_decl_list : public pc_list<pred_decl*> {};

// Goals -----------------------------------------------------------------------

enum polarity { E_NEG, E_POS };
enum quantifier { E_FORALL, E_EXISTS };

class goal : public parse_category {};
class goal_list : public pc_list<goal*> {};

class con_goal : public goal {};
class constraint_goal : public con_goal {};
class preference : public con_goal {};
class timed_goal : public goal {};
class comparison : public goal {};

class simple_goal : public goal {
 public:
  simple_goal(proposition* p, polarity plr) : plrty(plr), prop(p) {}
  const proposition* getProp() const { return prop; }
  polarity getPolarity() const { return plrty; }

 private:
  polarity plrty;
  proposition* prop;
};
class qfied_goal : public goal {
 public:
  qfied_goal(quantifier q, var_symbol_list* v, goal* g) : qfier(q), vars(v), gl(g) {}
  quantifier getQuantifier() const { return qfier; }
  const var_symbol_list* getVars() const { return vars; }
  const goal* getGoal() const { return gl; }

 private:
  quantifier qfier;
  var_symbol_list* vars;
  goal* gl;
};
class conj_goal : public goal {
 public:
  explicit conj_goal(goal_list* g) : goals(g) {}
  const goal_list* getGoals() const { return goals; }

 private:
  goal_list* goals;
};
class disj_goal : public goal {
 public:
  explicit disj_goal(goal_list* g) : goals(g) {}
  const goal_list* getGoals() const { return goals; }

 private:
  goal_list* goals;
};
class imply_goal : public goal {
 public:
  imply_goal(goal* l, goal* r) : lhs(l), rhs(r) {}
  const goal* getAntecedent() const { return lhs; }
  const goal* getConsequent() const { return rhs; }

 private:
  goal* lhs;
  goal* rhs;
};
class neg_goal : public goal {
 public:
  explicit neg_goal(goal* g) : gl(g) {}
  const goal* getGoal() const { return gl; }

 private:
  goal* gl;
};

// Effects ---------------------------------------------------------------------

class effect_lists;
class effect : public parse_category {};
class simple_effect : public effect {
 public:
  explicit simple_effect(proposition* p) : prop(p) {}
  proposition* prop;
};
class forall_effect : public effect {
 public:
  forall_effect(effect_lists* e, var_symbol_list* v) : operand(e), vars(v) {}
  const effect_lists* getEffects() const { return operand; }
  const var_symbol_list* getVarsList() const { return vars; }

 private:
  effect_lists* operand;
  var_symbol_list* vars;
};
class cond_effect : public effect {
 public:
  cond_effect(goal* c, effect_lists* e) : cond(c), effects(e) {}
  const goal* getCondition() const { return cond; }
  const effect_lists* getEffects() const { return effects; }

 private:
  goal* cond;
  effect_lists* effects;
};
class assignment : public effect {};
class timed_effect : public effect {};

class effect_lists : public parse_category {
 public:
  pc_list<simple_effect*> add_effects;
  pc_list<simple_effect*> del_effects;
  pc_list<forall_effect*> forall_effects;
  pc_list<cond_effect*> cond_effects;
  pc_list<cond_effect*> cond_assign_effects;
  pc_list<assignment*> assign_effects;
  pc_list<timed_effect*> timed_effects;
};

// Domain ----------------------------------------------------------------------

class structure_def : public parse_category {};

class operator_ : public structure_def {
 public:
  operator_symbol* name = nullptr;
  var_symbol_list* parameters = nullptr;
  goal* precondition = nullptr;
  effect_lists* effects = nullptr;
};
class action : public operator_ {};
class durative_action : public operator_ {};
class axiom : public operator_ {};
class operator_list : public pc_list<operator_*> {};

class derivation_rule : public structure_def {
 public:
  derivation_rule(proposition* h, goal* b) : head(h), body(b) {}
  proposition* get_head() const { return head; }
  goal* get_body() const { return body; }

 private:
  proposition* head;
  goal* body;
};
class derivations_list : public pc_list<derivation_rule*> {};

using pddl_req_flag = unsigned long;
std::string pddl_req_flags_string(pddl_req_flag flags);

class domain : public parse_category {
 public:
  operator_list* ops = nullptr;
  derivations_list* drvs = nullptr;
  std::string name;
  pddl_req_flag req = 0;
  pddl_type_list* types = nullptr;
  const_symbol_list* constants = nullptr;
  pred_decl_list* predicates = nullptr;
};

class problem : public parse_category {
 public:
  std::string name;
  std::string domain_name;
  pddl_req_flag req = 0;
  pddl_type_list* types = nullptr;
  const_symbol_list* objects = nullptr;
  effect_lists* initial_state = nullptr;
  goal* the_goal = nullptr;
};

class parse_error_list {
 public:
  void add(const std::string& msg) { errors_.push_back(msg); }
  void report() {
    std::cout << "Errors: " << errors_.size() << ", warnings: 0" << std::endl;
    for (const std::string& e : errors_) std::cout << e << std::endl;
  }
  size_t errors() const { return errors_.size(); }

 private:
  std::vector<std::string> errors_;
};

class analysis {
 public:
  analysis() = default;
  analysis(const analysis&) = delete;
  analysis& operator=(const analysis&) = delete;

 private:
  // Destroyed last.
  arena arena_;

 public:
  arena& mem() { return arena_; }

  std::map<std::string, pred_symbol*> pred_tab;
  std::map<std::string, pddl_type*> pddl_type_tab;
  std::map<std::string, const_symbol*> const_tab;

  domain* the_domain = nullptr;
  problem* the_problem = nullptr;
  parse_error_list error_list;
};

}  // namespace VAL

#endif  // VALSHIM_PTREE_H_
