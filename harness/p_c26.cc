// C26: the Python module (its real bindings, compiled against the pybind11 stand-in in pyshim/, in an
// embedded interpreter) answers every call as the library does, and Python values keep what they
// need alive. The sanitizers watch both sides.
#include <Python.h>
// After Python.h.
#include <symbolic/normal_form.h>
#include <symbolic/planning/breadth_first_search.h>

#include <fstream>
#include <iostream>

#include "dnf.h"
#include "structured.h"
#include "world.h"

extern "C" PyObject* PyInit_pysymbolic();

namespace {

using symbolic::Action;
using symbolic::Axiom;
using symbolic::DerivedPredicate;
using symbolic::DisjunctiveFormula;
using symbolic::Formula;
using symbolic::Object;
using symbolic::ParameterGenerator;
using symbolic::PartialState;
using symbolic::Pddl;
using symbolic::Planner;
using symbolic::Predicate;
using symbolic::Proposition;
using symbolic::State;
using symbolic::StateIndex;
using Node = Planner::Node;

const char kHelper[] = R"py(
import copy, gc, itertools, pickle
import pysymbolic as s

E = {'s': s, 'pickle': pickle, 'copy': copy, 'it': itertools, 'H': []}


def canon(v):
    t = type(v)
    if v is None or t in (bool, int, float):
        return repr(v)
    if t is str:
        return '"' + v + '"'
    if t in (set, frozenset):
        return '{' + '|'.join(sorted(map(canon, v))) + '}'
    if t in (list, tuple):
        return '[' + '|'.join(map(canon, v)) + ']'
    if t is dict:
        return '{' + '|'.join(sorted(canon(k) + ':' + canon(x) for k, x in v.items())) + '}'
    text = repr(v)
    return '<' + t.__name__ + ('' if ' object at 0x' in text else ' ' + text) + '>'


def failed(e):
    return '!' + type(e).__name__ + ': ' + str(e)


def ev(expr):
    try:
        return canon(eval(expr, E))
    except Exception as e:
        return failed(e)


def do(stmt):
    try:
        exec(stmt, E)
        return ''
    except Exception as e:
        return failed(e)


def safe(f):
    try:
        return f()
    except Exception as e:
        return failed(e)


# Text of everything a value shows.
def observe(v):
    t = type(v).__name__
    if t in ('list', 'tuple'):
        return '[' + '|'.join(map(observe, v)) + ']'
    if t == 'dict':
        return '{' + '|'.join(sorted(canon(k) + ':' + observe(x) for k, x in v.items())) + '}'
    out = canon(v)
    if t == 'Object':
        out += v.name + ' ' + observe(v.type)
    elif t == 'ObjectType':
        out += v.name + canon(v.is_subtype('object')) + canon(v.is_subtype('t1'))
    elif t in ('Action', 'Predicate'):
        out += v.name + observe(v.parameters) + observe(v.parameter_generator)
        out += canon([safe(lambda: v.to_string([o.name for o in args]))
                      for args in itertools.islice(v.parameter_generator, 2)])
    elif t == 'Axiom':
        out += canon(v.is_consistent(set()))
    elif t == 'ParameterGenerator':
        args = list(itertools.islice(v, 5))
        out += canon(len(v)) + observe(args)
        out += canon([v.index([o.name for o in a]) for a in args])
        out += observe([v[i] for i in range(min(len(v), 3))])
    elif t == 'StateIndex':
        n = len(v)
        out = canon(n) + canon([v.get_proposition(i) for i in range(-min(n, 3), min(n, 3))])
        out += canon(v.get_state(v.get_indexed_state(set())))
    elif t == 'PlannerNode':
        out += canon([v.action, v.state, v.depth]) + canon([[n.action, n.state] for n in itertools.islice(v, 4)])
    elif t == 'Planner':
        out = observe(v.root)
    elif t == 'BreadthFirstSearch':
        out = canon(list(itertools.islice(v, 3)))
    elif t == 'DisjunctiveFormula':
        out += canon(v.conjunctions) + observe(v.conjunctions)
    elif t == 'PartialState':
        out += canon(v.pos) + canon(v.neg)
    return out


H = []  # held: [kind, value, text]


def hold(expr):
    try:
        v = eval(expr, E)
        H.append([type(v).__name__, v, observe(v)])
        if len(H) > 12:
            del H[len(H) * 7 % 12]
        return ''
    except Exception as e:
        return failed(e)


def check_held(problem_changed):
    for h in H:
        text = safe(lambda: observe(h[1]))
        if text != h[2]:
            if problem_changed and h[0] not in ('Object', 'ObjectType'):
                h[2] = text
                continue
            return 'a held ' + h[0] + ' showed\n' + h[2] + '\nwhen made, and now shows\n' + text
    return ''


def drop_held():
    H.clear()
    gc.collect()
    return ''


# Keeps nothing but one value of a problem of its own.
def alone(load, setup, expr):
    env = {'s': s, 'it': itertools}

    def make():
        env['q'] = eval(load, E)
        if setup:
            exec(setup, env)
        v = eval(expr, env)
        text = observe(v)
        for name in list(env):
            if name not in ('s', 'it', '__builtins__'):
                del env[name]
        return v, text

    try:
        v, text = make()
    except Exception as e:
        return failed(e)
    gc.collect()
    churn = [bytes(n) for n in range(16, 600, 8)]
    now = safe(lambda: observe(v))
    del churn
    if now != text:
        return 'showed\n' + text + '\nwhen made, and now shows\n' + now
    return ''


# An iteration whose source nobody else holds, against one whose source is held.
def iterate_alone(load, setup, expr, n):
    def start():
        env = {'s': s, 'it': itertools}
        env['q'] = eval(load, E)
        if setup:
            exec(setup, env)
        return iter(eval(expr, env)), env

    try:
        held, env = start()
        want = observe([x for x in itertools.islice(held, n)])
        lone, env2 = start()
    except Exception as e:
        return failed(e)
    env2.clear()
    del env2
    gc.collect()
    got = safe(lambda: observe([x for x in itertools.islice(lone, n)]))
    if got != want:
        return 'gives\n' + got + '\ninstead of\n' + want
    return ''


def clear():
    H.clear()
    for name in list(E):
        if name not in ('s', 'pickle', 'copy', 'it', 'P', '__builtins__'):
            del E[name]
    gc.collect()
    return ''
)py";

PyObject* g_helper = nullptr;

[[noreturn]] void Die(const char* what) {
  fprintf(stderr, "harness: %s\n", what);
  if (PyErr_Occurred()) PyErr_Print();
  abort();
}

void StartPython() {
  if (g_helper != nullptr) return;
  PyPreConfig pre;
  PyPreConfig_InitIsolatedConfig(&pre);
  pre.allocator = PYMEM_ALLOCATOR_MALLOC;  // so that the address sanitizer sees Python's objects
  pre.utf8_mode = 1;
  if (PyStatus_Exception(Py_PreInitialize(&pre))) Die("cannot initialise Python");
  if (PyImport_AppendInittab("pysymbolic", &PyInit_pysymbolic) != 0) Die("inittab");
  PyConfig config;
  PyConfig_InitIsolatedConfig(&config);
  config.use_hash_seed = 1;
  config.hash_seed = 0;
  config.write_bytecode = 0;
  config.install_signal_handlers = 0;
  config.site_import = 0;
  PyConfig_SetString(&config, &config.program_name, L"/usr/bin/python3");
  const PyStatus status = Py_InitializeFromConfig(&config);
  PyConfig_Clear(&config);
  if (PyStatus_Exception(status)) Die(status.err_msg);
  PyObject* module = PyImport_AddModule("verif_helper");
  PyObject* dict = PyModule_GetDict(module);
  PyDict_SetItemString(dict, "__builtins__", PyEval_GetBuiltins());
  PyObject* r = PyRun_String(kHelper, Py_file_input, dict, dict);
  if (r == nullptr) Die("helper");
  Py_DECREF(r);
  g_helper = module;
}

// Calls helper function `f` with strings (and ints given as text).
std::string Helper(const char* f, const std::vector<std::string>& args) {
  PyObject* tuple = PyTuple_New(static_cast<Py_ssize_t>(args.size()));
  for (size_t i = 0; i < args.size(); i++) {
    PyTuple_SET_ITEM(tuple, static_cast<Py_ssize_t>(i), PyUnicode_FromStringAndSize(args[i].data(), static_cast<Py_ssize_t>(args[i].size())));
  }
  PyObject* fn = PyObject_GetAttrString(g_helper, f);
  if (fn == nullptr) Die(f);
  PyObject* r = PyObject_CallObject(fn, tuple);
  Py_DECREF(fn);
  Py_DECREF(tuple);
  if (r == nullptr) {
    PyObject *type, *value, *tb;
    PyErr_Fetch(&type, &value, &tb);
    PyErr_NormalizeException(&type, &value, &tb);
    PyObject* str = value ? PyObject_Str(value) : nullptr;
    std::string text = "!!";
    if (str != nullptr) text += PyUnicode_AsUTF8(str);
    Py_XDECREF(str);
    Py_XDECREF(type);
    Py_XDECREF(value);
    Py_XDECREF(tb);
    PyErr_Clear();
    return text;
  }
  Py_ssize_t n = 0;
  const char* text = PyUnicode_AsUTF8AndSize(r, &n);
  std::string out = text ? std::string(text, static_cast<size_t>(n)) : "!!no text";
  PyErr_Clear();
  Py_DECREF(r);
  return out;
}

// Python literals --------------------------------------------------------------------

std::string Lit(const std::string& s) {
  std::string o = "'";
  for (const char ch : s) {
    const auto u = static_cast<unsigned char>(ch);
    if (ch == '\'' || ch == '\\') {
      o += '\\';
      o += ch;
    } else if (u < 0x20 || u >= 0x7f) {
      char buf[8];
      snprintf(buf, sizeof(buf), "\\x%02x", u);
      o += buf;
    } else {
      o += ch;
    }
  }
  return o + "'";
}
std::string Lit(const ref::State& s) {
  if (s.empty()) return "set()";
  std::string o = "{";
  for (const std::string& f : s) o += Lit(f) + ",";
  return o + "}";
}
std::string Lit(const std::vector<std::string>& s) {
  std::string o = "[";
  for (const std::string& f : s) o += Lit(f) + ",";
  return o + "]";
}

// The library's side, in the same canonical text as the helper's -----------------------

std::string C(const std::string& s) { return "\"" + s + "\""; }
std::string C(const char* s) { return C(std::string(s)); }
std::string C(bool b) { return b ? "True" : "False"; }
std::string C(int n) { return std::to_string(n); }
std::string C(size_t n) { return std::to_string(n); }
std::string C(const Object& o) { return "<Object " + o.name() + ">"; }
std::string C(const Object::Type& o) { return "<ObjectType " + o.name() + ">"; }
std::string C(const Action& a) { return "<Action " + a.to_string() + ">"; }
std::string C(const Predicate& a) { return "<Predicate " + a.to_string() + ">"; }
template <typename T>
std::string Printed(const char* kind, const T& t) {
  std::stringstream ss;
  ss << t;
  return std::string("<") + kind + " " + ss.str() + ">";
}
std::string C(const std::shared_ptr<Axiom>& a) { return Printed("Axiom", *a); }
std::string C(const DerivedPredicate& a) { return Printed("DerivedPredicate", a); }
std::string C(const Formula& f) { return "<Formula " + f.to_string() + ">"; }
std::string C(const Node& n) { return Printed("PlannerNode", n); }
std::string C(const DisjunctiveFormula& d) { return Printed("DisjunctiveFormula", d); }
std::string C(const PartialState& p) { return Printed("PartialState", p); }

std::string Join(const char* open, const std::vector<std::string>& v, const char* close) {
  std::string o = open, sep;
  for (const std::string& s : v) {
    o += sep + s;
    sep = "|";
  }
  return o + close;
}
template <typename T>
std::string C(const std::vector<T>& v) {
  std::vector<std::string> out;
  for (size_t i = 0; i < v.size(); i++) out.push_back(C(v[i]));
  return Join("[", out, "]");
}
template <typename T>
std::string CSet(const T& v) {
  std::vector<std::string> out;
  for (const auto& x : v) out.push_back(C(std::string(x)));
  std::sort(out.begin(), out.end());
  out.erase(std::unique(out.begin(), out.end()), out.end());
  return Join("{", out, "}");
}
std::string C(const std::set<std::string>& v) { return CSet(v); }
std::string C(const std::unordered_set<std::string>& v) { return CSet(v); }
std::string C(const State& s) {
  std::vector<std::string> facts;
  for (const Proposition& p : s) facts.push_back(p.to_string());
  return CSet(facts);
}
template <typename K, typename V>
std::string C(const std::unordered_map<K, V>& m) {
  std::vector<std::string> out;
  for (const auto& kv : m) out.push_back(C(kv.first) + ":" + C(kv.second));
  std::sort(out.begin(), out.end());
  return Join("{", out, "}");
}
template <typename A, typename B>
std::string C(const std::pair<A, B>& p) {
  return "[" + C(p.first) + "|" + C(p.second) + "]";
}
template <typename T>
std::string C(const std::optional<T>& o) {
  return o ? C(*o) : "None";
}

// What f's result or exception looks like from Python.
template <typename F>
std::string Expect(const F& f) {
  try {
    return f();
  } catch (const std::out_of_range& e) {
    return std::string("!IndexError: ") + e.what();
  } catch (const std::overflow_error& e) {
    return std::string("!OverflowError: ") + e.what();
  } catch (const std::range_error& e) {
    return std::string("!ValueError: ") + e.what();
  } catch (const std::invalid_argument& e) {
    return std::string("!ValueError: ") + e.what();
  } catch (const std::length_error& e) {
    return std::string("!ValueError: ") + e.what();
  } catch (const std::domain_error& e) {
    return std::string("!ValueError: ") + e.what();
  } catch (const std::exception& e) {
    return std::string("!RuntimeError: ") + e.what();
  }
}

class Session {
 public:
  Session(Ctx& c, gen::Dom d, gen::Gen* g) : c(c), r(c.rng), g_(g), d(std::move(d)) {}
  ~Session() { Helper("clear", {}); }

  void Run() {
    Open();
    Properties();
    const int steps = c.thorough ? r.Range(60, 160) : r.Range(40, 80);
    for (int i = 0; i < steps; i++) Step();
    Held(false);
    // The problem goes; what is held stays.
    if (r.Chance(60)) {
      Do("del p");
      Held(false);
    }
    Helper("drop_held", {});
  }

 private:
  Ctx& c;
  Rng& r;
  gen::Gen* g_;
  gen::Dom d;
  std::unique_ptr<Pddl> pddl;
  std::string load_;
  bool apply_axioms_ = true;
  bool edited_ = false;
  int added_ = 0;

  void Open() {
    WriteFile(DomainPath(c), d.domain);
    std::string problem = d.problem;
    if (r.Chance(40)) {
      problem = c.tmpdir + "/problem.pddl";
      WriteFile(problem, d.problem);
    }
    apply_axioms_ = !r.Chance(20);
    const std::string args = Lit(DomainPath(c)) + ", " + Lit(problem);
    load_ = apply_axioms_ && r.Chance(60) ? "s.Pddl(" + args + ")"
            : r.Chance(50)               ? "s.Pddl(" + args + (apply_axioms_ ? ", True)" : ", False)")
                                         : "s.Pddl(problem=" + Lit(problem) + ", apply_axioms=" +
                                 (apply_axioms_ ? "True" : "False") + ", domain=" + Lit(DomainPath(c)) + ")";
    pddl = std::make_unique<Pddl>(DomainPath(c), problem, apply_axioms_);
    Do("p = " + load_);
  }

  // Runs a statement that must succeed.
  void Do(const std::string& stmt) {
    const std::string e = Helper("do", {stmt});
    if (!c.Check(e.empty(), "statement", stmt + "\nraises " + e)) throw CaseEnd();
  }

  // Python expression against the library.
  template <typename F>
  bool Same(const std::string& key, const std::string& expr, const F& f) {
    const std::string want = Expect(f);
    const std::string got = Helper("ev", {expr});
    c.Count("calls compared");
    if (want[0] == '!') c.Count("calls that raise");
    c.Seen(key + want);
    return c.Check(got == want, key, expr + "\ngives " + got + "\nlibrary: " + want);
  }

  void Held(bool changed) {
    const std::string e = Helper(changed ? "check_held_changed" : "check_held_same", {});
    c.Count("observations of held values");
    if (!c.Check(e.empty(), "held", e)) throw CaseEnd();
  }

  void Hold(const std::string& expr) {
    const std::string e = Helper("hold", {expr});
    c.Count("values held");
    if (Contradictory(expr, e)) return;
    c.Check(e.empty(), "hold", expr + "\nraises " + e);
  }

  // Arguments -------------------------------------------------------------------

  ref::State SomeState() { return g_->RandomState(d.m, r.Pick(std::vector<int>{0, 20, 50, 100}), r.Chance(30)); }
  ref::State Reachable() {
    if (r.Chance(50)) return Facts(pddl->initial_state());
    return SomeState();
  }
  std::pair<ref::State, ref::State> SomePartial() {
    std::pair<ref::State, ref::State> out;
    for (const std::string& f : d.m.Atoms()) {
      const size_t w = r.Below(4);
      if (w == 0) out.first.insert(f);
      if (w == 1) out.second.insert(f);
    }
    return out;
  }
  const ref::Op* SomeOp() { return d.m.actions.empty() ? nullptr : &r.Pick(d.m.actions); }
  // A call, right (unless there is none) or wrong.
  std::string Call(bool right) {
    const ref::Op* op = SomeOp();
    if (op != nullptr && (right || r.Chance(80))) {
      const auto tuples = d.m.Tuples(op->params);
      if (!tuples.empty()) return ref::Fact(op->name, r.Pick(tuples));
    }
    switch (r.Below(5)) {
      case 0: return "nope()";
      case 1: return op ? op->name + "(nope)" : "nope";
      case 2: return op ? op->name + "(a, b, c, d, e)" : "nope(";
      case 3: return "";
      default: return op ? op->name : "(";
    }
  }
  std::string BadFact() {
    return r.Pick(std::vector<std::string>{"nope(a)", "nope", "", "p(", "p(nope)", "p(a, b, c, d, e)"});
  }
  ref::State MaybeBad(ref::State s) {
    if (r.Chance(4)) s.insert(BadFact());
    return s;
  }
  static std::unordered_set<std::string> U(const ref::State& s) { return {s.begin(), s.end()}; }
  State St(const ref::State& s) { return State(*pddl, U(s)); }
  State StSet(const ref::State& s) {
    State out;
    for (const std::string& f : s) out.emplace(*pddl, f);
    return out;
  }
  PartialState Pt(const std::pair<ref::State, ref::State>& p) { return PartialState(*pddl, U(p.first), U(p.second)); }

  void Step() {
    switch (r.Below(26)) {
      case 0: Properties(); break;
      case 1: case 2: case 3: Transition(); break;
      case 4: case 5: Closing(); break;
      case 6: case 7: Verdicts(); break;
      case 8: Listings(); break;
      case 9: Objects(); break;
      case 10: Actions(); break;
      case 11: Predicates(); break;
      case 12: Axioms(); break;
      case 13: Generators(); break;
      case 14: Index(); break;
      case 15: case 16: Nodes(); break;
      case 17: Search(); break;
      case 18: case 19: Normal(); break;
      case 20: Change(); break;
      case 21: Copies(); break;
      case 22: Alone(); break;
      case 23: IterateAlone(); break;
      case 24: Wrong(); break;
      default: HoldSome(); break;
    }
  }

  void Properties() {
    Same("name", "p.name", [&] { return C(pddl->name()); });
    Same("initial_state", "p.initial_state", [&] { return C(pddl->initial_state()); });
    Same("object_map", "p.object_map", [&] { return C(pddl->object_map()); });
    Same("constants", "p.constants", [&] { return C(pddl->constants()); });
    Same("objects", "p.objects", [&] { return C(pddl->objects()); });
    Same("actions", "p.actions", [&] { return C(pddl->actions()); });
    Same("predicates", "p.predicates", [&] { return C(pddl->predicates()); });
    Same("axioms", "p.axioms", [&] { return C(pddl->axioms()); });
    Same("derived_predicates", "p.derived_predicates", [&] { return C(pddl->derived_predicates()); });
    Same("goal", "p.goal", [&] { return C(pddl->goal()); });
    Same("domain_pddl", "p.domain_pddl", [&] { return C(pddl->domain_pddl()); });
    Same("problem_pddl", "p.problem_pddl", [&] { return C(pddl->problem_pddl()); });
    Same("repr", "repr(p)", [&] { return C("symbolic.Pddl('" + pddl->domain_pddl() + "', '" + pddl->problem_pddl() + "')"); });
    if (!edited_) {
      std::stringstream out;
      const bool verbose = r.Chance(30);
      std::streambuf* old = std::cout.rdbuf(out.rdbuf());
      Same("is_valid", verbose ? "p.is_valid(verbose=True)" : "p.is_valid()", [&] { return C(pddl->IsValid(verbose)); });
      std::cout.rdbuf(old);
    }
    c.Count("properties compared");
  }

  void Transition() {
    const ref::State s = MaybeBad(Reachable());
    if (r.Chance(50)) {
      const std::string call = Call(false);
      const std::string expr = r.Chance(70) ? "p.next_state(" + Lit(s) + ", " + Lit(call) + ")"
                                            : "p.next_state(action=" + Lit(call) + ", state=" + Lit(s) + ")";
      Same("next_state", expr, [&] { return C(pddl->NextState(St(s), call).Stringify()); });
    } else {
      std::vector<std::string> calls;
      for (int n = r.Range(0, 3); n > 0; n--) calls.push_back(Call(r.Chance(80)));
      const std::string expr = r.Chance(70) ? "p.apply_actions(" + Lit(s) + ", " + Lit(calls) + ")"
                                            : "p.apply_actions(action=" + Lit(calls) + ", state=" + Lit(s) + ")";
      Same("apply_actions", expr, [&] { return C(pddl->ApplyActions(St(s), calls).Stringify()); });
    }
    c.Count("transitions");
  }

  void Closing() {
    const ref::State s = MaybeBad(SomeState());
    const auto p = SomePartial();
    Same("derived_state", "p.derived_state(" + Lit(s) + ")", [&] { return C(pddl->DerivedState(St(s)).Stringify()); });
    Same("is_valid_state", "p.is_valid_state(" + Lit(s) + ")", [&] { return C(pddl->IsValidState(St(s))); });
    Same("is_valid_state", "p.is_valid_state(" + Lit(p.first) + ", " + Lit(p.second) + ")",
         [&] { return C(pddl->IsValidState(Pt(p))); });
    Same("is_valid_state", "p.is_valid_state(state_neg=" + Lit(p.second) + ", state_pos=" + Lit(p.first) + ")",
         [&] { return C(pddl->IsValidState(Pt(p))); });
    Same("consistent_state", "p.consistent_state(" + Lit(s) + ")", [&] { return C(pddl->ConsistentState(St(s)).Stringify()); });
    Same("consistent_state", "p.consistent_state(" + Lit(p.first) + ", " + Lit(p.second) + ")",
         [&] { return C(pddl->ConsistentState(Pt(p)).Stringify()); });
    c.Count("closings");
  }

  void Verdicts() {
    const ref::State s = MaybeBad(Reachable());
    const std::string call = Call(false);
    Same("is_valid_action", "p.is_valid_action(" + Lit(s) + ", " + Lit(call) + ")",
         [&] { return C(pddl->IsValidAction(St(s), call)); });
    const std::string good = Call(true);
    ref::State next = s;
    if (Expect([&] { return C(pddl->NextState(St(s), good)); })[0] != '!') next = Facts(pddl->NextState(St(s), good));
    if (r.Chance(30)) next = SomeState();
    Same("is_valid_tuple", "p.is_valid_tuple(" + Lit(s) + ", " + Lit(good) + ", " + Lit(next) + ")",
         [&] { return C(pddl->IsValidTuple(s, good, next)); });
    Same("is_goal_satisfied", "p.is_goal_satisfied(" + Lit(s) + ")", [&] { return C(pddl->IsGoalSatisfied(s)); });
    std::vector<std::string> calls;
    ref::State at = Facts(pddl->initial_state());
    for (int n = r.Range(0, 3); n > 0; n--) {
      const auto valid = Expect([&] { return C(pddl->ListValidActions(at)); });
      std::vector<std::string> list;
      if (valid[0] != '!') list = pddl->ListValidActions(at);
      calls.push_back(list.empty() || r.Chance(15) ? Call(true) : r.Pick(list));
      if (Expect([&] { return C(pddl->NextState(St(at), calls.back())); })[0] == '!') break;
      at = Facts(pddl->NextState(St(at), calls.back()));
    }
    Same("is_valid_plan", "p.is_valid_plan(" + Lit(calls) + ")", [&] { return C(pddl->IsValidPlan(calls)); });
    c.Count("verdicts");
  }

  void Listings() {
    const ref::State s = MaybeBad(Reachable());
    Same("list_valid_actions", "p.list_valid_actions(" + Lit(s) + ")", [&] { return C(pddl->ListValidActions(s)); });
    const ref::Op* op = SomeOp();
    const std::string name = op && !r.Chance(5) ? op->name : "nope";
    Same("list_valid_arguments", "p.list_valid_arguments(" + Lit(s) + ", " + Lit(name) + ")",
         [&] { return C(pddl->ListValidArguments(s, name)); });
    c.Count("listings");
  }

  void Objects() {
    const auto& objects = pddl->objects();
    for (size_t i = 0; i < objects.size(); i++) {
      const std::string o = "p.objects[" + std::to_string(i) + "]";
      const Object& obj = objects[i];
      Same("object", "[" + o + ".name, " + o + ".type, " + o + ".type.name, repr(" + o + "), repr(" + o + ".type)]", [&] {
        return "[" + C(obj.name()) + "|" + C(obj.type()) + "|" + C(obj.type().name()) + "|" + C(obj.name()) + "|" + C(obj.type().name()) + "]";
      });
      for (const std::string& t : d.m.type_order) {
        Same("is_subtype", o + ".type.is_subtype(" + Lit(t) + ")", [&] { return C(obj.type().IsSubtype(t)); });
      }
      Same("is_subtype", o + ".type.is_subtype('object')", [&] { return C(obj.type().IsSubtype(std::string("object"))); });
    }
    c.Count("objects compared", objects.size());
  }

  void Actions() {
    const auto& actions = pddl->actions();
    for (size_t i = 0; i < actions.size(); i++) {
      const std::string a = "p.actions[" + std::to_string(i) + "]";
      const Action& act = actions[i];
      Same("action", "[" + a + ".name, " + a + ".parameters, repr(" + a + "), len(" + a + ".parameter_generator)]", [&] {
        return "[" + C(act.name()) + "|" + C(act.parameters()) + "|" + C(act.to_string()) + "|" + C(act.parameter_generator().size()) + "]";
      });
      const auto args = Arguments(act.parameters());
      Same("action to_string", a + ".to_string(" + Lit(args) + ")",
           [&] { return C(act.to_string(Object::ParseArguments(*pddl, args))); });
      if (i < d.m.actions.size()) {
        const std::string call = Call(false);
        Same("parse", r.Chance(70) ? "s.Action.parse(p, " + Lit(call) + ")" : "s.Action.parse(action_call=" + Lit(call) + ", pddl=p)",
             [&] { return C(Action::Parse(*pddl, call)); });
      }
      c.Count("actions compared");
    }
  }

  // Names of arguments for the parameters, sometimes wrong.
  ref::Args Arguments(const std::vector<Object>& params) {
    ref::Args args;
    for (const Object& p : params) {
      const auto os = d.m.OfType(p.type().name());
      args.push_back(os.empty() || r.Chance(3) ? std::string("nope") : r.Pick(os));
    }
    if (r.Chance(4)) args.push_back("a");
    if (r.Chance(4) && !args.empty()) args.pop_back();
    return args;
  }

  void Predicates() {
    const auto& preds = pddl->predicates();
    for (size_t i = 0; i < preds.size(); i++) {
      const std::string a = "p.predicates[" + std::to_string(i) + "]";
      const Predicate& pred = preds[i];
      Same("predicate", "[" + a + ".name, " + a + ".parameters, repr(" + a + "), len(" + a + ".parameter_generator)]", [&] {
        return "[" + C(pred.name()) + "|" + C(pred.parameters()) + "|" + C(pred.to_string()) + "|" + C(pred.parameter_generator().size()) + "]";
      });
      const auto args = Arguments(pred.parameters());
      Same("predicate to_string", a + ".to_string(" + Lit(args) + ")",
           [&] { return C(pred.to_string(Object::ParseArguments(*pddl, args))); });
      c.Count("predicates compared");
    }
  }

  // Formulas of the model are normalised only when they stay small.
  bool Small(const ref::Sx& f) {
    double worst = 0;
    Size(d.m, f, &worst);
    return worst <= 60;
  }
  bool SmallEffect(const ref::Sx& f) {
    double worst = 0;
    EffectSize(d.m, f, &worst);
    return worst <= 60;
  }

  void Axioms() {
    const auto& axioms = pddl->axioms();
    for (size_t i = 0; i < axioms.size(); i++) {
      const std::string a = "p.axioms[" + std::to_string(i) + "]";
      const ref::State s = MaybeBad(SomeState());
      Same("is_consistent", a + (r.Chance(70) ? ".is_consistent(" : ".is_consistent(state=") + Lit(s) + ")",
           [&] { return C(axioms[i]->IsConsistent(StSet(s))); });
      if (Small(d.m.goal)) {
        const auto dnf = DisjunctiveFormula::NormalizeGoal(*pddl);
        if (dnf) {
          for (size_t j = 0; j < std::min<size_t>(dnf->conjunctions.size(), 3); j++) {
            Same("is_consistent partial",
                 a + ".is_consistent(s.DisjunctiveFormula.normalize_goal(p).conjunctions[" + std::to_string(j) + "])",
                 [&] { return C(axioms[i]->IsConsistent(dnf->conjunctions[j])); });
            c.Count("axioms judged on partial states");
          }
        }
      }
      c.Count("axioms compared");
    }
  }

  void Generators() {
    std::string e;
    const ParameterGenerator* gen = nullptr;
    if (r.Chance(50) && !pddl->actions().empty()) {
      const size_t i = r.Below(pddl->actions().size());
      e = "p.actions[" + std::to_string(i) + "].parameter_generator";
      gen = &pddl->actions()[i].parameter_generator();
    } else {
      const size_t i = r.Below(pddl->predicates().size());
      e = "p.predicates[" + std::to_string(i) + "].parameter_generator";
      gen = &pddl->predicates()[i].parameter_generator();
    }
    std::vector<std::string> all;
    for (const std::vector<Object>& args : *gen) all.push_back(C(args));
    Same("generator len", "len(" + e + ")", [&] { return C(gen->size()); });
    Same("generator list", "list(" + e + ")", [&] { return Join("[", all, "]"); });
    Same("generator list", "[x for x in " + e + "]", [&] { return Join("[", all, "]"); });
    for (int n = 0; n < 3; n++) {
      const int size = static_cast<int>(gen->size());
      const int i = r.Range(-size - 1, size + 1);
      Same("generator item", e + "[" + std::to_string(i) + "]", [&] { return C(gen->at(i)); });
      if (i < -size || i >= size) continue;
      const auto args = Names(gen->at(i));
      Same("generator index", e + ".index(" + Lit(args) + ")", [&] { return C(i < 0 ? i + size : i); });
    }
    std::vector<std::string> any;
    for (size_t n = r.Below(4); n > 0; n--) any.push_back(r.Chance(95) && !d.m.objects().empty() ? r.Pick(d.m.objects()).first : "nope");
    Same("generator index", e + ".index(" + Lit(any) + ")",
         [&] { return C(static_cast<size_t>(gen->find(Object::ParseArguments(*pddl, any)))); });
    c.Count("generators compared");
  }

  void Index() {

    const StateIndex& index = pddl->state_index();
    const int n = static_cast<int>(index.size());
    Same("index len", "len(p.state_index)", [&] { return C(index.size()); });
    for (int k = 0; k < 4; k++) {
      const int i = r.Range(-n - 2, n + 1);
      const std::string expr = "p.state_index.get_proposition(" + std::to_string(i) + ")";
      if (i < -n || i >= n) {
        const std::string got = Helper("ev", {expr});
        c.Check(got.compare(0, 12, "!IndexError:") == 0, "index range", expr + "\nwith size " + std::to_string(n) + " gives " + got);
        continue;
      }
      Same("get_proposition", expr, [&] { return C(index.GetProposition(i < 0 ? i + n : i).to_string()); });
    }
    const auto atoms = d.m.Atoms();
    const std::string fact = atoms.empty() || r.Chance(5) ? BadFact() : r.Pick(atoms);
    Same("get_proposition_index", "p.state_index.get_proposition_index(" + Lit(fact) + ")",
         [&] { return C(index.GetPropositionIndex(Proposition(*pddl, fact))); });
    const ref::State s = MaybeBad(SomeState());
    std::string bits;
    const auto bit = [](long b) { return std::to_string(b); };
    const std::string text = Expect([&] {
      const auto v = index.GetIndexedState(StSet(s));
      std::vector<std::string> out;
      for (Eigen::Index i = 0; i < v.size(); i++) out.push_back(bit(v[i]));
      return Join("[", out, "]");
    });
    Same("get_indexed_state", "list(map(int, p.state_index.get_indexed_state(" + Lit(s) + ")))", [&] { return text; });
    StateIndex::IndexedState vec(n);
    std::string lit = "[";
    for (int i = 0; i < n; i++) {
      vec[i] = r.Chance(40) ? 1 : 0;
      lit += std::to_string(static_cast<int>(vec[i])) + ",";
    }
    Same("get_state", "p.state_index.get_state(" + lit + "])", [&] { return C(symbolic::Stringify(index.GetState(vec))); });
    if (r.Chance(30)) {
      const std::string wrong = "p.state_index.get_state(" + (n > 0 && r.Chance(50) ? std::string("[0] * ") + std::to_string(n - 1) : "[1] * " + std::to_string(n + r.Range(1, 5))) + ")";
      const std::string got = Helper("ev", {wrong});
      c.Check(got.compare(0, 12, "!ValueError:") == 0, "wrong vector", wrong + "\nwith size " + std::to_string(n) + " gives " + got);
    }
    c.Count("state indices compared");
  }

  void Nodes() {
    std::string e = "s.Planner(p).root";
    std::unique_ptr<Planner> planner;
    if (r.Chance(50)) {
      const ref::State s = MaybeBad(Reachable());
      e = r.Chance(70) ? "s.Planner(p, " + Lit(s) + ").root" : "s.Planner(state=" + Lit(s) + ", pddl=p).root";
      const std::string made = Expect([&] {
        planner = std::make_unique<Planner>(*pddl, StSet(s));
        return std::string("ok");
      });
      if (made[0] == '!') {
        Same("planner", e, [&] { return made; });
        return;
      }
    } else {
      planner = std::make_unique<Planner>(*pddl);
    }
    Node node = planner->root();
    for (int depth = r.Range(0, 3); depth >= 0; depth--) {
      const std::string n = "[n.action, n.state, n.depth, n]";
      Same("node", "[" + n + " for n in [" + e + "]][0]", [&] { return NodeText(node); });
      std::vector<Node> kids;
      for (const Node& kid : node) kids.push_back(kid);
      std::vector<std::string> texts;
      for (const Node& kid : kids) texts.push_back(NodeText(kid));
      Same("children", "[" + n + " for n in " + e + "]", [&] { return Join("[", texts, "]"); });
      Same("children list", "[" + n + " for n in list(" + e + ")]", [&] { return Join("[", texts, "]"); });
      c.Count("nodes expanded");
      if (kids.empty()) break;
      const size_t i = r.Below(kids.size());
      node = kids[i];
      e = r.Chance(50) ? "list(" + e + ")[" + std::to_string(i) + "]" : "next(it.islice(" + e + ", " + std::to_string(i) + ", None))";
      if (r.Chance(30)) e = "s.PlannerNode(" + e + ")";
    }
  }
  static std::string NodeText(const Node& n) {
    return "[" + C(n.action()) + "|" + C(n.state()) + "|" + C(n.depth()) + "|" + C(n) + "]";
  }

  void Search() {
    const Planner planner(*pddl);
    const size_t depth = r.Below(4);
    // Keep the search small.
    size_t width = 0;
    for (const ref::Op& op : d.m.actions) width += d.m.Tuples(op.params).size();
    if (width > 30 || (width > 12 && depth > 2)) return;
    std::vector<std::string> plans, first;
    const symbolic::BreadthFirstSearch<Node> bfs(planner.root(), depth);
    for (const std::vector<Node>& plan : bfs) {
      plans.push_back(C(plan));
      if (plans.size() >= 150) break;
    }
    const std::string n = std::to_string(depth);
    const std::string args = r.Pick(std::vector<std::string>{
        n, n + ", False", n + ", verbose=False", n + ", timeout=1000", n + ", False, 1000.5", "max_depth=" + n,
        "timeout=0.0, max_depth=" + n});
    Do("b = s.BreadthFirstSearch(s.Planner(p).root, " + args + ")");
    Same("search", "list(it.islice(b, 150))", [&] { return Join("[", plans, "]"); });
    Same("search again", "[x for x in it.islice(b, 150)]", [&] { return Join("[", plans, "]"); });
    // By hand, then the rest.
    size_t taken = 0;
    if (!plans.empty()) {
      const size_t k = 1 + r.Below(std::min<size_t>(plans.size(), 3));
      taken = k;
      for (size_t i = 0; i < k; i++) Same("next", "next(b)", [&] { return plans[i]; });
      const std::vector<std::string> rest(plans.begin() + static_cast<long>(k), plans.end());
      Same("search rest", "list(it.islice(b, " + std::to_string(150 - k) + "))", [&] { return Join("[", rest, "]"); });
    }
    if (plans.size() < 150) {
      // To the end by hand, where it stays.
      Same("search end", "[len(list(iter(lambda: next(b, None), None))), next(b, None), next(b, None), list(b)]", [&] {
        const size_t k = plans.size() - taken;
        return "[" + std::to_string(k) + "|None|None|[]]";
      });
      Do("b = s.BreadthFirstSearch(s.Planner(p).root, " + args + ")");
      Same("search end", "[sum(1 for _ in b) * 0, next(it.islice(b, 200, None), None)]", [&] { return std::string("[0|None]"); });
    }
    Do("del b");
    c.Count("searches");
    c.Count("plans", plans.size());
  }

  void Normal() {
    const bool ax = r.Chance(50);
    const std::string kw = ax ? (r.Chance(50) ? ", True" : ", apply_axioms=True") : (r.Chance(50) ? "" : ", False");
    if (r.Chance(30) && Small(d.m.goal)) {
      Same("normalize_goal", "s.DisjunctiveFormula.normalize_goal(p" + kw + ")",
           [&] { return C(DisjunctiveFormula::NormalizeGoal(*pddl, ax)); });
      Same("conjunctions", "getattr(s.DisjunctiveFormula.normalize_goal(p" + kw + "), 'conjunctions', None)", [&] {
        const auto dnf = DisjunctiveFormula::NormalizeGoal(*pddl, ax);
        return dnf ? C(dnf->conjunctions) : "None";
      });
      Same("conjunction parts", "[[x.pos, x.neg] for x in getattr(s.DisjunctiveFormula.normalize_goal(p" + kw + "), 'conjunctions', [])]", [&] {
        const auto dnf = DisjunctiveFormula::NormalizeGoal(*pddl, ax);
        std::vector<std::string> out;
        if (dnf) {
          for (const PartialState& conj : dnf->conjunctions) out.push_back("[" + C(conj.pos()) + "|" + C(conj.neg()) + "]");
        }
        return Join("[", out, "]");
      });
      c.Count("normal forms");
    }
    const ref::Op* op = SomeOp();
    if (op == nullptr || !Small(op->pre)) return;
    const auto tuples = d.m.Tuples(op->params);
    if (tuples.empty()) return;
    const std::string call = r.Chance(90) ? ref::Fact(op->name, r.Pick(tuples)) : Call(false);
    const ref::Op* called = d.m.Action(call.substr(0, call.find('(')));
    if (called != nullptr && (!Small(called->pre) || !SmallEffect(called->eff))) return;
    const std::string args = "(p, " + Lit(call) + kw + ")";
    Same("normalize_preconditions", "s.DisjunctiveFormula.normalize_preconditions" + args,
         [&] { return C(DisjunctiveFormula::NormalizePreconditions(*pddl, call, ax)); });
    Same("normalize_postconditions", "s.DisjunctiveFormula.normalize_postconditions" + args,
         [&] { return C(DisjunctiveFormula::NormalizePostconditions(*pddl, call, ax)); });
    Same("normalize_conditions", "s.DisjunctiveFormula.normalize_conditions" + args,
         [&] { return C(DisjunctiveFormula::NormalizeConditions(*pddl, call, ax)); });
    c.Count("normal forms");
  }

  // Edits of the problem, on both sides.
  void Change() {
    if (!r.Chance(60)) return;
    switch (r.Below(3)) {
      case 0: {
        const std::string name = "new" + std::to_string(added_++);
        const std::string type = r.Chance(90) ? g_->RandomType(d.m) : "nope";
        const std::string e = Expect([&] {
          pddl->AddObject(name, type);
          return std::string("None");
        });
        if (e[0] != '!') d.m.prob_objects.emplace_back(name, type);
        Same("add_object", r.Chance(50) ? "p.add_object(" + Lit(name) + ", " + Lit(type) + ")" : "p.add_object(type=" + Lit(type) + ", name=" + Lit(name) + ")",
             [&] { return e; });
        break;
      }
      case 1: {
        if (d.m.prob_objects.empty() || r.Chance(5)) {
          Same("remove_object", "p.remove_object('nope')", [&] {
            pddl->RemoveObject("nope");
            return std::string("None");
          });
          break;
        }
        // Only objects nothing refers to.
        std::vector<std::string> free;
        for (const auto& o : d.m.prob_objects) {
          if (o.first.compare(0, 3, "new") == 0) free.push_back(o.first);
        }
        if (free.empty()) return;
        const std::string name = r.Pick(free);
        for (const Proposition& p : pddl->initial_state()) {
          for (const Object& o : p.arguments()) {
            if (o.name() == name) return;
          }
        }
        Same("remove_object", "p.remove_object(" + Lit(name) + ")", [&] {
          pddl->RemoveObject(name);
          return std::string("None");
        });
        d.m.prob_objects.erase(std::find_if(d.m.prob_objects.begin(), d.m.prob_objects.end(),
                                            [&](const auto& o) { return o.first == name; }));
        Helper("drop_held", {});  // may mention the object
        break;
      }
      default: {
        const ref::State s = SomeState();
        pddl->set_initial_state(St(s));
        Do("p.initial_state = " + Lit(s));
        Properties();
        c.Count("initial states set");
        return;
      }
    }
    edited_ = true;
    c.Count("objects added or removed");
    Held(true);
    Properties();
  }

  // A pickled copy is a problem of its own, loaded from the same texts.
  void Copies() {
    const std::string made = r.Pick(std::vector<std::string>{
        "pickle.loads(pickle.dumps(p))", "copy.copy(p)", "copy.deepcopy(p)", "pickle.loads(pickle.dumps(p, 2))",
        "pickle.loads(pickle.dumps([p, 1]))[0]"});
    Do("q = " + made);
    const Pddl fresh(pddl->domain_pddl(), pddl->problem_pddl());
    Same("copy", "[q.name, q.objects, q.initial_state, q.actions, q.predicates, q.goal, repr(q)]", [&] {
      return "[" + C(fresh.name()) + "|" + C(fresh.objects()) + "|" + C(fresh.initial_state()) + "|" + C(fresh.actions()) +
             "|" + C(fresh.predicates()) + "|" + C(fresh.goal()) + "|" +
             C("symbolic.Pddl('" + fresh.domain_pddl() + "', '" + fresh.problem_pddl() + "')") + "]";
    });
    const ref::State s = Facts(fresh.initial_state());
    Same("copy used", "q.list_valid_actions(q.initial_state)", [&] { return C(fresh.ListValidActions(fresh.initial_state())); });
    Same("copy used", "[n.state for n in s.Planner(q).root]", [&] {
      const Planner planner(fresh);
      std::vector<std::string> out;
      for (const Node& n : planner.root()) out.push_back(C(n.state()));
      return Join("[", out, "]");
    });
    Same("copy used", "q.state_index.get_state(q.state_index.get_indexed_state(q.initial_state))", [&] {
      return C(symbolic::Stringify(fresh.state_index().GetState(fresh.state_index().GetIndexedState(fresh.initial_state()))));
    });
    Same("copy used", "q.is_goal_satisfied(q.initial_state)", [&] { return C(fresh.IsGoalSatisfied(fresh.initial_state())); });
    Do("del q");
    c.Count("copies");
  }

  std::string SomeExpr(const std::string& q, std::string* setup) {
    *setup = "";
    std::vector<std::string> v = {
        q + ".objects", q + ".object_map", q + ".constants", q + ".actions", q + ".predicates", q + ".axioms",
        q + ".derived_predicates", q + ".state_index", q + ".goal", "list(" + q + ".object_map.values())[0]",
        q + ".predicates[0]", q + ".predicates[-1].parameters", q + ".predicates[0].parameter_generator",
        "list(" + q + ".predicates[-1].parameter_generator)", "list(" + q + ".predicates[0].parameter_generator)[-1:]",
        "s.Planner(" + q + ")", "s.Planner(" + q + ").root", "s.Planner(" + q + ", " + q + ".initial_state).root",
        "list(s.Planner(" + q + ").root)", "list(s.Planner(" + q + ").root)[-1:]",
        "[list(n)[:2] for n in s.Planner(" + q + ").root][:2]", "s.PlannerNode(s.Planner(" + q + ").root)",
        "s.BreadthFirstSearch(s.Planner(" + q + ").root, 2)",
        "list(it.islice(s.BreadthFirstSearch(s.Planner(" + q + ").root, 2), 4))",
        "iter(s.BreadthFirstSearch(s.Planner(" + q + ", " + q + ".initial_state).root, 2))",
    };
    if (!d.m.objects().empty()) {
      v.push_back("(" + q + ".objects + " + q + ".constants)[0].type");
      v.push_back("(" + q + ".objects + " + q + ".constants)[-1]");
    }
    for (size_t i = 0; i < d.m.actions.size(); i++) {
      const std::string a = q + ".actions[" + std::to_string(i) + "]";
      v.push_back(a);
      v.push_back(a + ".parameters");
      v.push_back(a + ".parameter_generator");
      v.push_back("list(" + a + ".parameter_generator)");
      if (!d.m.actions[i].params.empty()) {
        v.push_back(a + ".parameters[0]");
        v.push_back(a + ".parameters[0].type");
      }
      const auto tuples = d.m.Tuples(d.m.actions[i].params);
      if (!tuples.empty()) {
        const std::string call = Lit(ref::Fact(d.m.actions[i].name, r.Pick(tuples)));
        v.push_back(a + ".parameter_generator[0]");
        v.push_back("s.Action.parse(" + q + ", " + call + ")");
        v.push_back("s.Action.parse(" + q + ", " + call + ")[0]");
        v.push_back("s.Action.parse(" + q + ", " + call + ")[1]");
        if (Small(d.m.actions[i].pre) && SmallEffect(d.m.actions[i].eff)) {
          for (int k = 0; k < 2; k++) {
            v.push_back("s.DisjunctiveFormula.normalize_conditions(" + q + ", " + call + ")");
            v.push_back("s.DisjunctiveFormula.normalize_preconditions(" + q + ", " + call + ")");
            v.push_back("s.DisjunctiveFormula.normalize_postconditions(" + q + ", " + call + ", apply_axioms=True)");
          }
        }
      }
    }
    if (!d.m.axioms.empty()) v.push_back(q + ".axioms[0]");
    if (!d.m.derived.empty()) v.push_back(q + ".derived_predicates[0]");
    if (Small(d.m.goal)) {
      v.push_back("s.DisjunctiveFormula.normalize_goal(" + q + ")");
      v.push_back("getattr(s.DisjunctiveFormula.normalize_goal(" + q + "), 'conjunctions', None)");
      v.push_back("getattr(s.DisjunctiveFormula.normalize_goal(" + q + "), 'conjunctions', [])[:1]");
    }
    return r.Pick(v);
  }

  // Contradictory effects have no normal form; Normal() compares what is raised then.
  static bool Contradictory(const std::string& expr, const std::string& e) {
    return expr.find("normalize") != std::string::npos && e.compare(0, 14, "!RuntimeError:") == 0;
  }

  void HoldSome() {
    std::string setup;
    for (int i = 0; i < 3; i++) Hold(SomeExpr("p", &setup));
    if (r.Chance(50)) Held(false);
  }

  void Alone() {
    std::string setup;
    for (int i = 0; i < 3; i++) {
      const std::string expr = SomeExpr("q", &setup);
      const std::string e = Helper("alone", {load_, setup, expr});
      if (edited_ && e[0] == '!') continue;  // the expression was for the edited problem
      if (Contradictory(expr, e)) continue;
      c.Check(e.empty(), "alone", expr + " of a problem held by nothing else\n" + e);
      c.Count("values that outlive their problem's name");
    }
  }

  void IterateAlone() {
    std::vector<std::string> v = {"s.Planner(q).root", "s.Planner(q, q.initial_state).root", "s.PlannerNode(s.Planner(q).root)",
                                  "s.BreadthFirstSearch(s.Planner(q).root, 2)", "q.predicates[0].parameter_generator",
                                  "q.predicates[-1].parameter_generator", "q.predicates[0].parameters"};
    for (size_t i = 0; i < d.m.actions.size(); i++) v.push_back("q.actions[" + std::to_string(i) + "].parameter_generator");
    const std::string expr = r.Pick(v);
    const std::string e = Helper("iterate_alone_8", {load_, "", expr});
    c.Check(e.empty(), "iterate", "iterating over " + expr + " held by nothing else " + e);
    c.Count("iterations that outlive their source's name");
  }

  // Arguments of a wrong kind are refused.
  void Wrong() {
    const std::string call = Lit(Call(true));
    const std::vector<std::string> v = {
        "p.next_state(5, " + call + ")",          "p.next_state(set(), None)",       "p.next_state(set())",
        "p.next_state([1], " + call + ")",        "p.apply_actions(set(), 3)",       "p.apply_actions(set(), [3])",
        "p.consistent_state(7)",                  "p.is_valid_state({1, 2})",        "p.is_goal_satisfied({None})",
        "p.is_valid_plan(4)",                     "p.list_valid_actions('x', 'y')",  "p.add_object('x')",
        "s.Planner(None)",                        "s.Planner(5)",                    "s.Action.parse(None, " + call + ")",
        "s.PlannerNode(None)",                    "s.BreadthFirstSearch(None, 3)",   "s.BreadthFirstSearch(s.Planner(p).root, -1)",
        "s.BreadthFirstSearch(s.Planner(p).root)", "s.DisjunctiveFormula.normalize_goal(None)",
        "s.DisjunctiveFormula.normalize_conditions(p)", "s.Pddl()", "s.Pddl(5)",     "s.Object('a')",
        "p.predicates[0].to_string(3)",           "p.predicates[0].parameter_generator['x']",
        "p.state_index.get_state(3)",     "p.state_index.get_proposition('x')",
        "p.is_valid(verbose=True, other=1)",
    };
    const std::string expr = r.Pick(v);
    const std::string got = Helper("ev", {expr});
    c.Check(got.compare(0, 11, "!TypeError:") == 0, "wrong kind", expr + "\ngives " + got);
    const std::vector<std::string> ro = {"p.name = 'x'", "p.objects = []", "p.goal = None", "p.actions[0].name = 'x'",
                                         "p.initial_state = 4", "del p.name"};
    const std::string stmt = r.Pick(ro);
    if (stmt.find("actions") == std::string::npos || !d.m.actions.empty()) {
      c.Check(Helper("do", {stmt})[0] == '!', "read-only", stmt + " is accepted");
    }
    c.Count("wrong uses");
  }
};

// A search without plans that would go on for ages ends soon after its time.
void Timeout(Ctx& c) {
  std::string objects;
  for (int i = 0; i < 12; i++) objects += " o" + std::to_string(i);
  WriteFile(DomainPath(c), "(define (domain d) (:predicates (p ?x) (q)) (:action set :parameters (?x) :precondition (and) :effect (p ?x)) "
                           "(:action unset :parameters (?x) :precondition (and) :effect (not (p ?x))))");
  const std::string load = "s.Pddl(" + Lit(DomainPath(c)) + ", '(define (problem e) (:domain d) (:objects" + objects + ") (:init) (:goal (q)))')";
  const std::string t = c.rng.Pick(std::vector<std::string>{"0.02", "0.1", "0.25"});
  const std::string call = c.rng.Pick(std::vector<std::string>{"30, False, " + t, "30, timeout=" + t, "max_depth=30, timeout=" + t});
  const std::string got = Helper("ev", {"list(s.BreadthFirstSearch(s.Planner(" + load + ").root, " + call + "))"});
  c.Check(got == "[]", "timeout", "a search with timeout " + t + " gives " + got);
  c.Count("searches ended by their timeout");
}

// The package: a problem written with Problem and the helpers, loaded by the module -------

std::string Builder(const ref::Sx& f) {
  if (f.k.empty()) return "P._and()";
  if (f.head() == "and" || f.head() == "or") {
    std::string o = "P._" + f.head() + "(";
    for (size_t i = 1; i < f.k.size(); i++) o += Builder(f.k[i]) + ",";
    return o + ")";
  }
  if (f.head() == "not") return "P._not(" + Builder(f.k[1]) + ")";
  if (f.head() == "forall" || f.head() == "exists") {
    const ref::Typed vars = ref::TypedList(f.k[1].k, 0);
    std::string o, close;
    for (const auto& v : vars) {
      o += "P._" + f.head() + "(" + Lit(v.first.substr(1)) + ", " + Lit(v.second) + ", ";
      close += ")";
    }
    return o + Builder(f.k[2]) + close;
  }
  std::string o = "P._P(";
  for (const ref::Sx& s : f.k) o += Lit(s.a) + ",";
  return o + ")";
}

void Package(Ctx& c, const gen::Dom& d) {
  Rng& r = c.rng;
  const auto run = [&](const std::string& stmt) {
    const std::string e = Helper("do", {stmt});
    if (!c.Check(e.empty(), "package", stmt + "\nraises " + e)) throw CaseEnd();
  };
  WriteFile(DomainPath(c), d.domain);
  run("pr = P.Problem('prob', 'dom')");
  for (const auto& o : d.m.prob_objects) {
    run("pr.add_object(" + Lit(o.first) + (d.m.has_types || r.Chance(50) ? ", " + Lit(d.m.has_types ? o.second : "") : "") + ")");
  }
  for (const std::string& f : d.m.init) {
    run("pr.add_initial_prop(" + Lit(r.Chance(50) ? f : gen::Gen::FactSx(f)) + ")");
  }
  run("pr.set_goal(" + Builder(d.m.goal) + ")");
  const Pddl want(DomainPath(c), d.problem, false);
  std::string load = "P.Pddl(" + Lit(DomainPath(c)) + ", str(pr), False)";
  if (r.Chance(30)) {
    run("open(" + Lit(c.tmpdir + "/built.pddl") + ", 'w').write(repr(pr))");
    load = "P.Pddl(" + Lit(DomainPath(c)) + ", " + Lit(c.tmpdir + "/built.pddl") + ", False)";
  }
  run("q = " + load);
  const auto same = [&](const std::string& expr, const std::string& expected) {
    const std::string got = Helper("ev", {expr});
    c.Check(got == expected, "package", expr + "\ngives " + got + "\nexpected " + expected + "\nproblem:\n" + Helper("ev", {"str(pr)"}));
  };
  same("sorted(repr(o) for o in q.objects)", [&] {
    std::vector<std::string> names;
    for (const Object& o : want.objects()) names.push_back(o.name());
    std::sort(names.begin(), names.end());
    return C(names);
  }());
  same("q.initial_state", C(want.initial_state()));
  for (int i = 0; i < 6; i++) {
    ref::State s;
    for (const std::string& f : d.m.Atoms()) {
      if (r.Chance(20 + 15 * i)) s.insert(f);
    }
    same("q.is_goal_satisfied(" + Lit(s) + ")", C(want.IsGoalSatisfied(s)));
  }
  same("q.list_valid_actions(q.initial_state) == P.Pddl(q.domain_pddl, q.problem_pddl, False).list_valid_actions(q.initial_state)", "True");
  run("del q, pr");
  c.Count("problems built in Python and loaded");
}

}  // namespace

void RunCase(Ctx& c) {
  StartPython();
  static const bool ready = [] {
    // check_held with a Python bool, iterate_alone with a number; the package around the module.
    const char* root = getenv("VERIF_REPO");
    const std::string repo = root ? root : "/repo";
    const std::string more =
        "check_held_changed = lambda: check_held(True)\n"
        "check_held_same = lambda: check_held(False)\n"
        "iterate_alone_8 = lambda load, setup, expr: iterate_alone(load, setup, expr, 8)\n"
        "import importlib.util, sys\n"
        "sys.modules['symbolic.pysymbolic'] = s\n"
        "sys.path.insert(0, " + Lit(repo) + ")\n"
        "import symbolic as P\n"
        "E['P'] = P\n";
    PyObject* dict = PyModule_GetDict(g_helper);
    PyObject* ran = PyRun_String(more.c_str(), Py_file_input, dict, dict);
    if (ran == nullptr) Die("package");
    Py_DECREF(ran);
    return true;
  }();
  (void)ready;
  gen::Opts o;
  o.max_atoms = 60;
  o.max_objects = 4;
  o.depth = 2;
  o.derived = c.rng.Chance(40);
  o.axioms = c.rng.Chance(40);
  gen::Gen g(&c.rng, o);
  gen::Dom d;
  if (c.rng.Chance(15)) {
    d = gen::Structured(&c.rng);
  } else {
    d = g.Make();
  }
  c.context = d.domain + d.problem;
  if (c.rng.Chance(25)) Package(c, d);
  if (c.rng.Chance(3)) Timeout(c);
  Session session(c, d, &g);
  session.Run();
  c.Seen(c.context);
}
