// C27: printed text against what is printed, for every kind of value that can be printed.
#include <cctype>

#include "dnf.h"
#include "world.h"

namespace {

using symbolic::Object;
using symbolic::PartialState;
using symbolic::Pddl;
using symbolic::Planner;
using symbolic::Proposition;
using symbolic::State;

template <typename T>
std::string Print(Ctx& c, const T& value, const std::string& what) {
  std::stringstream ss;
  ss << value;
  c.Check(ss.good(), "stream", what + ": printing left the stream in error");
  // To a stream that already holds text, and again.
  std::stringstream other;
  other << "before ";
  other << value << value;
  c.Equal(other.str(), "before " + ss.str() + ss.str(), "again", what + ": printed again");
  c.Count("texts");
  c.Count("texts: " + what.substr(0, what.find(' ')));
  return ss.str();
}

// Words of a text: facts such as p(a, b), parentheses and braces, others separated by white space.
std::vector<std::string> Words(const std::string& text) {
  std::vector<std::string> out;
  const auto special = [](char ch) { return ch == '(' || ch == ')' || ch == '{' || ch == '}' || ch == ','; };
  for (size_t i = 0; i < text.size();) {
    const char ch = text[i];
    if (isspace(static_cast<unsigned char>(ch))) {
      i++;
    } else if (special(ch)) {
      out.emplace_back(1, ch);
      i++;
    } else {
      size_t j = i;
      while (j < text.size() && !isspace(static_cast<unsigned char>(text[j])) && !special(text[j])) j++;
      if (j < text.size() && text[j] == '(') {
        while (j < text.size() && text[j] != ')') j++;
        j = std::min(j + 1, text.size());
      }
      out.push_back(text.substr(i, j - i));
      i = j;
    }
  }
  return out;
}

// Literals of a text, "not " in front of negative ones; everything else in *rest.
std::vector<std::string> Literals(const std::string& text, std::string* rest) {
  std::vector<std::string> out;
  bool neg = false;
  for (const std::string& w : Words(text)) {
    if (w == "not") {
      neg = true;
    } else if (w.size() > 1 && w.find('(') != std::string::npos) {
      out.push_back((neg ? "not " : "") + w);
      neg = false;
    } else {
      *rest += w + " ";
    }
  }
  if (neg) *rest += "not";
  return out;
}

std::vector<std::string> Sorted(std::vector<std::string> v) {
  std::sort(v.begin(), v.end());
  return v;
}

std::vector<std::string> List(const ref::State& pos, const ref::State& neg) {
  std::vector<std::string> v(pos.begin(), pos.end());
  for (const std::string& f : neg) v.push_back("not " + f);
  return Sorted(v);
}

// Name and parameters, with or without '?'.
std::string Head(const std::string& name, const ref::Typed& params) {
  ref::Args a;
  for (const auto& p : params) a.push_back(p.first[0] == '?' ? p.first.substr(1) : p.first);
  return ref::Fact(name, a);
}
std::string NoMarks(std::string s) {
  s.erase(std::remove(s.begin(), s.end(), '?'), s.end());
  return s;
}

// The dump of a problem: a tree by indentation -------------------------------------------------

struct Tree {
  std::string text;
  std::vector<Tree> kids;
  std::string str(int depth = 0) const {
    std::string s = std::string(2 * depth, ' ') + text + "\n";
    for (const Tree& k : kids) s += k.str(depth + 1);
    return s;
  }
};

// Without addresses, '?' and repeated white space.
std::string Clean(const std::string& line) {
  std::string s;
  for (size_t i = 0; i < line.size(); i++) {
    if (line[i] == '[') {
      while (i < line.size() && line[i] != ']') i++;
      continue;
    }
    if (line[i] == '?') continue;
    s += line[i];
  }
  std::string out;
  for (const std::string& w : Words(s)) {
    std::string v;
    for (const char ch : w) {
      if (!isspace(static_cast<unsigned char>(ch))) v += ch;
    }
    if (v == ":" && !out.empty()) out += v;
    else out += (out.empty() ? "" : " ") + v;
  }
  return out;
}

Tree ReadTree(const std::string& text) {
  Tree root;
  std::stringstream ss(text);
  std::string line;
  std::vector<Tree*> path = {&root};
  while (std::getline(ss, line)) {
    size_t depth = 0;
    while (depth < line.size() && line[depth] == '\t') depth++;
    if (depth == line.size()) continue;
    path.resize(std::min(path.size(), depth + 1));
    path.back()->kids.push_back({Clean(line.substr(depth)), {}});
    // Pointers to earlier elements of the same list are no longer used.
    path.push_back(&path.back()->kids.back());
  }
  return root;
}

// Children in a fixed order.
Tree Canon(Tree t) {
  for (Tree& k : t.kids) k = Canon(k);
  std::sort(t.kids.begin(), t.kids.end(), [](const Tree& a, const Tree& b) { return a.str() < b.str(); });
  return t;
}

std::string Bare(const std::string& s) { return s[0] == '?' ? s.substr(1) : s; }

std::string TypedArgs(const ref::Typed& args) {
  std::string s;
  for (const auto& a : args) s += (s.empty() ? "" : ",") + Bare(a.first) + ":" + a.second;
  return "(" + s + ")";
}

struct Dumper {
  const ref::Model& m;

  std::string Atom(const ref::Sx& s, const ref::Typed& scope) const {
    ref::Typed args;
    for (size_t i = 1; i < s.k.size(); i++) {
      std::string type;
      if (s.k[i].a[0] == '?') {
        for (const auto& v : scope) {
          if (v.first == s.k[i].a) type = v.second;  // the innermost
        }
      } else {
        type = m.TypeOf(s.k[i].a);
      }
      args.emplace_back(s.k[i].a, type);
    }
    return s.head() + TypedArgs(args);
  }

  Tree Goal(const ref::Sx& s, const ref::Typed& scope) const {
    const std::string& h = s.head();
    if (s.k.empty()) return {"and:", {}};
    Tree t;
    if (h == "and" || h == "or") {
      t.text = h + ":";
      for (size_t i = 1; i < s.k.size(); i++) t.kids.push_back(Goal(s.k[i], scope));
    } else if (h == "not") {
      t.text = "neg:";
      t.kids.push_back(Goal(s.k[1], scope));
    } else if (h == "forall" || h == "exists") {
      const ref::Typed vars = ref::TypedList(s.k[1].k, 0);
      ref::Typed inner = scope;
      inner.insert(inner.end(), vars.begin(), vars.end());
      t.text = h + TypedArgs(vars) + ":";
      t.kids.push_back(Goal(s.k[2], inner));
    } else {
      t.text = Atom(s, scope);
    }
    return t;
  }

  void Effect(const ref::Sx& s, const ref::Typed& scope, Tree* out) const {
    const std::string& h = s.head();
    if (s.k.empty()) return;
    if (h == "and") {
      for (size_t i = 1; i < s.k.size(); i++) Effect(s.k[i], scope, out);
    } else if (h == "forall") {
      const ref::Typed vars = ref::TypedList(s.k[1].k, 0);
      ref::Typed inner = scope;
      inner.insert(inner.end(), vars.begin(), vars.end());
      Tree t{"forall" + TypedArgs(vars) + ":", {}};
      Effect(s.k[2], inner, &t);
      out->kids.push_back(t);
    } else if (h == "when") {
      // Condition and consequence belong together.
      Tree t{"when:", {Goal(s.k[1], scope)}};
      Tree then{"then:", {}};
      Effect(s.k[2], scope, &then);
      t.kids.push_back(then);
      out->kids.push_back(t);
    } else if (h == "not") {
      out->kids.push_back({"(+) " + Atom(s.k[1], scope), {}});
      out->kids.back().text[1] = '-';
    } else {
      out->kids.push_back({"(+) " + Atom(s, scope), {}});
    }
  }
};

// Signs as one word, "then:" below its "when:".
Tree Regroup(const Tree& t) {
  Tree out{t.text, {}};
  for (const Tree& k : t.kids) {
    Tree n = Regroup(k);
    if (n.text.compare(0, 6, "( + ) ") == 0) n.text = "(+) " + n.text.substr(6);
    if (n.text.compare(0, 6, "( - ) ") == 0) n.text = "(-) " + n.text.substr(6);
    if (n.text == "then:" && !out.kids.empty() && out.kids.back().text == "when:") {
      out.kids.back().kids.push_back(n);
    } else {
      out.kids.push_back(n);
    }
  }
  return out;
}

const Tree* Find(const std::vector<Tree>& kids, const std::string& text, size_t begin = 0, size_t end = 1 << 20) {
  for (size_t i = begin; i < std::min(end, kids.size()); i++) {
    if (kids[i].text == text) return &kids[i];
  }
  return nullptr;
}

// No spaces.
std::string Tight(std::string s) {
  s.erase(std::remove(s.begin(), s.end(), ' '), s.end());
  return s;
}
Tree Tight(const Tree& t) {
  Tree out{Tight(t.text), {}};
  for (const Tree& k : t.kids) out.kids.push_back(Tight(k));
  return out;
}

void Dump(Ctx& c, const Pddl& pddl, const ref::Model& m, bool with_problem) {
  const std::string text = Print(c, pddl, "problem");
  Tree t = Tight(Regroup(ReadTree(text)));
  size_t split = t.kids.size();
  for (size_t i = 0; i < t.kids.size(); i++) {
    if (t.kids[i].text == "PROBLEM") split = i;
  }
  c.Equal(split < t.kids.size(), with_problem, "dump", "the dump has a problem part");
  const Dumper d{m};
  const auto lines = [&](const std::string& section, size_t begin, size_t end, const ref::Typed& expected) {
    std::vector<std::string> got, want;
    const Tree* s = Find(t.kids, section, begin, end);
    if (!c.Check(s != nullptr, "dump", "the dump has no " + section)) return;
    for (const Tree& k : s->kids) got.push_back(k.text);
    for (const auto& e : expected) want.push_back(e.first + ":" + e.second);
    c.Equal(Sorted(got), Sorted(want), "dump", section + " in the dump");
    c.Count("dump lines", got.size());
  };
  c.Check(Find(t.kids, "Name:" + m.name, 0, split) != nullptr, "dump", "the dump lacks the domain name");
  ref::Typed types;
  for (const std::string& ty : m.type_order) {
    types.emplace_back(ty, ty == "object" ? "object" : m.parent.at(ty));
  }
  lines("Types:", 0, split, types);
  lines("Constants:", 0, split, m.constants);
  std::vector<std::string> got, want;
  if (const Tree* s = Find(t.kids, "Predicates:", 0, split)) {
    for (const Tree& k : s->kids) got.push_back(k.text);
  }
  for (const ref::Pred& p : m.preds) want.push_back(p.name + TypedArgs(p.params));
  c.Equal(Sorted(got), Sorted(want), "dump", "Predicates: in the dump");
  const Tree* actions = Find(t.kids, "Actions:", 0, split);
  if (c.Check(actions != nullptr, "dump", "the dump has no Actions:")) {
    c.Check(actions->kids.size() <= m.actions.size() + m.axioms.size(), "dump", "too many actions in the dump");
    for (const ref::Op& op : m.actions) {
      Tree pre{"Preconditions:", {d.Goal(op.pre, op.params)}};
      Tree eff{"Effects:", {}};
      d.Effect(op.eff, op.params, &eff);
      const Tree expected{op.name + TypedArgs(op.params), {pre, eff}};
      const std::string e = Canon(Tight(expected)).str();
      size_t found = 0;
      std::string near;
      for (const Tree& k : actions->kids) {
        const std::string g = Canon(k).str();
        found += g == e;
        if (k.text.compare(0, op.name.size() + 1, op.name + "(") == 0) near = g;
      }
      c.Check(found == 1, "dump", "action " + op.name + " in the dump: got\n" + near + "expected\n" + e);
      c.Count("actions in dumps");
    }
  }
  if (!with_problem || split == t.kids.size()) return;
  c.Check(Find(t.kids, "Name:" + m.problem_name, split) != nullptr, "dump", "the dump lacks the problem name");
  c.Check(Find(t.kids, "Domain:" + m.name, split) != nullptr, "dump", "the dump lacks the problem's domain");
  lines("Objects:", split, t.kids.size(), m.prob_objects);
  Tree init{"InitialState:", {}};
  for (const std::string& f : m.init) d.Effect(ref::Parse(gen::Gen::FactSx(f)), {}, &init);
  const Tree goal{"Goal:", {d.Goal(m.goal, {})}};
  for (const Tree& e : {init, goal}) {
    const Tree* s = Find(t.kids, e.text, split);
    if (!c.Check(s != nullptr, "dump", "the dump has no " + e.text)) continue;
    c.Equal(Canon(*s).str(), Canon(Tight(e)).str(), "dump", e.text + " in the dump");
  }
}

// States and normal forms ----------------------------------------------------------------------

void CheckState(Ctx& c, const State& s, const ref::State& expected, const std::string& text, const std::string& what) {
  std::string rest;
  const std::vector<std::string> lits = Literals(text, &rest);
  c.Equal(Sorted(lits), std::vector<std::string>(expected.begin(), expected.end()), "state", what);
  std::string left;
  for (const char ch : rest) {
    if (ch != ' ' && ch != ',') left += ch;
  }
  c.Check(left == "{}" && std::count(text.begin(), text.end(), '{') == 1, "state", what + ": printed as " + text);
  c.Check(Facts(s) == expected, "changed", what + ": changed by printing");
}

void CheckPartial(Ctx& c, const PartialState& s, const std::string& text, const std::string& what) {
  std::string rest;
  const std::vector<std::string> lits = Literals(text, &rest);
  c.Equal(Sorted(lits), List(Facts(s.pos()), Facts(s.neg())), "partial", what);
  c.Equal(Tight(rest), std::string("(and)"), "partial", what + ": frame");
}

// (or (and lit ...) ...) in order.
void CheckNested(Ctx& c, const std::vector<PartialState>& parts, const std::string& text, const std::string& outer,
                 const std::string& inner, const std::string& what) {
  const std::vector<std::string> words = Words(text);
  std::vector<std::vector<std::string>> got;
  std::string frame;
  bool neg = false;
  int depth = 0;
  for (const std::string& w : words) {
    if (w == "(") {
      depth++;
      if (depth == 2) got.emplace_back();
      frame += w;
    } else if (w == ")") {
      depth--;
      frame += w;
    } else if (w == "not") {
      neg = true;
    } else if (w.find('(') != std::string::npos && depth == 2) {
      got.back().push_back((neg ? "not " : "") + w);
      neg = false;
    } else {
      frame += w;
    }
  }
  std::vector<std::vector<std::string>> expected;
  std::string e = "(" + outer;
  for (const PartialState& p : parts) {
    expected.push_back(List(Facts(p.pos()), Facts(p.neg())));
    e += "(" + inner + ")";
  }
  for (auto& g : got) g = Sorted(g);
  std::string a, b;
  for (const auto& g : got) a += Ctx::Str(g);
  for (const auto& g : expected) b += Ctx::Str(g);
  c.Equal(a, b, "normal form", what);
  c.Equal(frame, e + ")", "normal form", what + ": frame");
}

// Axioms whose parts are plain literals are shown as "axiom(x, y): context => consequences".
bool PlainAxiom(const ref::Model& m, const ref::Op& op, std::vector<std::string>* ctx, std::vector<std::string>* out) {
  const auto literal = [&](const ref::Sx& s, std::vector<std::string>* to) {
    const bool neg = s.head() == "not";
    const ref::Sx& atom = neg ? s.k[1] : s;
    const std::string& h = atom.head();
    if (h == "and" || h == "or" || h == "forall" || h == "exists" || h == "when" || h == "=" || m.IsType(h) || h == "not") return false;
    ref::Args args;
    for (size_t i = 1; i < atom.k.size(); i++) args.push_back(Bare(atom.k[i].a));
    to->push_back((neg ? "not " : "") + ref::Fact(h, args));
    return true;
  };
  // A variable named like a constant may be shown the same way.
  for (const auto& p : op.params) {
    if (m.HasObject(Bare(p.first))) return false;
  }
  if (!literal(op.pre, ctx)) return false;
  std::vector<ref::Sx> parts = {op.eff};
  if (op.eff.head() == "and") parts.assign(op.eff.k.begin() + 1, op.eff.k.end());
  for (const ref::Sx& s : parts) {
    if (!literal(s, out)) return false;
  }
  std::sort(out->begin(), out->end());
  out->erase(std::unique(out->begin(), out->end()), out->end());
  for (const std::string& l : *out) {
    if (std::count(out->begin(), out->end(), "not " + l) > 0) return false;
  }
  return !out->empty();
}

}  // namespace

void RunCase(Ctx& c) {
  Rng& r = c.rng;
  gen::Opts o;
  o.max_types = 6;
  o.max_objects = r.Range(1, 7);
  o.max_arity = o.max_objects > 4 ? 2 : 3;
  o.depth = r.Range(0, 3);
  o.derived = r.Chance(30);
  o.axioms = r.Chance(40);
  o.axiom_guards = r.Chance(15);
  gen::Gen g(&r, o);
  gen::Dom d = g.Make();
  if (r.Chance(50)) {
    d.m.name = r.Pick(std::vector<std::string>{"d1", "my-domain", "d_2"});
    d.m.problem_name = r.Pick(std::vector<std::string>{"p1", "my-problem", "q_2"});
    gen::Gen::Render(&d);
  }
  c.context = d.domain + d.problem;
  const ref::Model& m = d.m;
  const bool with_problem = !r.Chance(8);
  std::unique_ptr<Pddl> loaded;
  if (with_problem) {
    loaded = Load(c, d, r.Chance(50));
  } else {
    WriteFile(DomainPath(c), d.domain);
    loaded = std::make_unique<Pddl>(DomainPath(c));
  }
  Pddl& pddl = *loaded;
  Dump(c, pddl, m, with_problem);

  // Declarations.
  std::vector<std::string> got, want;
  for (const auto& p : pddl.predicates()) {
    const std::string text = Print(c, p, "predicate");
    got.push_back(NoMarks(text));
    c.Equal(p.to_string(), text, "declaration", "to_string of " + p.name());
  }
  for (const ref::Pred& p : m.preds) want.push_back(Head(p.name, p.params));
  c.Equal(Sorted(got), Sorted(want), "declaration", "predicates as printed");
  got.clear();
  want.clear();
  for (const auto& a : pddl.actions()) {
    const std::string text = Print(c, a, "action");
    got.push_back(NoMarks(text));
    c.Equal(a.to_string(), text, "declaration", "to_string of " + a.name());
  }
  for (const ref::Op& a : m.actions) want.push_back(Head(a.name, a.params));
  c.Equal(Sorted(got), Sorted(want), "declaration", "actions as printed");
  got.clear();
  want.clear();
  for (const auto& a : pddl.derived_predicates()) got.push_back(NoMarks(Print(c, a, "derived predicate")));
  for (const ref::Op& a : m.derived) want.push_back(Head(a.name, a.params));
  c.Equal(Sorted(got), Sorted(want), "declaration", "derived predicates as printed");
  for (const Object& ob : pddl.objects()) {
    c.Equal(Print(c, ob, "object"), ob.name(), "declaration", "object as printed");
    c.Equal(Print(c, ob.type(), "type"), ob.type().name(), "declaration", "type as printed");
  }

  // Axioms: parameters, and the literals of plain ones.
  std::vector<std::string> texts, heads, e_heads;
  for (const auto& a : pddl.axioms()) {
    const std::string text = NoMarks(Print(c, *a, "axiom"));
    std::string rest;
    const size_t colon = text.find("): ");
    if (!c.Check(colon != std::string::npos && text.find(" => ") != std::string::npos, "axiom", "axiom printed as " + text)) continue;
    heads.push_back(text.substr(0, colon + 1));
    const size_t arrow = text.find(" => ");
    std::string s = text.substr(0, colon + 1);
    s += Ctx::Str(Sorted(Literals(text.substr(colon + 3, arrow - colon - 3), &rest)));
    s += " => " + Ctx::Str(Sorted(Literals(text.substr(arrow + 4), &rest)));
    texts.push_back(s);
  }
  for (const ref::Op& a : m.axioms) {
    e_heads.push_back(Head("axiom", a.params));
    std::vector<std::string> ctx, out;
    if (!PlainAxiom(m, a, &ctx, &out)) continue;
    const std::string e = Head("axiom", a.params) + Ctx::Str(ctx) + " => " + Ctx::Str(out);
    c.Check(std::count(texts.begin(), texts.end(), e) > 0, "axiom", "no axiom printed as " + e + ", only " + Ctx::Str(texts));
    c.Count("axioms read back");
  }
  c.Equal(Sorted(heads), Sorted(e_heads), "axiom", "heads of axioms");

  // Facts and calls with their arguments.
  for (const auto& p : pddl.predicates()) {
    for (const ref::Pred& q : m.preds) {
      if (q.name != p.name()) continue;
      std::vector<ref::Args> tuples = m.Tuples(q.params);
      if (!with_problem) {
        ref::Model bare = m;
        bare.prob_objects.clear();
        tuples = bare.Tuples(q.params);
      }
      r.Shuffle(&tuples);
      if (tuples.size() > 6) tuples.resize(6);
      for (const ref::Args& t : tuples) {
        const std::vector<Object> args = ToArgs(pddl, t);
        c.Equal(p.to_string(args), ref::Fact(q.name, t), "fact", "to_string of a fact");
        c.Equal(Print(c, Proposition(q.name, std::vector<Object>(args)), "fact"), ref::Fact(q.name, t), "fact", "fact as printed");
        std::string joined;
        for (const std::string& x : t) joined += (joined.empty() ? "" : ", ") + x;
        std::stringstream ss;
        symbolic::operator<<(ss, args);
        c.Equal(ss.str(), joined, "fact", "list of objects as printed");
      }
    }
  }
  if (!with_problem) {
    c.Count("domains without a problem");
    return;
  }
  for (const ref::Op& op : m.actions) {
    std::vector<ref::Args> tuples = m.Tuples(op.params);
    r.Shuffle(&tuples);
    if (tuples.size() > 6) tuples.resize(6);
    for (const ref::Args& t : tuples) {
      c.Equal(FindAction(pddl, op.name).to_string(ToArgs(pddl, t)), ref::Fact(op.name, t), "fact", "to_string of a call");
    }
  }

  // Conditions.
  c.Equal(Print(c, pddl.goal(), "formula"), pddl.goal().to_string(), "formula", "goal as printed");
  for (const auto& a : pddl.actions()) {
    c.Equal(Print(c, a.preconditions(), "formula"), a.preconditions().to_string(), "formula", "condition as printed");
  }

  // States, complete and partial, and other histories of the same state.
  std::vector<State> states;
  for (const int p : {0, r.Range(1, 30), r.Range(30, 100)}) {
    const ref::State rs = g.RandomState(m, p, true);
    const State s = ToState(pddl, rs);
    const std::string text = Print(c, s, "state");
    CheckState(c, s, rs, text, "state " + Ctx::Str(rs));
    std::vector<std::string> all = m.Atoms();
    r.Shuffle(&all);
    State other;
    for (const std::string& f : all) {
      if (rs.count(f) > 0 || r.Chance(50)) other.emplace(pddl, f);
    }
    r.Shuffle(&all);
    for (const std::string& f : all) {
      if (rs.count(f) == 0) other.erase(Proposition(pddl, f));
    }
    c.Equal(Print(c, other, "state"), text, "state", "the same state, made in another way");
    c.Seen(text);
    states.push_back(s);
  }
  std::vector<PartialState> partials;
  for (int k = r.Range(1, 3); k > 0; k--) {
    State pos, neg;
    for (const std::string& f : m.Atoms()) {
      const size_t w = r.Below(6);
      if (w == 0) pos.emplace(pddl, f);
      if (w == 1) neg.emplace(pddl, f);
    }
    partials.emplace_back(std::move(pos), std::move(neg));
    CheckPartial(c, partials.back(), Print(c, partials.back(), "partial state"), "partial state");
  }
  {
    std::vector<PartialState> parts = partials;
    if (r.Chance(20)) parts.clear();
    if (r.Chance(20)) parts.emplace_back();
    symbolic::ConjunctiveFormula cnf;
    cnf.disjunctions = parts;
    CheckNested(c, parts, Print(c, cnf, "conjunctive form"), "and", "or", "conjunctive form");
    symbolic::DisjunctiveFormula dnf;
    dnf.conjunctions = parts;
    CheckNested(c, parts, Print(c, dnf, "disjunctive form"), "or", "and", "disjunctive form");
  }
  for (const ref::Op& op : m.actions) {
    double worst = 0;
    Size(m, op.pre, &worst);
    const auto tuples = m.Tuples(op.params);
    if (worst > 100 || tuples.empty()) continue;
    const auto dnf = symbolic::DisjunctiveFormula::NormalizePreconditions(pddl, ref::Fact(op.name, r.Pick(tuples)));
    if (!dnf.has_value()) continue;
    CheckNested(c, dnf->conjunctions, Print(c, *dnf, "disjunctive form"), "or", "and", "condition of " + op.name);
  }

  // Search nodes.
  const Planner planner(pddl, r.Pick(states));
  Planner::Node node = planner.root();
  for (size_t depth = 0; depth < 3; depth++) {
    std::string text = Print(c, node, "node");
    std::string plain;
    for (size_t i = 0; i < text.size(); i++) {
      if (text[i] == '\x1b') {
        while (i < text.size() && text[i] != 'm') i++;
        continue;
      }
      plain += text[i];
    }
    const size_t arrow = plain.find("-> ");
    if (!c.Check(arrow != std::string::npos, "node", "node printed as " + plain)) break;
    std::stringstream ss;
    ss << node.state();
    c.Equal(plain.substr(arrow + 3), ss.str(), "node", "state of a node as printed");
    std::string head = plain.substr(0, arrow);
    size_t dashes = 0;
    while (dashes < head.size() && head[dashes] == '-') dashes++;
    c.Equal(dashes, node.depth(), "node", "depth of a node as printed");
    c.Equal(Tight(head.substr(dashes)), Tight(node.action()), "node", "action of a node as printed");
    std::vector<Planner::Node> kids;
    for (const Planner::Node& k : node) {
      kids.push_back(k);
      if (kids.size() > 6) break;
    }
    if (kids.empty()) break;
    node = r.Pick(kids);
    c.Count("nodes below the root");
  }

  // The dump follows the objects.
  if (r.Chance(30)) {
    gen::Dom e = d;
    for (int k = 0; k < 2; k++) {
      const std::string name = "new" + std::to_string(k);
      const std::string type = m.type_order.empty() || !m.has_types ? "object" : r.Pick(m.type_order);
      pddl.AddObject(name, type);
      e.m.prob_objects.emplace_back(name, type);
    }
    Dump(c, pddl, e.m, true);
    if (r.Chance(50)) {
      pddl.RemoveObject("new0");
      e.m.prob_objects.erase(e.m.prob_objects.end() - 2);
      Dump(c, pddl, e.m, true);
    }
    c.Count("dumps after changes of the objects");
  }
  if (c.idx < 2) c.Sample(d.domain);
}
