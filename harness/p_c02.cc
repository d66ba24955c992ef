// C02: partial states against a map fact -> {true, false, unknown}.
#include "world.h"

namespace {

using symbolic::PartialState;
using symbolic::Proposition;
using symbolic::State;

using Know = std::map<std::string, bool>;

struct Pool {
  const symbolic::Pddl* pddl;
  std::vector<std::string> atoms;
  std::vector<Proposition> props;
};

ref::State Part(const Know& k, bool v) {
  ref::State s;
  for (const auto& e : k) {
    if (e.second == v) s.insert(e.first);
  }
  return s;
}

std::string Show(const Know& k) {
  std::string s;
  for (const auto& e : k) s += (e.second ? " +" : " -") + e.first;
  return "{" + s + " }";
}

// "true", "false", "unknown <fact>" or another exception.
template <typename F>
std::string Ask(const F& f) {
  try {
    return f() ? "true" : "false";
  } catch (const PartialState::UnknownEvaluation& e) {
    return "unknown " + e.proposition().to_string() + " / " + e.what();
  }
}

void Observe(Ctx& c, const Pool& pool, const PartialState& s, const Know& k, const std::string& log) {
  const std::string at = "\nhistory: " + log;
  const ref::State pos = Part(k, true);
  const ref::State neg = Part(k, false);
  c.Check(Facts(s.pos()) == pos, "pos", "known-true facts " + Ctx::Str(Facts(s.pos())) + ", expected " + Ctx::Str(pos) + at);
  c.Check(Facts(s.neg()) == neg, "neg", "known-false facts " + Ctx::Str(Facts(s.neg())) + ", expected " + Ctx::Str(neg) + at);
  c.Equal(s.size(), k.size(), "size", "size()" + at);
  c.Equal(s.empty(), k.empty(), "empty", "empty()" + at);
  c.Equal(s.IsConsistent(), true, "consistent", "IsConsistent()" + at);
  for (size_t i = 0; i < pool.atoms.size(); i++) {
    const std::string& a = pool.atoms[i];
    const auto it = k.find(a);
    const std::string unknown = "unknown " + a + " / " + a;
    const std::string yes = it == k.end() ? unknown : it->second ? "true" : "false";
    const std::string no = it == k.end() ? unknown : it->second ? "false" : "true";
    c.Equal(Ask([&] { return s.contains(pool.props[i]); }), yes, "contains", "contains(" + a + ")" + at);
    c.Equal(Ask([&] { return s.does_not_contain(pool.props[i]); }), no, "does-not-contain", "does_not_contain(" + a + ")" + at);
    c.Count(it == k.end() ? "unknown answers" : "known answers");
  }
  const auto str = s.Stringify();
  c.Check(ref::State(str.first.begin(), str.first.end()) == pos && ref::State(str.second.begin(), str.second.end()) == neg,
          "stringify", "Stringify()" + at);
  // Printing names every fact with its sign.
  std::stringstream ss;
  ss << s;
  std::multiset<std::string> lines, expected;
  std::string line;
  while (std::getline(ss, line)) lines.insert(line);
  for (const auto& e : k) expected.insert((e.second ? "\t" : "\tnot ") + e.first);
  expected.insert("(and");
  expected.insert(")");
  c.Check(lines == expected, "print", "printed partial state:\n" + ss.str() + at);
}

PartialState Rebuild(Ctx& c, const Pool& pool, const Know& k) {
  std::vector<std::pair<std::string, bool>> e(k.begin(), k.end());
  c.rng.Shuffle(&e);
  const ref::State p = Part(k, true);
  const ref::State n = Part(k, false);
  switch (c.rng.Below(4)) {
    case 0:
      return PartialState(*pool.pddl, std::unordered_set<std::string>(p.begin(), p.end()),
                          std::unordered_set<std::string>(n.begin(), n.end()));
    case 1:
      return PartialState(ToState(*pool.pddl, p), ToState(*pool.pddl, n));
    case 2: {
      const State sp = ToState(*pool.pddl, p);
      const State sn = ToState(*pool.pddl, n);
      return PartialState(sp, sn);
    }
    default: {
      PartialState s;
      for (const auto& x : e) {
        // First the wrong way round: the last word counts.
        const Proposition prop(*pool.pddl, x.first);
        if (c.rng.Chance(50)) x.second ? s.erase(prop) : s.insert(prop);
        x.second ? s.insert(prop) : s.erase(prop);
      }
      return s;
    }
  }
}

void Compare(Ctx& c, const PartialState& a, const PartialState& b, bool same, const std::string& what) {
  c.Equal(a == b, same, "eq", what + ": ==");
  c.Equal(a != b, !same, "eq", what + ": !=");
  c.Equal((a < b) + (b < a), same ? 0 : 1, "order", what + ": number of directions in which < holds");
}

}  // namespace

void RunCase(Ctx& c) {
  gen::Opts o;
  o.max_objects = c.rng.Range(1, 6);
  o.max_actions = 1;
  o.depth = 1;
  gen::Gen g(&c.rng, o);
  const World w = MakeWorld(c, &g);
  Pool pool;
  pool.pddl = w.pddl.get();
  pool.atoms = w.m().Atoms();
  c.rng.Shuffle(&pool.atoms);
  const size_t want = c.rng.Chance(60) ? c.rng.Range(1, 8) : 80;
  if (pool.atoms.size() > want) pool.atoms.resize(want);
  if (pool.atoms.empty()) return;
  for (const std::string& a : pool.atoms) pool.props.emplace_back(*pool.pddl, a);
  c.context.clear();

  const int kSlots = 3;
  std::vector<PartialState> s(kSlots);
  std::vector<Know> k(kSlots);
  std::vector<std::string> logs(kSlots);
  const int steps = c.rng.Range(20, c.thorough ? 300 : 120);
  for (int step = 0; step < steps; step++) {
    const size_t j = c.rng.Below(kSlots);
    const int op = c.rng.Below(100);
    std::string& log = logs[j];
    if (op < 72) {
      // Assert or retract one fact, given in some way.
      const bool value = c.rng.Chance(50);
      size_t i = c.rng.Below(pool.atoms.size());
      int how = c.rng.Below(5);
      const symbolic::Proposition* own = nullptr;
      if (how == 4) {
        // An element of the state itself, from the known-true or known-false facts.
        const State& part = c.rng.Chance(50) ? static_cast<const PartialState&>(s[j]).pos()
                                             : static_cast<const PartialState&>(s[j]).neg();
        if (part.empty()) {
          how = 0;
        } else {
          auto it = part.begin();
          for (size_t n = c.rng.Below(part.size()); n > 0; n--) ++it;
          own = &*it;
          const std::string name = own->to_string();
          for (i = 0; pool.atoms[i] != name; i++) {
          }
        }
      }
      const std::string a = pool.atoms[i];
      const auto known = k[j].find(a);
      const int expected = known == k[j].end() ? 1 : known->second == value ? 0 : 2;
      int got = -1;
      const std::string name = pool.props[i].name();
      switch (how) {
        case 0:
          got = value ? s[j].insert(pool.props[i]) : s[j].erase(pool.props[i]);
          break;
        case 1: {
          Proposition p = pool.props[i];
          got = value ? s[j].insert(std::move(p)) : s[j].erase(std::move(p));
          break;
        }
        case 2:
          got = value ? s[j].emplace(*pool.pddl, a) : s[j].erase(Proposition(*pool.pddl, a));
          break;
        case 3: {
          const symbolic::PropositionRef p(&name, &pool.props[i].arguments(), std::hash<std::string>{}(name));
          got = value ? s[j].insert(p) : s[j].erase(p);
          break;
        }
        default:
          got = value ? s[j].insert(*own) : s[j].erase(*own);
          c.Count("operations on a reference to the state's own fact");
      }
      k[j][a] = value;
      log += std::string(value ? "+" : "-") + a + "/" + std::to_string(how) + " ";
      static const char* kReports[] = {"reports of no change", "reports of newly known", "reports of a flip"};
      c.Count(kReports[expected]);
      c.Equal(got, expected, "report", std::string(value ? "insert" : "erase") + " " + a + " reports\nhistory: " + log);
      const std::string now = Ask([&] { return s[j].contains(pool.props[i]); });
      c.Equal(now, std::string(value ? "true" : "false"), "last-word", "contains(" + a + ") after that\nhistory: " + log);
      const PartialState& cs = s[j];
      c.Check(!(cs.pos().contains(pool.props[i]) && cs.neg().contains(pool.props[i])), "both", a + " is known true and known false\nhistory: " + log);
    } else if (op < 80) {
      const size_t i = c.rng.Below(kSlots);
      s[j] = s[i];
      k[j] = k[i];
      logs[j] = logs[i] + "(copied) ";
    } else if (op < 84) {
      const size_t i = c.rng.Below(kSlots);
      if (i != j) {
        std::swap(s[j], s[i]);
        std::swap(k[j], k[i]);
        std::swap(logs[j], logs[i]);
      }
    } else if (op < 88) {
      const size_t i = c.rng.Below(kSlots);
      const Know kk = k[i];
      s[j] = Rebuild(c, pool, kk);
      k[j] = kk;
      logs[j] = "rebuilt " + Show(kk) + "; ";
    } else if (op < 90) {
      s[j] = PartialState();
      k[j].clear();
      logs[j].clear();
    } else if (op < 94) {
      // Directly through the parts, keeping them apart.
      const size_t i = c.rng.Below(pool.atoms.size());
      const bool value = c.rng.Chance(50);
      (value ? s[j].neg() : s[j].pos()).erase(pool.props[i]);
      (value ? s[j].pos() : s[j].neg()).insert(pool.props[i]);
      k[j][pool.atoms[i]] = value;
      logs[j] += std::string("parts ") + (value ? "+" : "-") + pool.atoms[i] + " ";
    } else if (op < 96) {
      // Overlapping parts are reported inconsistent.
      PartialState t = s[j];
      const size_t i = c.rng.Below(pool.atoms.size());
      t.pos().insert(pool.props[i]);
      t.neg().insert(pool.props[i]);
      c.Equal(t.IsConsistent(), false, "inconsistent", "IsConsistent() with " + pool.atoms[i] + " on both sides");
    } else {
      Observe(c, pool, s[j], k[j], logs[j]);
    }
    if (c.rng.Chance(15)) {
      Compare(c, s[j], Rebuild(c, pool, k[j]), true, "partial state and its rebuild " + Show(k[j]));
      Know kk = k[j];
      const std::string& a = c.rng.Pick(pool.atoms);
      const int change = c.rng.Below(3);
      if (change == 0) kk.erase(a);
      else kk[a] = change == 1;
      Compare(c, s[j], Rebuild(c, pool, kk), kk == k[j], Show(k[j]) + " vs " + Show(kk));
    }
    c.Seen(Show(k[j]));
    if (logs[j].size() > 5000) logs[j] = "(long) ";
  }
  for (int j = 0; j < kSlots; j++) Observe(c, pool, s[j], k[j], logs[j]);
  std::vector<std::pair<PartialState, Know>> fam;
  for (int j = 0; j < kSlots; j++) fam.emplace_back(s[j], k[j]);
  for (int n = 0; n < 5; n++) {
    Know kk = c.rng.Pick(k);
    for (int i = c.rng.Below(3); i > 0; i--) kk[c.rng.Pick(pool.atoms)] = c.rng.Chance(50);
    fam.emplace_back(Rebuild(c, pool, kk), kk);
  }
  for (const auto& x : fam) {
    for (const auto& y : fam) {
      Compare(c, x.first, y.first, x.second == y.second, Show(x.second) + " vs " + Show(y.second));
      for (const auto& z : fam) {
        if (x.first < y.first && y.first < z.first) {
          c.Check(x.first < z.first, "order-transitive", "order is not transitive");
        }
      }
    }
  }
  if (c.idx < 3) c.Sample(logs[0].substr(0, 600));
}
