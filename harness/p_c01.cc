// C01: states against std::set, over histories of operations.
#include <iterator>

#include "world.h"

namespace {

using symbolic::Proposition;
using symbolic::State;

struct Slot {
  State s;
  ref::State m;
};

struct Pool {
  const symbolic::Pddl* pddl;
  const symbolic::Pddl* other;  // an independent load of the same problem
  std::vector<std::string> atoms;
  std::vector<Proposition> props;
};

// A random walk of an iterator, which must show the facts at the positions of the first forward pass.
template <typename It>
void Walk(Ctx& c, It begin, It end, const std::vector<std::string>& fwd, const std::string& what) {
  const size_t n = fwd.size();
  size_t pos = c.rng.Chance(50) ? 0 : n;
  It it = pos == 0 ? begin : end;
  for (int k = c.rng.Range(2, 12); k > 0; k--) {
    const bool back = pos == n || (pos > 0 && c.rng.Chance(50));
    if (back && pos == 0) break;
    if (c.rng.Chance(50)) {
      It& moved = back ? --it : ++it;
      c.Check(&moved == &it, "walk", what + ": a move returns another iterator");
    } else {
      const It old = back ? it-- : it++;
      if (pos < n) c.Check(old->to_string() == fwd[pos], "walk", what + ": value of a postfix move");
      c.Check(pos < n || old == end, "walk", what + ": a postfix move from the end");
    }
    pos += back ? -1 : 1;
    c.Check((it == begin) == (pos == 0) && (it == end) == (pos == n) && (it != end) == (pos != n), "walk",
            what + ": position " + std::to_string(pos) + " of " + std::to_string(n));
    if (pos < n) {
      c.Check((*it).to_string() == fwd[pos] && it->to_string() == fwd[pos], "walk",
              what + ": position " + std::to_string(pos) + " shows " + (*it).to_string());
    }
    c.Count("moves of iterators");
  }
}

// Every observer of one state.
void Observe(Ctx& c, const Pool& pool, const Slot& slot, const std::string& log) {
  const State& s = slot.s;
  const std::string at = "\nhistory: " + log;
  c.Equal(s.size(), slot.m.size(), "size", "size()" + at);
  c.Equal(s.empty(), slot.m.empty(), "empty", "empty()" + at);
  std::vector<std::string> fwd, mut, bwd, mbwd;
  for (auto it = s.begin(); it != s.end(); ++it) fwd.push_back(it->to_string());
  State& ms = const_cast<State&>(s);
  for (auto it = ms.begin(); it != ms.end(); it++) mut.push_back((*it).to_string());
  for (auto it = s.end(); it != s.begin();) bwd.push_back((*--it).to_string());
  for (auto it = ms.end(); it != ms.begin();) {
    const auto old = it--;
    (void)old;
    mbwd.push_back(it->to_string());
  }
  const std::vector<std::string> rev(fwd.rbegin(), fwd.rend());
  std::vector<std::string> sorted = fwd;
  std::sort(sorted.begin(), sorted.end());
  c.Check(sorted == std::vector<std::string>(slot.m.begin(), slot.m.end()), "facts",
          "iteration visits " + Ctx::Str(sorted) + ", expected each of " + Ctx::Str(slot.m) + " once" + at);
  c.Check(bwd == rev, "backwards", "backward iteration visits " + Ctx::Str(bwd) + ", forward " + Ctx::Str(fwd) + at);
  c.Check(mut == fwd && mbwd == rev, "mutable-iteration", "mutable iterators visit other facts" + at);
  for (size_t i = 0; i < pool.atoms.size(); i++) {
    c.Check(s.contains(pool.props[i]) == (slot.m.count(pool.atoms[i]) > 0), "contains",
            "contains(" + pool.atoms[i] + ")" + at);
  }
  Walk(c, s.begin(), s.end(), fwd, "iterator" + at);
  Walk(c, ms.begin(), ms.end(), fwd, "mutable iterator" + at);
  const auto strs = s.Stringify();
  c.Check(ref::State(strs.begin(), strs.end()) == slot.m && strs.size() == slot.m.size(), "stringify",
          "Stringify() differs" + at);
  std::stringstream ss;
  ss << s;
  std::string expected = "{ ";
  std::string sep;
  for (const std::string& f : slot.m) {
    expected += sep + f;
    sep = ", ";
  }
  c.Equal(ss.str(), expected + " }", "print", "printed state" + at);
}

// Two-state laws; `same` says whether they must be equal.
void Compare(Ctx& c, const State& a, const State& b, bool same, const std::string& what) {
  c.Equal(a == b, same, "eq", what + ": ==");
  c.Equal(b == a, same, "eq", what + ": == (swapped)");
  c.Equal(a != b, !same, "eq", what + ": !=");
  c.Equal((a < b) + (b < a), same ? 0 : 1, "order", what + ": number of directions in which < holds");
  if (same) c.Check(std::hash<State>{}(a) == std::hash<State>{}(b), "hash", what + ": equal states hash differently");
}

State Rebuild(Ctx& c, const Pool& pool, const ref::State& m) {
  std::vector<std::string> facts(m.begin(), m.end());
  c.rng.Shuffle(&facts);
  State s;
  switch (c.rng.Below(5)) {
    case 0:
      return State(*pool.pddl, std::unordered_set<std::string>(facts.begin(), facts.end()));
    case 1: {
      std::vector<Proposition> props;
      for (const std::string& f : facts) props.emplace_back(*pool.pddl, f);
      const bool changed = s.insert(props.begin(), props.end());
      c.Equal(changed, !props.empty(), "range-report", "range insert into an empty state reports change");
      return s;
    }
    case 2: {
      // By way of extra facts, so that the storage grows and shrinks.
      std::vector<std::string> extra;
      for (const std::string& a : pool.atoms) {
        if (m.count(a) == 0 && c.rng.Chance(50)) extra.push_back(a);
      }
      for (const std::string& a : extra) s.emplace(*pool.pddl, a);
      for (const std::string& f : facts) s.emplace(*pool.pddl, f);
      c.rng.Shuffle(&extra);
      for (const std::string& a : extra) s.erase(Proposition(*pool.pddl, a));
      return s;
    }
    case 3:
      // Facts read by another load of the problem: the same by name.
      for (const std::string& f : facts) s.emplace(*pool.other, f);
      return s;
    default:
      for (const std::string& f : facts) s.emplace(*pool.pddl, f);
      return s;
  }
}

State FromList(const Pool& pool, const std::vector<size_t>& i) {
  const auto& p = pool.props;
  switch (i.size()) {
    case 0:
      return State{};
    case 1:
      return State{p[i[0]]};
    case 2:
      return State{p[i[0]], p[i[1]]};
    case 3:
      return State{p[i[0]], p[i[1]], p[i[2]]};
    case 4:
      return State{p[i[0]], p[i[1]], p[i[2]], p[i[3]]};
    default:
      return State{p[i[0]], p[i[1]], p[i[2]], p[i[3]], p[i[4]]};
  }
}

}  // namespace

void RunCase(Ctx& c) {
  gen::Opts o;
  o.max_objects = c.rng.Range(1, 8);
  o.max_preds = c.rng.Range(2, 6);
  o.max_actions = 1;
  o.depth = 1;
  gen::Gen g(&c.rng, o);
  const World w = MakeWorld(c, &g);
  const auto other = Load(c, w.d);
  Pool pool;
  pool.pddl = w.pddl.get();
  pool.other = other.get();
  pool.atoms = w.m().Atoms();
  // Small pools make collisions of histories likely, large ones exercise growth.
  c.rng.Shuffle(&pool.atoms);
  const size_t want = c.rng.Chance(50) ? c.rng.Range(1, 8) : 200;
  if (pool.atoms.size() > want) pool.atoms.resize(want);
  if (pool.atoms.empty()) {
    State s;
    c.Check(s.empty() && s.size() == 0 && s.begin() == s.end() && s == State(), "empty", "default state is empty");
    return;
  }
  std::sort(pool.atoms.begin(), pool.atoms.end());
  for (const std::string& a : pool.atoms) pool.props.emplace_back(*pool.pddl, a);
  c.context.clear();

  const int kSlots = 4;
  std::vector<Slot> slots(kSlots);
  std::vector<std::string> logs(kSlots);
  const int steps = c.rng.Range(20, c.thorough ? 400 : 150);
  // Phases that mostly insert or mostly erase.
  int bias = 50;
  for (int step = 0; step < steps; step++) {
    if (c.rng.Chance(5)) bias = std::vector<int>{15, 50, 85}[c.rng.Below(3)];
    const size_t k = c.rng.Below(kSlots);
    Slot& slot = slots[k];
    std::string& log = logs[k];
    const size_t i = c.rng.Below(pool.atoms.size());
    const std::string& a = pool.atoms[i];
    const bool in = slot.m.count(a) > 0;
    const int op = c.rng.Below(100);
    bool single = false;
    if (op < 62) {
      single = true;
      const bool ins = c.rng.Chance(bias);
      bool changed = false;
      std::string how;
      if (ins) {
        switch (c.rng.Below(6)) {
          case 0:
            changed = slot.s.insert(pool.props[i]);
            how = "insert";
            break;
          case 1: {
            Proposition p = pool.props[i];
            changed = slot.s.insert(std::move(p));
            how = "insert&&";
            break;
          }
          case 2:
            changed = slot.s.emplace(*pool.pddl, a);
            how = "emplace(text)";
            break;
          case 3:
            changed = slot.s.emplace(pool.props[i].name(), pool.props[i].arguments());
            how = "emplace(args)";
            break;
          case 4: {
            const std::string name = pool.props[i].name();
            const symbolic::PropositionRef p(&name, &pool.props[i].arguments(), std::hash<std::string>{}(name));
            changed = slot.s.insert(p);
            how = "insert(ref)";
            break;
          }
          default:
            changed = slot.s.insert(Proposition(*pool.other, a));
            how = "insert(other)";
        }
        slot.m.insert(a);
      } else {
        switch (c.rng.Below(3)) {
          case 0:
            changed = slot.s.erase(pool.props[i]);
            how = "erase";
            break;
          case 1: {
            const std::string name = pool.props[i].name();
            const symbolic::PropositionRef p(&name, &pool.props[i].arguments(), std::hash<std::string>{}(name));
            changed = slot.s.erase(p);
            how = "erase(ref)";
            break;
          }
          default:
            changed = slot.s.erase(Proposition(*pool.other, a));
            how = "erase(other)";
        }
        slot.m.erase(a);
      }
      log += how + " " + a + "; ";
      c.Equal(changed, ins != in, ins ? "insert-report" : "erase-report", how + " " + a + " reports change\nhistory: " + log);
      c.Equal(slot.s.contains(pool.props[i]), ins, "contains-after", a + " is in the state after " + how + "\nhistory: " + log);
      c.Count("single-fact operations");
      if (slot.s.size() != slot.m.size()) c.Equal(slot.s.size(), slot.m.size(), "size", "size()\nhistory: " + log);
    } else if (op < 68) {
      // Through a reference to the state's own element.
      if (slot.m.empty()) continue;
      auto it = slot.s.begin();
      for (size_t n = c.rng.Below(slot.m.size()); n > 0; n--) ++it;
      const std::string f = it->to_string();
      if (c.rng.Chance(50)) {
        c.Equal(slot.s.insert(*it), false, "insert-report", "inserting an own element reports change\nhistory: " + log);
      } else {
        c.Equal(slot.s.erase(*it), true, "erase-report", "erasing an own element reports change\nhistory: " + log);
        slot.m.erase(f);
      }
      log += "own element " + f + "; ";
    } else if (op < 74) {
      const size_t j = c.rng.Below(kSlots);
      if (c.rng.Chance(50)) {
        slot.s = slots[j].s;
      } else {
        State t(slots[j].s);
        slot.s = std::move(t);
        if (c.rng.Chance(50)) {
          t = slot.s;  // a moved-from state is usable again once assigned
          Compare(c, t, slot.s, true, "reassigned moved-from state");
          t.insert(pool.props[i]);
        }
      }
      slot.m = slots[j].m;
      log = "copy of [" + logs[j] + "]; ";
      if (log.size() > 3000) log = "(long) ";
    } else if (op < 78) {
      const size_t j = c.rng.Below(kSlots);
      if (j == k) continue;
      std::swap(slot.s, slots[j].s);
      std::swap(slot.m, slots[j].m);
      std::swap(logs[k], logs[j]);
    } else if (op < 82) {
      std::vector<size_t> idx;
      for (size_t n = c.rng.Below(6); n > 0; n--) idx.push_back(c.rng.Below(pool.atoms.size()));
      slot.s = FromList(pool, idx);
      slot.m.clear();
      for (const size_t n : idx) slot.m.insert(pool.atoms[n]);
      log = "list " + Ctx::Str(slot.m) + "; ";
    } else if (op < 88) {
      // Range insert: from propositions, from another state, from itself.
      const size_t j = c.rng.Below(kSlots);
      ref::State before = slot.m;
      bool changed = false;
      if (c.rng.Chance(50)) {
        const State src = slots[j].s;
        changed = slot.s.insert(src.begin(), src.end());
        slot.m.insert(slots[j].m.begin(), slots[j].m.end());
        log += "insert all of " + Ctx::Str(slots[j].m) + "; ";
      } else {
        std::vector<Proposition> ps;
        for (size_t n = c.rng.Below(5); n > 0; n--) ps.push_back(c.rng.Pick(pool.props));
        changed = slot.s.insert(ps.begin(), ps.end());
        log += "insert list";
        for (const Proposition& p : ps) {
          slot.m.insert(p.to_string());
          log += " " + p.to_string();
        }
        log += "; ";
      }
      c.Equal(changed, before != slot.m, "range-report", "range insert reports change\nhistory: " + log);
    } else if (op < 90) {
      slot.s = State();
      slot.m.clear();
      log.clear();
    } else if (op < 92) {
      slot.s.reserve(c.rng.Below(300));
    } else if (op < 95) {
      // A rebuilt state.
      const size_t j = c.rng.Below(kSlots);
      const ref::State m = slots[j].m;
      slot.s = Rebuild(c, pool, m);
      slot.m = m;
      log = "rebuilt " + Ctx::Str(m) + "; ";
      if (log.size() > 3000) log = "(long) ";
    } else {
      Observe(c, pool, slot, log);
    }
    if (slot.m.size() > 20) c.Count("states of more than 20 facts");
    if (!single || c.rng.Chance(15)) {
      const State again = Rebuild(c, pool, slot.m);
      Compare(c, slot.s, again, true, "state and its rebuild, " + Ctx::Str(slot.m) + "\nhistory: " + log);
      std::stringstream s1, s2;
      s1 << slot.s;
      s2 << again;
      c.Equal(s1.str(), s2.str(), "print-equal", "printing of equal states");
    }
    if (c.rng.Chance(20)) {
      // A close relative: one fact more, less or exchanged.
      ref::State m = slot.m;
      const std::string& b = c.rng.Pick(pool.atoms);
      if (!m.insert(b).second) m.erase(b);
      if (c.rng.Chance(40)) {
        const std::string& d = c.rng.Pick(pool.atoms);
        if (!m.insert(d).second) m.erase(d);
      }
      Compare(c, slot.s, Rebuild(c, pool, m), m == slot.m, Ctx::Str(slot.m) + " vs " + Ctx::Str(m));
      c.Count("comparisons with a close relative");
    }
    c.Seen(Ctx::Str(slot.m));
    if (log.size() > 6000) log = "(long) ";
  }
  for (int k = 0; k < kSlots; k++) Observe(c, pool, slots[k], logs[k]);

  // Order laws over a family: total, transitive, independent of how states were built.
  std::vector<std::pair<State, ref::State>> fam;
  for (const Slot& s : slots) fam.emplace_back(s.s, s.m);
  for (int n = 0; n < 8; n++) {
    ref::State m = c.rng.Pick(slots).m;
    for (int j = c.rng.Below(4); j > 0; j--) {
      const std::string& b = c.rng.Pick(pool.atoms);
      if (!m.insert(b).second) m.erase(b);
    }
    fam.emplace_back(Rebuild(c, pool, m), m);
  }
  std::set<State> sorted;
  std::unordered_set<State> hashed;
  std::set<ref::State> models;
  for (const auto& x : fam) {
    sorted.insert(x.first);
    hashed.insert(x.first);
    models.insert(x.second);
    const State x2 = Rebuild(c, pool, x.second);
    for (const auto& y : fam) {
      Compare(c, x.first, y.first, x.second == y.second, Ctx::Str(x.second) + " vs " + Ctx::Str(y.second));
      c.Check((x.first < y.first) == (x2 < y.first), "order-history", "the order of a state depends on how it was built: " + Ctx::Str(x.second) + " vs " + Ctx::Str(y.second));
      for (const auto& z : fam) {
        if (x.first < y.first && y.first < z.first) {
          c.Check(x.first < z.first, "order-transitive", Ctx::Str(x.second) + " < " + Ctx::Str(y.second) + " < " + Ctx::Str(z.second) + " is not transitive");
        }
      }
    }
  }
  c.Equal(sorted.size(), models.size(), "order-set", "size of a std::set of states");
  c.Equal(hashed.size(), models.size(), "hash-set", "size of a std::unordered_set of states");
  if (c.idx < 3) c.Sample(logs[0].substr(0, 600));
}
