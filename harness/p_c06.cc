// C06: the state index against the list of declared atoms.
#include "large.h"
#include "world.h"

namespace {

using symbolic::Proposition;
using symbolic::State;
using symbolic::StateIndex;

struct Truth {
  std::vector<std::string> at;            // position -> fact, as first observed
  std::map<std::string, size_t> pos;
};

// Full look at one index; fills `truth` the first time, compares with it afterwards.
void CheckIndex(Ctx& c, const symbolic::Pddl& pddl, const ref::Model& m, const StateIndex& index, Truth* truth,
                const std::string& what) {
  const std::vector<std::string> atoms = m.Atoms();
  if (!c.Equal(index.size(), atoms.size(), "size", "size() of " + what)) return;
  std::vector<size_t> order(atoms.size());
  for (size_t i = 0; i < order.size(); i++) order[i] = i;
  c.rng.Shuffle(&order);
  std::vector<std::string> at(atoms.size());
  // Positions and facts in random order, each possibly several times: earlier lookups must not matter.
  for (const size_t i : order) {
    if (c.rng.Chance(40)) {
      const std::string& a = c.rng.Pick(atoms);
      const size_t k = index.GetPropositionIndex(Proposition(pddl, a));
      c.Equal(k < atoms.size() ? index.GetProposition(k).to_string() : "position out of range", a, "round-trip-fact",
              "fact -> position -> fact in " + what);
      c.Count("fact round trips");
    }
    const Proposition p = index.GetProposition(i);
    at[i] = p.to_string();
    c.Equal(index.GetPropositionIndex(p), i, "round-trip-position", "position -> fact -> position in " + what);
    if (c.rng.Chance(30)) c.Equal(index.GetProposition(i).to_string(), at[i], "repeat", "second lookup in " + what);
    c.Count("position round trips");
  }
  // Facts that are no instance are rejected, however often they are asked for.
  const ref::Typed objects = m.objects();
  for (int k = 0; k < 6 && !objects.empty(); k++) {
    const ref::Pred& pred = c.rng.Pick(m.preds);
    ref::Args args;
    for (size_t n = c.rng.Chance(60) ? pred.params.size() : c.rng.Below(pred.params.size() + 3); n > 0; n--) {
      args.push_back(c.rng.Pick(objects).first);
    }
    const std::string name = c.rng.Chance(15) ? "undeclared" : pred.name;
    if (std::find(atoms.begin(), atoms.end(), ref::Fact(name, args)) != atoms.end()) continue;
    const Proposition wrong(name, ToArgs(pddl, args));
    for (int again = 0; again < 2; again++) {
      const std::string e = Throws([&] { index.GetPropositionIndex(wrong); });
      c.Check(!e.empty(), "foreign-fact", "the position of " + ref::Fact(name, args) + ", which is no instance, is given by " + what);
    }
    State state;
    state.insert(wrong);
    c.Check(!Throws([&] { index.GetIndexedState(state); }).empty(), "foreign-fact", "a state with " + ref::Fact(name, args) + " has bits in " + what);
    c.Count("facts without position");
  }
  std::vector<std::string> sorted = at;
  std::sort(sorted.begin(), sorted.end());
  std::vector<std::string> expected = atoms;
  std::sort(expected.begin(), expected.end());
  c.Check(sorted == expected, "facts", what + " has positions for " + Ctx::Str(sorted) + ", expected " + Ctx::Str(expected));
  if (truth->at.empty()) {
    truth->at = at;
    for (size_t i = 0; i < at.size(); i++) truth->pos[at[i]] = i;
  }
  c.Check(at == truth->at, "same-order", what + " orders the facts " + Ctx::Str(at) + ", originally " + Ctx::Str(truth->at));
  // Iteration.
  std::vector<std::string> fwd, bwd;
  for (auto it = index.begin(); it != index.end(); ++it) fwd.push_back(it->to_string());
  for (auto it = index.end(); it != index.begin();) bwd.push_back((*--it).to_string());
  c.Check(fwd == truth->at, "iteration", "iterating over " + what + " visits " + Ctx::Str(fwd) + ", positions hold " + Ctx::Str(truth->at));
  c.Check(std::vector<std::string>(bwd.rbegin(), bwd.rend()) == truth->at, "iteration", "backward iteration over " + what);
  c.Equal(static_cast<size_t>(index.end() - index.begin()), atoms.size(), "iteration", "end() - begin() of " + what);
  if (!atoms.empty()) {
    auto it = index.begin();
    int pos = 0;
    for (int k = 0; k < 20; k++) {
      const int to = c.rng.Below(atoms.size());
      switch (c.rng.Below(7)) {
        case 0:
          it += to - pos;
          break;
        case 4:
          it = it - (pos - to);
          break;
        case 5: {  // one step forwards
          const auto old = it++;
          c.Check(it - old == 1 && old - it == -1 && (*old).to_string() == truth->at[pos], "iterator", "it++ of " + what);
          if (++pos == static_cast<int>(atoms.size())) {
            c.Check(it == index.end(), "iterator", "it++ to the end of " + what);
            --it;
            --pos;
          }
          it += to - pos;
          break;
        }
        case 6: {  // one step backwards
          if (pos == 0) {
            it += atoms.size();
            pos = static_cast<int>(atoms.size());
          }
          const auto old = it--;
          pos--;
          c.Check(it - old == -1 && it->to_string() == truth->at[pos], "iterator", "it-- of " + what);
          it += to - pos;
          break;
        }
        case 1:
          it -= pos - to;
          break;
        case 2:
          it = it + (to - pos);
          break;
        default:
          c.Equal(it[to - pos].to_string(), truth->at[to], "iterator", "it[] of " + what);
          it = (to - pos) + it;
      }
      pos = to;
      c.Equal((*it).to_string(), truth->at[pos], "iterator", "iterator at " + std::to_string(pos) + " of " + what);
      const auto other = index.begin() + static_cast<int>(c.rng.Below(atoms.size()));
      const int q = other - index.begin();
      c.Check((it < other) == (pos < q) && (it == other) == (pos == q) && (it >= other) == (pos >= q) && (it > other) == (pos > q) &&
                  (it <= other) == (pos <= q) && (it != other) == (pos != q) && (it - other) == pos - q,
              "iterator-compare", "iterator comparison in " + what);
    }
  }
}

void CheckStates(Ctx& c, const symbolic::Pddl& pddl, const StateIndex& index, const Truth& truth, gen::Gen* g,
                 const ref::Model& m, const std::string& what) {
  std::vector<ref::State> states = {{}, m.init, ref::State(truth.at.begin(), truth.at.end())};
  for (const int p : {5, 50, 90}) states.push_back(g->RandomState(m, p, true));
  for (const ref::State& s : states) {
    const State state = ToState(pddl, s);
    const StateIndex::IndexedState bits = index.GetIndexedState(state);
    if (!c.Equal(static_cast<size_t>(bits.size()), truth.at.size(), "bits-size", "length of the bit vector of " + what)) return;
    for (size_t i = 0; i < truth.at.size(); i++) {
      c.Check(bits(i) == (s.count(truth.at[i]) > 0), "bits", "bit " + std::to_string(i) + " (" + truth.at[i] + ") of " + Ctx::Str(s) + " in " + what);
    }
    c.Check(Facts(state) == s, "bits-input", "GetIndexedState changed its argument");
    const State back = index.GetState(bits);
    c.Check(back == state && Facts(back) == s, "state-round-trip", "bit vector of " + Ctx::Str(s) + " reads back as " + Ctx::Str(Facts(back)) + " in " + what);
    c.Count("states round-tripped");
    c.Seen(what + Ctx::Str(s));
  }
  for (int k = 0; k < 3; k++) {
    StateIndex::IndexedState bits = StateIndex::IndexedState::Zero(truth.at.size());
    ref::State s;
    for (size_t i = 0; i < truth.at.size(); i++) {
      bits(i) = c.rng.Chance(40);
      if (bits(i)) s.insert(truth.at[i]);
    }
    const State state = index.GetState(bits);
    c.Check(Facts(state) == s, "bits-to-state", "bits of " + Ctx::Str(s) + " read as " + Ctx::Str(Facts(state)) + " in " + what);
    c.Check((index.GetIndexedState(state) == bits).all(), "bits-round-trip", "bits -> state -> bits in " + what);
  }
}

// An index with more facts than can be enumerated.
void RunLarge(Ctx& c) {
  const large::LargeWorld w = large::Make(c);
  const symbolic::Pddl& pddl = *w.pddl;
  const StateIndex plain(pddl.predicates(), false), cached(pddl.predicates(), true);
  const StateIndex copy = cached;
  const std::vector<const StateIndex*> all = {&plain, &cached, &copy, &pddl.state_index()};
  for (const StateIndex* index : all) {
    c.Equal(static_cast<long>(index->size()), w.size, "size", "size() of a large index");
    c.Equal(static_cast<long>(index->end() - index->begin()), w.size, "iteration", "end() - begin() of a large index");
  }
  if (w.size == 0) return;
  const auto known = [&](const Proposition& p) {
    for (const large::Pred& q : w.preds) {
      if (q.name != p.name() || q.options.size() != p.arguments().size()) continue;
      for (size_t i = 0; i < q.options.size(); i++) {
        if (std::find(q.options[i].begin(), q.options[i].end(), p.arguments()[i].name()) == q.options[i].end()) return false;
      }
      return true;
    }
    return false;
  };
  std::map<std::string, size_t> seen;
  auto it = plain.begin();
  for (int k = 0; k < 60; k++) {
    const StateIndex& index = *c.rng.Pick(all);
    size_t pos;
    std::string fact;
    if (c.rng.Chance(50)) {
      const large::Pred& p = c.rng.Pick(w.preds);
      if (p.size == 0) continue;
      fact = ref::Fact(p.name, large::Tuple(c, p));
      pos = index.GetPropositionIndex(Proposition(pddl, fact));
      if (!c.Check(pos < static_cast<size_t>(w.size), "position", "position of " + fact + " is " + std::to_string(pos) + " of " + std::to_string(w.size))) continue;
      c.Equal(index.GetProposition(pos).to_string(), fact, "round-trip-fact", "fact -> position " + std::to_string(pos) + " -> fact in a large index");
    } else {
      pos = large::Position(c, w.size);
      const Proposition p = index.GetProposition(pos);
      fact = p.to_string();
      c.Check(known(p), "facts", "position " + std::to_string(pos) + " of a large index holds " + fact + ", which is no instance");
      c.Equal(index.GetPropositionIndex(p), pos, "round-trip-position", "position -> " + fact + " -> position in a large index");
    }
    const auto known_pos = seen.emplace(fact, pos).first;
    c.Equal(pos, known_pos->second, "same-order", "position of " + fact + " in another large index");
    it += static_cast<long>(pos) - (it - plain.begin());
    c.Equal(it->to_string(), fact, "iterator", "iterator at " + std::to_string(pos) + " of a large index");
    c.Equal(static_cast<size_t>(plain.end() - it), w.size - pos, "iterator", "distance to the end");
    c.Check((it < plain.begin() + w.size / 2) == (pos < static_cast<size_t>(w.size / 2)), "iterator-compare", "comparison at " + std::to_string(pos));
    c.Count("lookups in large indices");
  }
  c.Count(w.size > (1L << 31) ? "indices beyond 2^31" : "large indices");
  c.Seen("large" + std::to_string(w.size));
}

}  // namespace

void RunCase(Ctx& c) {
  if (c.rng.Chance(10)) return RunLarge(c);
  gen::Opts o;
  o.max_objects = c.rng.Range(1, 7);
  o.max_preds = c.rng.Range(2, 7);
  o.depth = 1;
  o.derived = c.rng.Chance(30);
  gen::Gen g(&c.rng, o);
  const World w = MakeWorld(c, &g);
  const symbolic::Pddl& pddl = *w.pddl;
  const ref::Model& m = w.m();
  c.Count("indices");
  for (const ref::Pred& p : m.preds) {
    if (p.params.empty()) c.Count("predicates without parameters");
    if (m.Tuples(p.params).empty()) c.Count("predicates without instances");
  }

  Truth truth;
  const StateIndex plain(pddl.predicates(), false);
  CheckIndex(c, pddl, m, plain, &truth, "uncached index");
  if (truth.at.empty()) return;
  const StateIndex cached(pddl.predicates(), true);
  // A cold copy, before any lookups.
  const StateIndex cold = cached;
  if (c.rng.Chance(50)) {
    for (const std::string& a : truth.at) {
      if (c.rng.Chance(50)) {
        c.Equal(cached.GetPropositionIndex(Proposition(pddl, a)), truth.pos.at(a), "position", "position of " + a);
      }
    }
  }
  CheckIndex(c, pddl, m, cached, &truth, "cached index");
  CheckStates(c, pddl, cached, truth, &g, m, "cached index");
  CheckStates(c, pddl, plain, truth, &g, m, "uncached index");
  CheckIndex(c, pddl, m, pddl.state_index(), &truth, "the problem's index");
  CheckStates(c, pddl, pddl.state_index(), truth, &g, m, "the problem's index");
  auto warm = std::make_unique<StateIndex>(cached);
  StateIndex assigned = plain;
  assigned = *warm;
  const StateIndex moved = std::move(*warm);
  warm.reset();
  CheckIndex(c, pddl, m, cold, &truth, "cold copy");
  CheckStates(c, pddl, cold, truth, &g, m, "cold copy");
  CheckIndex(c, pddl, m, assigned, &truth, "assigned index");
  CheckIndex(c, pddl, m, moved, &truth, "moved index");
  CheckStates(c, pddl, moved, truth, &g, m, "moved index");
  // Facts of an independent load are the same by name.
  const auto other = Load(c, w.d);
  for (int k = 0; k < 10; k++) {
    const std::string& a = c.rng.Pick(truth.at);
    const StateIndex& index = k % 2 ? cached : plain;
    c.Equal(index.GetPropositionIndex(Proposition(*other, a)), truth.pos.at(a), "other-load", "position of " + a + " of another load");
  }
  if (c.idx < 3) c.Sample(Ctx::Str(truth.at).substr(0, 800));
}
