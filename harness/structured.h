/**
 * Planning problems with real search spaces: travel on a graph, blocks, switches, towers.
 */
#ifndef VERIF_STRUCTURED_H_
#define VERIF_STRUCTURED_H_

#include "gen.h"

namespace gen {

inline Dom Structured(Rng* r) {
  Dom d;
  const auto id = [](const std::string& p, int i) { return p + std::to_string(i); };
  std::string objects, init, goal;
  const int kind = static_cast<int>(r->Below(4));
  if (kind == 0) {
    d.domain = R"((define (domain travel) (:requirements :strips :typing)
  (:types robot place - object)
  (:predicates (at ?r - robot ?p - place) (edge ?a - place ?b - place) (seen ?p - place))
  (:action move :parameters (?r - robot ?a - place ?b - place)
    :precondition (and (at ?r ?a) (edge ?a ?b))
    :effect (and (not (at ?r ?a)) (at ?r ?b)))
  (:action look :parameters (?r - robot ?p - place)
    :precondition (and (at ?r ?p) (not (seen ?p)))
    :effect (seen ?p)))
)";
    const int places = r->Range(2, 5), robots = r->Range(1, 2);
    for (int i = 0; i < robots; i++) objects += " " + id("r", i) + " - robot";
    for (int i = 0; i < places; i++) objects += " " + id("l", i) + " - place";
    for (int i = 0; i < robots; i++) init += " (at " + id("r", i) + " " + id("l", r->Below(places)) + ")";
    for (int i = 0; i < places; i++) {
      for (int j = 0; j < places; j++) {
        if (r->Chance(45)) init += " (edge " + id("l", i) + " " + id("l", j) + ")";
      }
    }
    goal = "(and (at r0 " + id("l", r->Below(places)) + ")" + (r->Chance(50) ? " (exists (?p - place) (seen ?p))" : "") + ")";
  } else if (kind == 1) {
    d.domain = R"((define (domain blocks) (:requirements :strips :typing :derived-predicates)
  (:types block - object)
  (:constants table - object)
  (:predicates (on ?a - block ?b - object) (held ?a - block) (clear ?a - object) (busy) (above ?a - block ?b - block))
  (:derived (clear ?b - object) (and (not (held ?b)) (or (= ?b table) (not (exists (?a - block) (on ?a ?b))))))
  (:derived (busy) (exists (?a - block) (held ?a)))
  (:derived (above ?a - block ?b - block) (or (on ?a ?b) (exists (?c - block) (and (on ?a ?c) (above ?c ?b)))))
  (:action pick :parameters (?a - block ?b - object)
    :precondition (and (not (busy)) (clear ?a) (on ?a ?b))
    :effect (and (held ?a) (not (on ?a ?b))))
  (:action place :parameters (?a - block ?b - object)
    :precondition (and (held ?a) (clear ?b) (not (= ?a ?b)))
    :effect (and (not (held ?a)) (on ?a ?b))))
)";
    const int blocks = r->Range(2, 3);
    for (int i = 0; i < blocks; i++) objects += " " + id("b", i) + " - block";
    std::vector<std::string> tops = {};
    for (int i = 0; i < blocks; i++) {
      if (!tops.empty() && r->Chance(50)) {
        init += " (on " + id("b", i) + " " + tops.back() + ")";
        tops.back() = id("b", i);
      } else {
        init += " (on " + id("b", i) + " table)";
        tops.push_back(id("b", i));
      }
    }
    goal = r->Chance(50) ? "(on b0 b1)" : "(and (above b0 b1) (not (busy)))";
  } else if (kind == 2) {
    d.domain = R"((define (domain switches) (:requirements :adl)
  (:types lamp - object)
  (:predicates (lit ?l - lamp) (next ?a - lamp ?b - lamp) (used ?l - lamp))
  (:action press :parameters (?l - lamp)
    :precondition (not (used ?l))
    :effect (and (used ?l)
      (when (lit ?l) (not (lit ?l)))
      (when (not (lit ?l)) (lit ?l))
      (forall (?n - lamp) (and
        (when (and (next ?l ?n) (lit ?n)) (not (lit ?n)))
        (when (and (next ?l ?n) (not (lit ?n))) (lit ?n)))))))
)";
    const int lamps = r->Range(2, 4);
    for (int i = 0; i < lamps; i++) {
      objects += " " + id("s", i) + " - lamp";
      if (r->Chance(50)) init += " (lit " + id("s", i) + ")";
      for (int j = 0; j < lamps; j++) {
        if (i != j && r->Chance(35)) init += " (next " + id("s", i) + " " + id("s", j) + ")";
      }
    }
    goal = r->Chance(70) ? "(forall (?l - lamp) (lit ?l))" : "(not (exists (?l - lamp) (lit ?l)))";
  } else {
    d.domain = R"((define (domain towers) (:requirements :strips)
  (:predicates (smaller ?a ?b) (on ?a ?b) (clear ?a) (disk ?a))
  (:action move :parameters (?d ?from ?to)
    :precondition (and (disk ?d) (clear ?d) (clear ?to) (on ?d ?from) (smaller ?d ?to))
    :effect (and (not (clear ?to)) (on ?d ?to) (not (on ?d ?from)) (clear ?from))))
)";
    const int disks = r->Range(1, 3);
    objects = " p0 p1 p2";
    for (int i = 0; i < disks; i++) {
      objects += " " + id("d", i);
      init += " (disk " + id("d", i) + ")";
      for (int p = 0; p < 3; p++) init += " (smaller " + id("d", i) + " " + id("p", p) + ")";
      for (int j = i + 1; j < disks; j++) init += " (smaller " + id("d", i) + " " + id("d", j) + ")";
      init += " (on " + id("d", i) + " " + (i + 1 < disks ? id("d", i + 1) : "p0") + ")";
    }
    init += " (clear d0) (clear p1) (clear p2)";
    goal = r->Chance(50) ? "(on " + id("d", disks - 1) + " p2)" : "(exists (?x) (and (disk ?x) (on ?x p1)))";
  }
  d.m.Load(d.domain, "");
  d.problem = "(define (problem prob)\n  (:domain " + d.m.name + ")\n  (:objects" + objects + ")\n  (:init" + init + ")\n  (:goal " + goal + "))\n";
  d.m = ref::Model();
  d.m.Load(d.domain, d.problem);
  return d;
}

// A token on a long ring of places, with few chords: every walk comes back to its own ancestors, late.
inline Dom Ring(Rng* r, int* places) {
  Dom d;
  const auto id = [](const std::string& p, int i) { return p + std::to_string(i); };
  const int n = *places = r->Range(3, 13);
  std::string objects, init;
  for (int i = 0; i < n; i++) {
    objects += " " + id("l", i);
    init += " (next " + id("l", i) + " " + id("l", (i + 1) % n) + ")";
    // Backwards or across, rarely.
    if (r->Chance(6)) init += " (next " + id("l", i) + " " + id("l", r->Below(n)) + ")";
  }
  init += " (at " + id("l", r->Below(n)) + ")";
  const bool marks = r->Chance(25), odd = r->Chance(30);
  d.domain = std::string("(define (domain ring) (:requirements :adl)\n") +
             " (:predicates (at ?p) (next ?a ?b)" + (marks ? " (first)" : "") + (odd ? " (odd)" : "") + ")\n" +
             " (:action move :parameters (?a ?b) :precondition (and (at ?a) (next ?a ?b))\n" +
             "  :effect (and (not (at ?a)) (at ?b)" + (odd ? " (when (odd) (not (odd))) (when (not (odd)) (odd))" : "") + "))\n" +
             (marks ? " (:action mark :parameters () :precondition (at l0) :effect (first))\n" : "") + ")\n";
  d.problem = "(define (problem prob)\n  (:domain ring)\n  (:objects" + objects + ")\n  (:init" + init + ")\n  (:goal " +
              (r->Chance(70) ? "(at " + id("l", r->Below(n)) + ")" : "(exists (?x) (and (at ?x) (next ?x l0)))") + "))\n";
  d.m.Load(d.domain, d.problem);
  return d;
}

// Axioms whose consequences wait for each other in chains, along predicates or along objects.
inline Dom Chain(Rng* r, bool long_chain = false) {
  Dom d;
  const auto id = [](const std::string& p, int i) { return p + std::to_string(i); };
  const int n = long_chain ? r->Range(52, 64) : r->Range(2, 9);
  std::string objects, init, preds;
  std::vector<std::string> axioms;
  if (long_chain || r->Chance(60)) {
    const int objs = long_chain ? 1 : r->Range(1, 2);
    for (int i = 0; i < objs; i++) objects += " " + id("o", i);
    std::vector<bool> sign;
    for (int i = 0; i <= n; i++) {
      preds += " (" + id("p", i) + " ?x)";
      sign.push_back(r->Chance(70));
      for (int j = 0; j < objs; j++) {
        if (r->Chance(i == 0 ? (sign[0] ? 80 : 20) : (sign[i] ? 10 : 90))) init += " (" + id("p", i) + " " + id("o", j) + ")";
      }
    }
    const auto lit = [&](int i) {
      const std::string a = "(" + id("p", i) + " ?x)";
      return sign[i] ? a : "(not " + a + ")";
    };
    const bool clear = r->Chance(70);
    for (int j = 0; j < objs; j++) {
      if (clear || r->Chance(50)) init += " (c " + id("o", j) + ")";
    }
    for (int i = 0; i < n; i++) {
      const bool swap = r->Chance(20);  // the chain as the context, c as the condition
      axioms.push_back(" (:axiom :vars (?x) :context " + (swap ? lit(i) : "(c ?x)") + " :implies (when " +
                       (swap ? "(c ?x)" : lit(i)) + " " + lit(i + 1) + "))\n");
    }
    preds += " (c ?x)";
  } else {
    const int objs = std::min(n, 64);
    const bool sign = r->Chance(70), up = r->Chance(50);
    for (int i = 0; i < objs; i++) objects += " " + id("o", i);
    for (int i = 0; i + 1 < objs; i++) {
      if (!r->Chance(97)) continue;
      init += " (next " + id("o", up ? i : i + 1) + " " + id("o", up ? i + 1 : i) + ")";
    }
    for (int i = 0; i < objs; i++) {
      const bool start = i == (up ? 0 : objs - 1);
      if (start == sign) init += " (r " + id("o", i) + ")";
    }
    const std::string a = sign ? "(r ?x)" : "(not (r ?x))", b = sign ? "(r ?y)" : "(not (r ?y))";
    axioms.push_back(" (:axiom :vars (?x ?y) :context (next ?x ?y) :implies (when " + a + " " + b + "))\n");
    preds = " (next ?x ?y) (r ?x)";
  }
  const int order = static_cast<int>(r->Below(3));
  if (order == 1) std::reverse(axioms.begin(), axioms.end());
  if (order == 2) r->Shuffle(&axioms);
  d.domain = "(define (domain chain) (:requirements :adl)\n (:predicates" + preds + ")\n";
  for (const std::string& a : axioms) d.domain += a;
  d.domain += " (:action wait :parameters () :precondition (and) :effect (and)))\n";
  d.problem = "(define (problem prob)\n  (:domain chain)\n  (:objects" + objects + ")\n  (:init" + init + ")\n  (:goal (and)))\n";
  d.m.Load(d.domain, d.problem);
  return d;
}

// Derivation rules that need many rounds or many strata, along predicates or along objects.
inline Dom DerivedFamily(Rng* r) {
  Dom d;
  const auto id = [](const std::string& p, int i) { return p + std::to_string(i); };
  std::string objects, init, preds, actions;
  std::vector<std::string> rules;
  const int kind = static_cast<int>(r->Below(5));
  if (kind == 0) {
    // A chain of predicates, sometimes negated: as many strata as negations.
    const int n = r->Chance(8) ? r->Range(40, 70) : r->Range(3, 12);
    preds = " (base ?x)";
    for (int i = 0; i < n; i++) {
      preds += " (" + id("d", i) + " ?x)";
      const std::string from = i == 0 ? "(base ?x)" : "(" + id("d", i - 1) + " ?x)";
      rules.push_back("(:derived (" + id("d", i) + " ?x) " + (r->Chance(20) ? "(not " + from + ")" : from) + ")");
      if (r->Chance(10)) rules.push_back("(:derived (" + id("d", i) + " ?x) (" + id("d", r->Below(i + 1)) + " ?x))");
    }
    const int objs = r->Range(1, 2);
    for (int i = 0; i < objs; i++) {
      objects += " " + id("o", i);
      if (r->Chance(60)) init += " (base " + id("o", i) + ")";
    }
    actions = " (:action set :parameters (?x) :precondition (not (base ?x)) :effect (base ?x))\n"
              " (:action clear :parameters (?x) :precondition (base ?x) :effect (not (base ?x)))\n"
              " (:action shift :parameters (?x) :precondition (d1 ?x) :effect (when (" + id("d", n - 1) + " ?x) (not (base ?x))))\n";
  } else {
    const int n = r->Range(2, kind == 3 ? 4 : 7);
    const bool up = r->Chance(50);
    for (int i = 0; i < n; i++) objects += " " + id("o", i);
    for (int i = 0; i + 1 < n; i++) {
      if (r->Chance(92)) init += " (next " + id("o", up ? i : i + 1) + " " + id("o", up ? i + 1 : i) + ")";
    }
    for (int k = r->Range(0, 2); k > 0; k--) init += " (next " + id("o", r->Below(n)) + " " + id("o", r->Below(n)) + ")";
    init += " (zero " + id("o", up ? 0 : n - 1) + ")";
    preds = " (next ?x ?y) (zero ?x)";
    std::string last;
    if (kind == 1) {  // two predicates that need each other
      preds += " (even ?x) (odd ?x)";
      rules = {"(:derived (even ?x) (or (zero ?x) (exists (?y) (and (next ?y ?x) (odd ?y)))))",
               "(:derived (odd ?x) (exists (?y) (and (even ?y) (next ?y ?x))))"};
      last = "even";
    } else if (kind == 2) {  // recursion below a universal quantifier
      preds += " (safe ?x) (risky ?x)";
      rules = {"(:derived (safe ?x) (forall (?y) (or (not (next ?x ?y)) (safe ?y))))",
               "(:derived (risky ?x) (and (not (safe ?x)) (not (zero ?x))))"};
      last = "safe";
    } else if (kind == 3) {  // recursion that joins two of its own facts
      preds += " (path ?x ?y) (safe ?x)";
      rules = {"(:derived (path ?x ?y) (next ?x ?y))",
               "(:derived (path ?x ?y) (exists (?z) (and (path ?x ?z) (path ?z ?y))))",
               "(:derived (safe ?x) (exists (?y) (and (zero ?y) (path ?y ?x))))"};
      last = "safe";
    } else {  // three predicates in a ring, one of them also needing a lower stratum
      preds += " (ra ?x) (rb ?x) (rc ?x) (blocked ?x)";
      rules = {"(:derived (ra ?x) (or (zero ?x) (exists (?y) (and (rc ?y) (next ?y ?x)))))",
               "(:derived (rb ?x) (exists (?y) (and (ra ?y) (next ?y ?x) (not (blocked ?x)))))",
               "(:derived (rc ?x) (and (rb ?x) (not (blocked ?x))))",
               "(:derived (blocked ?x) (exists (?y) (and (next ?x ?y) (zero ?y) (not (= ?x ?y)))))"};
      last = "rc";
    }
    actions = " (:action link :parameters (?x ?y) :precondition (" + last + " ?x) :effect (next ?x ?y))\n"
              " (:action cut :parameters (?x ?y) :precondition (next ?x ?y) :effect (and (not (next ?x ?y)) (when (" + last + " ?y) (zero ?x))))\n"
              " (:action turn :parameters (?x) :precondition (not (" + last + " ?x)) :effect (forall (?y) (when (" + last + " ?y) (not (zero ?y)))))\n";
  }
  if (r->Chance(50)) r->Shuffle(&rules);
  else if (r->Chance(50)) std::reverse(rules.begin(), rules.end());
  d.domain = "(define (domain derived) (:requirements :adl :derived-predicates)\n (:predicates" + preds + ")\n";
  for (const std::string& a : rules) d.domain += " " + a + "\n";
  d.domain += actions + ")\n";
  d.problem = "(define (problem prob)\n  (:domain derived)\n  (:objects" + objects + ")\n  (:init" + init + ")\n  (:goal " +
              (kind == 0 ? "(forall (?x) (d1 ?x))" : kind == 4 ? "(not (rc o0))" : "(exists (?x) (not (zero ?x)))") + "))\n";
  d.m.Load(d.domain, d.problem);
  return d;
}

}  // namespace gen

#endif  // VERIF_STRUCTURED_H_
