// C21: the command-line planner, run as a program.
#include <fcntl.h>
#include <spawn.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>

#include <regex>

#include "structured.h"
#include "world.h"

extern char** environ;

namespace {

using Plan = std::vector<std::string>;  // "call -> {facts}" lines, the first for the initial state

struct Run {
  int status = 0;  // exit status, or 128 + signal
  std::string out, err;
};

std::string ReadFile(const std::string& path) {
  std::string s;
  if (FILE* f = fopen(path.c_str(), "r")) {
    char buf[65536];
    for (size_t n; (n = fread(buf, 1, sizeof buf, f)) > 0;) s.append(buf, n);
    fclose(f);
  }
  return s;
}

Run Exec(const std::string& tmp, const std::vector<std::string>& args) {
  // An uncaught exception is an error like any other.
  static const bool once = [] {
    const char* o = getenv("ASAN_OPTIONS");
    setenv("ASAN_OPTIONS", (std::string(o ? o : "") + ":handle_abort=0").c_str(), 1);
    return true;
  }();
  (void)once;
  const char* app = getenv("VERIF_APP");
  if (app == nullptr) throw std::runtime_error("harness: VERIF_APP is not set");
  const std::string out = tmp + "/out", err = tmp + "/err";
  std::vector<char*> argv = {const_cast<char*>(app)};
  for (const std::string& a : args) argv.push_back(const_cast<char*>(a.c_str()));
  argv.push_back(nullptr);
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
  posix_spawn_file_actions_addopen(&fa, 1, out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  posix_spawn_file_actions_addopen(&fa, 2, err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  pid_t pid;
  const int e = posix_spawn(&pid, app, &fa, nullptr, argv.data(), environ);
  posix_spawn_file_actions_destroy(&fa);
  if (e != 0) throw std::runtime_error("harness: cannot run the planner");
  Run r;
  int st = 0;
  // Far beyond what any of the runs needs.
  for (int waited = 0;; waited++) {
    const pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) break;
    if (waited > 60000) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      break;
    }
    usleep(1000);
  }
  r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
  r.out = ReadFile(out);
  r.err = ReadFile(err);
  return r;
}

bool Sanitizer(const Run& r) {
  return r.err.find("AddressSanitizer") != std::string::npos || r.err.find("runtime error:") != std::string::npos ||
         r.err.find("Assertion ") != std::string::npos;
}

// The printed plans and the number reported (-1: none).
struct Report {
  std::vector<Plan> plans;
  long found = -1;
  bool well_formed = true;
};

Report ParseReport(const std::string& out) {
  std::string text;
  for (size_t i = 0; i < out.size(); i++) {
    if (out[i] == '\x1b') {
      while (i < out.size() && !isalpha(out[i])) i++;
      continue;
    }
    text += out[i];
  }
  static const std::regex kTime("[0-9.e+-]+s");
  static const std::regex kFound("Found ([0-9]+) plans? in .*");
  static const std::regex kNode("-* ?(.*) -> \\{ (.*) \\}");
  Report r;
  bool in_plan = false;
  std::stringstream ss(text);
  std::string line;
  std::smatch m;
  while (std::getline(ss, line)) {
    if (std::regex_match(line, kTime)) {
      r.plans.emplace_back();
      in_plan = true;
    } else if (std::regex_match(line, m, kFound)) {
      if (r.found >= 0) r.well_formed = false;
      r.found = std::stol(m[1]);
      in_plan = false;
    } else if (in_plan && line.empty()) {
      in_plan = false;
    } else if (in_plan) {
      if (std::regex_match(line, m, kNode)) {
        // Facts as a set.
        ref::State facts;
        std::string s = m[2], fact;
        for (size_t i = 0; i < s.size(); i++) {
          if (fact.empty() && (s[i] == ' ' || s[i] == ',')) continue;
          fact += s[i];
          if (s[i] == ')') {
            if (!facts.insert(fact).second) r.well_formed = false;
            fact.clear();
          }
        }
        r.plans.back().push_back(m[1].str() + " -> " + Ctx::Str(facts));
      } else {
        r.well_formed = false;
      }
    }
  }
  return r;
}

std::string Show(const std::vector<Plan>& plans) {
  std::string s = std::to_string(plans.size()) + " plans";
  for (size_t i = 0; i < plans.size() && i < 6; i++) s += "\n    " + Ctx::Str(plans[i]);
  return s;
}

}  // namespace

void RunCase(Ctx& c) {
  gen::Opts o;
  o.max_objects = c.rng.Range(1, 3);
  o.max_preds = 3;
  o.max_arity = c.rng.Range(1, 2);
  o.max_params = 2;
  o.depth = c.rng.Range(0, 2);
  o.pre_empty = c.rng.Chance(50) ? 5 : 45;
  o.empty_types = c.rng.Chance(30);
  o.derived = c.rng.Chance(25);
  gen::Gen g(&c.rng, o);
  const bool structured = c.rng.Chance(40);
  gen::Dom d = structured ? gen::Structured(&c.rng) : g.Make();
  ref::Model& m = d.m;
  if (!structured && c.rng.Chance(75)) {
    // Goals that need work.
    ref::State s = m.init;
    for (int k = c.rng.Range(1, 5); k > 0; k--) {
      std::vector<ref::State> next;
      for (const ref::Op& op : m.actions) {
        for (const ref::Args& t : m.Tuples(op.params)) {
          if (m.Applicable(op, t, s)) next.push_back(m.Next(op, t, s));
        }
      }
      if (next.empty()) break;
      s = c.rng.Pick(next);
    }
    std::vector<ref::Sx> k = {gen::Gen::A("and")};
    std::vector<std::string> atoms = m.Atoms();
    c.rng.Shuffle(&atoms);
    for (size_t i = 0; i < atoms.size() && i < 3; i++) {
      const ref::Sx a = ref::Parse(gen::Gen::FactSx(atoms[i]));
      k.push_back(s.count(atoms[i]) ? a : gen::Gen::L({gen::Gen::A("not"), a}));
    }
    m.goal = gen::Gen::L(k);
    gen::Gen::Render(&d);
  }
  c.context = d.domain + d.problem;
  const std::string dom = c.tmpdir + "/cli domain.pddl", prob = c.tmpdir + "/cli-problem.pddl";
  WriteFile(dom, d.domain);
  WriteFile(prob, d.problem + (c.rng.Chance(50) ? "\n\n" : ""));

  // The initial state: the given facts, with or without what they imply.
  ref::State start;
  {
    const std::unique_ptr<symbolic::Pddl> pddl = Load(c, d);
    start = Facts(pddl->initial_state());
    c.Check(start == m.init || start == m.Derive(m.init), "initial", "initial state " + Ctx::Str(start));
  }

  // All plans up to the bound, by plain enumeration.
  const int depth_arg = c.rng.Chance(30) ? -1 : c.rng.Range(0, 6);
  const size_t depth = depth_arg < 0 ? 5 : depth_arg;
  std::vector<Plan> expected;
  const std::string root = " -> " + Ctx::Str(start);
  std::vector<std::pair<Plan, std::vector<ref::State>>> todo = {{{root}, {start}}};
  for (size_t visited = 0; !todo.empty(); visited++) {
    const auto p = todo.back();
    todo.pop_back();
    if (visited > 1500) {
      c.Count("problems skipped (too large)");
      return;
    }
    if (m.Eval(m.goal, {}, p.second.back())) {
      expected.push_back(p.first);
      continue;
    }
    if (p.first.size() > depth) continue;
    for (const ref::Op& op : m.actions) {
      for (const ref::Args& t : m.Tuples(op.params)) {
        if (!m.Applicable(op, t, p.second.back())) continue;
        const ref::State next = m.Next(op, t, p.second.back());
        if (std::find(p.second.begin(), p.second.end(), next) != p.second.end()) continue;
        todo.push_back(p);
        todo.back().first.push_back(ref::Fact(op.name, t) + " -> " + Ctx::Str(next));
        todo.back().second.push_back(next);
      }
    }
  }
  std::sort(expected.begin(), expected.end());

  const auto check = [&](const std::vector<std::string>& args) {
    const Run r = Exec(c.tmpdir, args);
    const std::string at = "planner " + Ctx::Str(args);
    c.Count("runs");
    if (!c.Check(r.status == 0, Sanitizer(r) ? "sanitizer" : "status", at + " ends with status " + std::to_string(r.status) + "\n" + r.err.substr(0, 3000))) return std::vector<Plan>();
    const Report rep = ParseReport(r.out);
    c.Check(rep.well_formed, "format", at + " prints\n" + r.out.substr(0, 3000));
    c.Check(rep.found == static_cast<long>(expected.size()), "number", at + " reports " + std::to_string(rep.found) + " plans, there are " + std::to_string(expected.size()));
    std::vector<Plan> sorted = rep.plans;
    std::sort(sorted.begin(), sorted.end());
    c.Check(sorted == expected, "plans", at + " prints " + Show(rep.plans) + "\n  expected " + Show(expected));
    for (size_t i = 1; i < rep.plans.size(); i++) {
      c.Check(rep.plans[i - 1].size() <= rep.plans[i].size(), "order", at + " prints a longer plan first");
    }
    c.Count("plans printed", rep.plans.size());
    c.Seen(Ctx::Str(args) + c.context);
    return rep.plans;
  };
  std::vector<std::string> args = {dom, prob};
  if (depth_arg >= 0) {
    args.push_back("--depth");
    args.push_back(std::to_string(depth_arg));
  } else {
    c.Count("runs with the default depth");
  }
  const auto quiet = check(args);
  std::vector<std::string> loud = args;
  loud.insert(c.rng.Chance(50) ? loud.begin() + 2 : loud.end(), "--verbose");
  if (depth_arg >= 0 && c.rng.Chance(20)) {
    // The last depth counts.
    loud.insert(loud.begin() + 2, {"--depth", "3"});
  }
  const auto verbose = check(loud);
  c.Check(quiet == verbose, "verbose", "verbose mode changes the plans: " + Show(verbose) + "\n  instead of " + Show(quiet));
  c.Count(expected.empty() ? "problems without plan" : "problems with plans");
  if (expected.size() > 1 && expected.front().size() != expected.back().size()) c.Count("problems with plans of several lengths");

  // Wrong uses.
  for (int k = 0; k < 2; k++) {
    std::vector<std::string> bad = args;
    std::string why;
    const std::string none = c.tmpdir + "/no-such-file.pddl", broken = c.tmpdir + "/broken.pddl";
    switch (c.rng.Below(11)) {
      case 0: bad = {}; why = "no arguments"; break;
      case 1: bad = {dom}; why = "one argument"; break;
      case 2: bad.push_back(c.rng.Pick(std::vector<std::string>{"--dept", "-v", "x", "--Verbose", "--depth=3", "3", "--", ""})); why = "unknown option"; break;
      case 3: bad.push_back("--depth"); why = "depth without value"; break;
      case 4:
        bad.push_back("--depth");
        bad.push_back(c.rng.Pick(std::vector<std::string>{"x", "", "-1", "-5", "3x", "1.5", "99999999999999999999", "--verbose", "-2147483648", "2 3"}));
        why = "unusable depth";
        break;
      case 5: bad[0] = none; why = "missing domain file"; break;
      case 6: bad[1] = none; why = "missing problem file"; break;
      case 7: std::swap(bad[0], bad[1]); why = "files swapped"; break;
      case 8: bad[c.rng.Below(2)] = c.tmpdir; why = "directory"; break;
      case 9: {
        const size_t which = c.rng.Below(2);
        const std::string text = which == 0 ? d.domain : d.problem;
        WriteFile(broken, c.rng.Chance(20) ? "" : text.substr(0, c.rng.Below(text.find_last_of(')'))));
        bad[which] = broken;
        why = "truncated file";
        break;
      }
      default: bad[c.rng.Below(2)] = ""; why = "empty file name";
    }
    const Run r = Exec(c.tmpdir, bad);
    const Report rep = ParseReport(r.out);
    const std::string at = "planner " + Ctx::Str(bad) + " (" + why + ")";
    c.Check(!Sanitizer(r), "sanitizer", at + "\n" + r.err.substr(0, 3000));
    c.Check(r.status != 0, "error", at + " succeeds");
    c.Check(r.status != 128 + SIGKILL && r.status != 128 + SIGSEGV, "crash", at + " ends with status " + std::to_string(r.status));
    c.Check(rep.plans.empty() && rep.found < 0, "error", at + " reports plans:\n" + r.out.substr(0, 2000));
    c.Count("wrong uses");
    c.Count("wrong use: " + why);
  }
}
