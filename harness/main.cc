#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <ctime>

#include <iostream>

#include "common.h"

namespace {

uint64_t* g_journal = nullptr;

void OnTimeout(int) {
  const char msg[] = "VERIF-HANG: case exceeded its CPU time\n";
  (void)!write(2, msg, sizeof(msg) - 1);
  _exit(97);
}

void Arm(int seconds) {
  itimerval t{};
  t.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &t, nullptr);
}

std::string JsonStr(const std::string& s) {
  std::string o = "\"";
  for (const char ch : s) {
    const auto u = static_cast<unsigned char>(ch);
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += ch;
    } else if (ch == '\n') {
      o += "\\n";
    } else if (u < 0x20 || u >= 0x7f) {
      char buf[8];
      snprintf(buf, sizeof(buf), "\\u%04x", u);
      o += buf;
    } else {
      o += ch;
    }
  }
  return o + "\"";
}

void Dump(const Ctx& c, const std::string& path, uint64_t cases, uint64_t next) {
  std::stringstream ss;
  ss << "{\"cases\":" << cases << ",\"next\":" << next << ",\"evaluations\":" << c.evaluations
     << ",\"failed\":" << c.num_failed << ",\"violations\":[";
  std::string sep;
  for (const Violation& v : c.violations) {
    ss << sep << "{\"case\":" << v.idx << ",\"key\":" << JsonStr(v.key)
       << ",\"msg\":" << JsonStr(v.msg) << "}";
    sep = ",";
  }
  ss << "],\"counters\":{";
  sep = "";
  for (const auto& kv : c.counters) {
    ss << sep << JsonStr(kv.first) << ":" << kv.second;
    sep = ",";
  }
  ss << "},\"distinct\":[";
  sep = "";
  for (const uint64_t h : c.distinct) {
    ss << sep << h;
    sep = ",";
  }
  ss << "],\"samples\":[";
  sep = "";
  for (const std::string& s : c.samples) {
    ss << sep << JsonStr(s);
    sep = ",";
  }
  ss << "]}\n";
  WriteFile(path + ".tmp", ss.str());
  rename((path + ".tmp").c_str(), path.c_str());
}

}  // namespace

int main(int argc, char** argv) {
  std::map<std::string, std::string> args;
  for (int i = 1; i + 1 < argc; i += 2) args[argv[i]] = argv[i + 1];
  Ctx c;
  c.seed = std::stoull(args.count("--seed") ? args["--seed"] : "1");
  c.thorough = args["--tier"] == "thorough";
  c.tmpdir = args.count("--tmp") ? args["--tmp"] : "/tmp";
  uint64_t from = args.count("--from") ? std::stoull(args["--from"]) : 0;
  uint64_t to = args.count("--to") ? std::stoull(args["--to"]) : 1;
  const uint64_t step = args.count("--step") ? std::stoull(args["--step"]) : 1;
  const int limit = args.count("--limit") ? std::stoi(args["--limit"]) : 20;
  // Wall-clock budget: stop taking new cases after this long (0: none).
  const double budget = args.count("--budget") ? std::stod(args["--budget"]) : 0;
  if (args.count("--only")) {
    from = std::stoull(args["--only"]);
    to = from + 1;
    c.replay = true;
  }
  if (args.count("--journal")) {
    const int fd = open(args["--journal"].c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, 8) != 0) abort();
    g_journal = static_cast<uint64_t*>(mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  }
  signal(SIGPROF, OnTimeout);
  // For tuning the workloads: report cases that take longer than this many seconds.
  const double slow = getenv("VERIF_SLOW") ? atof(getenv("VERIF_SLOW")) : 0;

  timeval t0;
  gettimeofday(&t0, nullptr);
  uint64_t cases = 0;
  uint64_t i = from;
  for (; i < to; i += step) {
    if (budget > 0) {
      timeval t;
      gettimeofday(&t, nullptr);
      if ((t.tv_sec - t0.tv_sec) + 1e-6 * (t.tv_usec - t0.tv_usec) > budget) break;
    }
    if (g_journal != nullptr) *g_journal = i;
    c.idx = i;
    c.rng = Rng(c.seed * 0x9e3779b97f4a7c15ULL + i * 0xd1342543de82ef95ULL + 12345);
    c.rng.Next();
    c.context.clear();
    Arm(limit);
    const clock_t started = clock();
    try {
      RunCase(c);
    } catch (const CaseEnd&) {
    } catch (const std::exception& e) {
      c.Fail("exception", std::string("uncaught exception: ") + e.what());
    } catch (...) {
      c.Fail("exception", "uncaught exception of unknown type");
    }
    Arm(0);
    if (slow > 0 && clock() - started > slow * CLOCKS_PER_SEC) {
      fprintf(stderr, "slow case %llu: %.1f s\n", (unsigned long long)i, double(clock() - started) / CLOCKS_PER_SEC);
    }
    cases++;
    if (c.violations.size() >= 50) {
      i += step;
      break;
    }
  }
  if (args.count("--out")) Dump(c, args["--out"], cases, i);
  if (c.replay || !args.count("--out")) {
    for (const Violation& v : c.violations) {
      std::cout << "case " << v.idx << " [" << v.key << "] " << v.msg << "\n" << std::endl;
    }
    std::cout << cases << " cases, " << c.evaluations << " evaluations, " << c.distinct.size()
              << " distinct, " << c.num_failed << " failed" << std::endl;
    for (const auto& kv : c.counters) std::cout << "  " << kv.first << " = " << kv.second << std::endl;
  }
  return c.num_failed > 0 ? 3 : 0;
}
