// C29: heap accounting. The programs of C24 are run again and again; what they allocate must be given back.
#define RunCase SoupCase
#include "p_c24.cc"
#undef RunCase

#include <sanitizer/allocator_interface.h>

void RunCase(Ctx& c);

namespace {

// Counters only: the hooks run inside the allocator.
int64_t g_bytes = 0, g_blocks = 0;
uint64_t g_allocations = 0;

}  // namespace

extern "C" {
void __sanitizer_malloc_hook(const volatile void* p, size_t) {
  if (p == nullptr) return;
  g_bytes += static_cast<int64_t>(__sanitizer_get_allocated_size(p));
  g_blocks++;
  g_allocations++;
}
void __sanitizer_free_hook(const volatile void* p) {
  if (p == nullptr) return;
  g_bytes -= static_cast<int64_t>(__sanitizer_get_allocated_size(p));
  g_blocks--;
}
}

namespace {

// Runs the program until the live heap stops growing. The first runs may fill what is filled once.
void Settle(Ctx& c, const std::string& key, const std::string& what, const std::function<void()>& program) {
  std::vector<int64_t> bytes, blocks;
  const uint64_t before = g_allocations;
  for (int k = 0; k < 8; k++) {
    program();
    const int64_t now = g_bytes, blocks_now = g_blocks;
    if (k > 1 && now <= bytes.back() && blocks_now <= blocks.back()) {
      c.Check(true, key, "");
      c.Count("programs that gave everything back");
      c.Count("allocations", g_allocations - before);
      c.Count("runs", k + 1);
      c.Seen(what + std::to_string(g_allocations - before));
      return;
    }
    bytes.push_back(now);
    blocks.push_back(blocks_now);
  }
  c.Check(false, key,
          what + ": each repetition of the same program leaves more memory behind, at last " +
              std::to_string(bytes[7] - bytes[6]) + " bytes in " + std::to_string(blocks[7] - blocks[6]) + " blocks");
}

// A context of its own for one run, from the same point of the random sequence.
Ctx Fresh(const Ctx& c, uint64_t seed) {
  Ctx in;
  in.seed = c.seed;
  in.idx = c.idx + 2;
  in.thorough = c.thorough;
  in.tmpdir = c.tmpdir;
  in.rng = Rng(seed);
  return in;
}

void Clear(Side& s) {
  s.Each([&](auto& pool, const char*) {
    pool.items.clear();
    pool.items.shrink_to_fit();
    pool.texts.clear();
    pool.texts.shrink_to_fit();
  });
}

}  // namespace

void RunCase(Ctx& c) {
  const uint64_t seed = c.rng.Next();
  const auto sample = [&c, before = g_allocations] {
    if (c.idx < 3) c.Sample(std::to_string(g_allocations - before) + " allocations: " + c.context);
  };
  switch (c.rng.Below(10)) {
    case 0:
    case 1:
    case 2:
    case 3: {  // problems, values, changes of objects, and the end of them all
      c.Count("whole programs");
      Settle(c, "program", "a program with problems of its own", [&] {
        Ctx in = Fresh(c, seed);
        try {
          SoupCase(in);
        } catch (const CaseEnd&) {
        }
        c.context = in.context;
      });
      break;
    }
    case 4: {  // texts that cannot be loaded, and loads alone
      gen::Opts o;
      o.derived = c.rng.Chance(50);
      o.axioms = c.rng.Chance(50);
      gen::Gen g(&c.rng, o);
      const gen::Dom d = g.Make();
      c.context = d.domain + d.problem;
      WriteFile(DomainPath(c), d.domain);
      c.Count("loads");
      Settle(c, "load", "loading", [&] { const Pddl p(DomainPath(c), d.problem); });
      Settle(c, "load", "loading without a problem", [&] { const Pddl p(DomainPath(c)); });
      Settle(c, "load", "changing objects", [&] {
        Pddl p(DomainPath(c), d.problem);
        for (int i = 0; i < 3; i++) p.AddObject("extra" + std::to_string(i), d.m.type_order.empty() ? "object" : d.m.type_order[0]);
        p.RemoveObject("extra1");
        p.RemoveObject("nonesuch");
      });
      Settle(c, "rejected", "reporting a missing problem", [&] {
        try {
          const Pddl p(DomainPath(c), c.tmpdir + "/nonesuch.pddl");
          c.Fail("rejected", "a problem without a file is loaded");
        } catch (const std::runtime_error&) {
          c.Count("loads rejected");
        }
      });
      break;
    }
    default: {  // one problem in long use
      Rng r(seed);
      gen::Opts o;
      o.max_objects = r.Range(1, 4);
      o.max_preds = 4;
      o.max_arity = 2;
      o.max_params = 2;
      o.depth = 2;
      o.pre_empty = 25;
      o.derived = r.Chance(50);
      o.axioms = r.Chance(50);
      o.axiom_guards = r.Chance(25);
      gen::Gen make(&r, o);
      Side s;
      s.d = r.Chance(20) ? gen::Structured(&r) : make.Make();
      s.with_problem = s.frozen = true;
      c.context = s.d.domain + s.d.problem;
      WriteFile(DomainPath(c), s.d.domain);
      s.pddl = std::make_unique<Pddl>(DomainPath(c), s.d.problem, r.Chance(70));
      c.Count("problems in long use");
      Settle(c, "use", "the same operations on a problem", [&] {
        Ctx in = Fresh(c, seed);
        gen::Gen g(&in.rng, o);
        const int steps = in.rng.Range(15, 40);
        for (int k = 0; k < steps; k++) {
          try {
            Soup(in, s, &g).Step();
          } catch (const std::runtime_error&) {
            c.Count("operations rejected");
          } catch (const CaseEnd&) {
            break;
          }
          c.Count("operations");
        }
        Clear(s);
      });
      break;
    }
  }
  sample();
}
