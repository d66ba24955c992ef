#!/usr/bin/env python3
"""C25: the Python problem builder, read back by an independent PDDL reader."""
import argparse
import importlib.util
import json
import mmap
import os
import random
import signal
import sys
import traceback
import zlib

REPO = os.environ.get("VERIF_REPO", "/repo")
PATH = os.path.join(REPO, "symbolic", "problem.py")
sys.dont_write_bytecode = True


def load():
    # By path: the package itself imports the extension module.
    spec = importlib.util.spec_from_file_location("verif_problem", PATH)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


# Independent reader -------------------------------------------------------------------------

class Malformed(Exception):
    pass


def read_sx(text):
    """One S-expression and nothing after it."""
    toks, cur = [], ""
    for ch in text:
        if ch in "() \t\r\n":
            if cur:
                toks.append(cur)
                cur = ""
            if ch in "()":
                toks.append(ch)
        else:
            cur += ch
    if cur:
        toks.append(cur)
    stack, top = [], None
    for t in toks:
        if top is not None:
            raise Malformed("text after the end: " + t)
        if t == "(":
            stack.append([])
        elif t == ")":
            if not stack:
                raise Malformed("unexpected )")
            done = stack.pop()
            if stack:
                stack[-1].append(done)
            else:
                top = done
        else:
            if not stack:
                raise Malformed("text outside parentheses: " + t)
            stack[-1].append(t)
    if top is None:
        raise Malformed("unbalanced")
    return top


def read_typed(items):
    out, pending, i = [], [], 0
    while i < len(items):
        if items[i] == "-":
            if i + 1 >= len(items) or not pending:
                raise Malformed("dangling -")
            out += [(n, items[i + 1]) for n in pending]
            pending = []
            i += 2
        else:
            if not isinstance(items[i], str):
                raise Malformed("list inside a typed list")
            pending.append(items[i])
            i += 1
    return out + [(n, "") for n in pending]


def read_problem(text):
    sx = read_sx(text)
    if not sx or sx[0] != "define":
        raise Malformed("no define")
    if len(sx) < 2 or len(sx[1]) != 2 or sx[1][0] != "problem":
        raise Malformed("no problem name")
    p = {"name": sx[1][1]}
    for s in sx[2:]:
        if not isinstance(s, list) or not s or not isinstance(s[0], str):
            raise Malformed("stray text in the definition: %r" % (s,))
        if s[0] in p:
            raise Malformed("two sections " + s[0])
        p[s[0]] = s[1:]
    return p


def norm(f):
    """Formula with quantified variables as typed lists; a lone word list stays a fact."""
    if not isinstance(f, list) or not f:
        raise Malformed("not a formula: %r" % (f,))
    head = f[0]
    if head in ("and", "or"):
        return (head,) + tuple(norm(x) for x in f[1:])
    if head == "not":
        if len(f) != 2:
            raise Malformed("not with %d operands" % (len(f) - 1))
        return (head, norm(f[1]))
    if head in ("forall", "exists"):
        if len(f) != 3 or not isinstance(f[1], list):
            raise Malformed("malformed quantifier %r" % (f,))
        return (head, tuple(read_typed(f[1])), norm(f[2]))
    if head == "when":
        if len(f) != 3:
            raise Malformed("malformed when %r" % (f,))
        return (head, norm(f[1]), norm(f[2]))
    if not all(isinstance(x, str) for x in f):
        raise Malformed("malformed fact %r" % (f,))
    return ("fact",) + tuple(f)


# Cases --------------------------------------------------------------------------------------

NAMES = ["a", "b", "box", "on", "in-hand", "at_x", "x1", "table", "t", "p", "q10", "A", "on_2", "and1", "notx", "forallx",
         "hook", "shelf", "r2-d2", "object", "z"]
TYPES = ["block", "object", "t1", "movable-thing", "t_2", "box"]


class Ctx:
    def __init__(self):
        self.v, self.counters, self.distinct, self.samples = [], {}, set(), []
        self.evaluations = self.failed = 0
        self.idx = 0
        self.context = ""

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def fail(self, key, msg):
        self.failed += 1
        if len(self.v) < 200:
            self.v.append({"case": self.idx, "key": key, "msg": msg + ("\n" + self.context if self.context else "")})

    def check(self, ok, key, msg):
        self.evaluations += 1
        if not ok:
            self.fail(key, msg)
        return ok

    def seen(self, s):
        b = s.encode("utf-8", "surrogatepass")
        self.distinct.add(zlib.crc32(b) << 32 | zlib.adler32(b))


def gen_fact(r, variables=()):
    words = NAMES + list(variables)
    return [r.choice(NAMES)] + [r.choice(words) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 5]))]


def pddl_text(r, fact):
    gap = (lambda: r.choice([" ", " ", "  ", "\t", "\n"])) if r.random() < 0.3 else (lambda: " ")
    return "(" + gap().join(fact) + (" " if r.random() < 0.1 else "") + ")"


def call_text(r, fact):
    sep = r.choice([", ", ",", " , ", ",  "])
    return fact[0] + "(" + sep.join(fact[1:]) + ")"


def gen_formula(M, r, depth, variables=()):
    """(what is given to the builder, expected reading)"""
    k = r.random()
    if depth == 0 or k < 0.25:
        fact = gen_fact(r, variables)
        how = r.random()
        if how < 0.5:
            text = M._P(*fact)
        else:
            text = pddl_text(r, fact)
        return text, ("fact",) + tuple(fact)
    if k < 0.6:
        n = r.choice([0, 1, 2, 2, 3, 5])
        subs = [gen_formula(M, r, depth - 1, variables) for _ in range(n)]
        head = r.choice(["and", "or"])
        f = (M._and if head == "and" else M._or)(*[s[0] for s in subs])
        return f, (head,) + tuple(s[1] for s in subs)
    if k < 0.75:
        f, e = gen_formula(M, r, depth - 1, variables)
        return M._not(f), ("not", e)
    if k < 0.92:
        v = r.choice(["x", "y", "z", "obj", "x-1"])
        t = r.choice(TYPES + [""])
        f, e = gen_formula(M, r, depth - 1, tuple(variables) + ("?" + v,))
        head = r.choice(["forall", "exists"])
        return (M._forall if head == "forall" else M._exists)(v, t, f), (head, (("?" + v, t),), e)
    a, ea = gen_formula(M, r, depth - 1, variables)
    b, eb = gen_formula(M, r, depth - 1, variables)
    return M._when(a, b), ("when", ea, eb)


def text_of(f):
    """The expected formula as PDDL text, for goals given as one string."""
    if f[0] == "fact":
        return "(" + " ".join(f[1:]) + ")"
    if f[0] in ("forall", "exists"):
        v = " ".join(n + (" - " + t if t else "") for n, t in f[1])
        return "(%s (%s) %s)" % (f[0], v, text_of(f[2]))
    return "(" + " ".join([f[0]] + [text_of(x) for x in f[1:]]) + ")"


def check_text(c, text, want, what):
    try:
        p = read_problem(text)
        for k in (":domain", ":init", ":goal"):
            if k not in p:
                raise Malformed("no " + k)
        if len(p[":domain"]) != 1 or len(p[":goal"]) != 1:
            raise Malformed("malformed :domain or :goal")
        got = {"name": p["name"], "domain": p[":domain"][0],
               "objects": sorted((n, t or "object") for n, t in read_typed(p.get(":objects", []))),
               "init": sorted(set(norm(f) for f in p[":init"])), "goal": norm(p[":goal"][0])}
        if any(f[0] != "fact" for f in got["init"]):
            raise Malformed("initial facts")
    except Malformed as e:
        c.check(False, "malformed", "%s: %s in\n%s" % (what, e, text))
        return
    for k in ("name", "domain", "objects", "init", "goal"):
        c.check(got[k] == want[k], k, "%s: %s is read back as %r, given %r, from\n%s" % (what, k, got[k], want[k], text))


def builder_case(c, M, r):
    problems = []
    for _ in range(r.choice([1, 1, 2])):
        name, dom = r.choice(NAMES) + r.choice(["", "-1", "_p"]), r.choice(NAMES)
        p = M.Problem(name, dom)
        problems.append([p, {"name": name, "domain": dom, "objects": [], "init": set(), "goal": ("and",)}, []])

    def look(k):
        p, w, log = problems[k]
        want = dict(w, objects=sorted((n, t or "object") for n, t in w["objects"]), init=sorted(w["init"]))
        text = repr(p)
        c.context = "built by " + "; ".join(log)
        check_text(c, text, want, "problem %d" % k)
        c.check(repr(p) == text, "repeat", "printing again differs")
        c.check(str(p) == text, "repeat", "str differs from repr")
        c.count("texts read back")
        c.seen(text)
        return text

    used = set()
    text = ""
    for _ in range(r.choice([3, 10, 25])):
        k = r.randrange(len(problems))
        p, w, log = problems[k]
        x = r.random()
        if x < 0.3:
            n = r.choice(NAMES) + r.choice(["", "1", "2", "3", "4"])
            if (k, n) in used:
                continue
            used.add((k, n))
            t = r.choice(TYPES + ["", ""])
            if t or r.random() < 0.5:
                p.add_object(n, t)
            else:
                p.add_object(n)
            w["objects"].append((n, t))
            log.append("add_object(%r, %r)" % (n, t))
            c.count("objects given")
        elif x < 0.55:
            f = gen_fact(r)
            s = pddl_text(r, f) if r.random() < 0.5 else call_text(r, f)
            c.count("facts in PDDL notation" if s[0] == "(" else "facts in call notation")
            p.add_initial_prop(s)
            w["init"].add(("fact",) + tuple(f))
            log.append("add_initial_prop(%r)" % s)
        elif x < 0.65:
            fs = [gen_fact(r) for _ in range(r.randrange(6))]
            texts = {pddl_text(r, f) if r.random() < 0.5 else call_text(r, f) for f in fs}
            p.set_initial_state(texts)
            w["init"] |= {("fact",) + tuple(f) for f in fs}
            log.append("set_initial_state(%r)" % sorted(texts))
        elif x < 0.85:
            g, e = gen_formula(M, r, r.randrange(5))
            if r.random() < 0.2:
                g = text_of(e)
            p.set_goal(g)
            w["goal"] = e
            log.append("set_goal(%r)" % (g,))
            c.count("goals given")
        elif x < 0.92:
            bad = r.choice(BAD)
            if bad and bad[0] != "(":
                try:
                    p.add_initial_prop(bad)
                    c.check(False, "rejected", "add_initial_prop(%r) is accepted" % bad)
                except Exception:
                    c.check(True, "rejected", "")
                c.count("wrong facts")
                log.append("add_initial_prop(%r)" % bad)
        else:
            text = look(k)
    for k in range(len(problems)):
        text = look(k)
    c.context = ""
    if c.idx < 3:
        c.samples.append(text)


# Clearly not propositions.
BAD = ["on", "on(", "on)", "(on", ")", "on(a", "on(a, b", "on a, b)", "on(a,, b)", "on(, a)", "on(a,)", "(a, b)", "on((a)", "on(a))",
       "on(a)(b)", "on(a) b", "on(a))x", "f(g(a))", "on(a(b), c)", "on(a, b) on(c)", "on(a b)", "on)a(", "", " ", ",", "on,a", "a b(c)", "()"]


def helper_case(c, M, r):
    for _ in range(20):
        f = gen_fact(r)
        s = f[0] + "(" + ", ".join(f[1:]) + ")"  # as the library prints it
        for fn, want in ((M.parse_proposition, (f[0], f[1:])), (M.parse_head, f[0]), (M.parse_args, f[1:])):
            try:
                got = fn(s)
                if fn is M.parse_proposition:
                    got = (got[0], list(got[1]))
                elif fn is M.parse_args:
                    got = list(got)
            except Exception as e:
                got = e
            c.check(got == want, "parse", "%s(%r) gives %r" % (fn.__name__, s, got))
        c.count("facts parsed")
        if len(f) == 1:
            c.count("facts without arguments")
        c.seen(s)
    for bad in BAD:
        try:
            got = M.parse_proposition(bad)
            c.check(False, "rejected", "parse_proposition(%r) gives %r" % (bad, got))
        except Exception:
            c.check(True, "rejected", "")
    # Damaged facts: rejected, or read as something that prints as the given text (up to spaces).
    for _ in range(20):
        s = list(call_text(r, gen_fact(r)))
        for _ in range(r.choice([1, 1, 2])):
            i = r.randrange(len(s) + 1)
            x = r.random()
            if x < 0.4 and i < len(s):
                del s[i]
            elif x < 0.8:
                s.insert(i, r.choice("(),  ab\n"))
            elif i < len(s):
                s[i] = r.choice("(), a")
        s = "".join(s)
        try:
            head, args = M.parse_proposition(s)
        except Exception:
            c.count("texts rejected")
            continue
        again = head + "(" + ",".join(args) + ")"
        squeeze = lambda t: "".join(t.split())
        ok = (squeeze(again) == squeeze(s) and all(args) and head and not any(ch in "(), \t\n" for t in [head] + list(args) for ch in t))
        c.check(ok, "damaged", "parse_proposition(%r) gives %r" % (s, (head, args)))
        c.count("texts accepted")


def traced(fn):
    lines = set()

    def tr(frame, event, arg):
        if frame.f_code.co_filename != PATH:
            return None
        if event == "line":
            lines.add(frame.f_lineno)
        return tr
    sys.settrace(tr)
    try:
        fn()
    finally:
        sys.settrace(None)
    return lines


def on_alarm(*_):
    os.write(2, b"VERIF-HANG: case exceeded its CPU time\n")
    os._exit(97)


def main():
    ap = argparse.ArgumentParser()
    for o, d in (("seed", 1), ("from", 0), ("to", 1), ("step", 1), ("limit", 20), ("budget", 0.0), ("only", -1)):
        ap.add_argument("--" + o, type=type(d), default=d)
    for o in ("tier", "tmp", "journal", "out"):
        ap.add_argument("--" + o)
    a = vars(ap.parse_args())
    import time
    lo, hi = (a["only"], a["only"] + 1) if a["only"] >= 0 else (a["from"], a["to"])
    journal = None
    if a["journal"]:
        with open(a["journal"], "wb") as f:
            f.write(b"\0" * 8)
        journal = open(a["journal"], "r+b")
        journal = mmap.mmap(journal.fileno(), 8)
    signal.signal(signal.SIGPROF, on_alarm)
    M = load()
    c = Ctx()
    t0, cases, i, lines = time.time(), 0, lo, set()
    while i < hi:
        if a["budget"] > 0 and time.time() - t0 > a["budget"]:
            break
        if journal:
            journal[:] = i.to_bytes(8, "little")
        c.idx, c.context = i, ""
        r = random.Random(a["seed"] * 1000003 + i)
        signal.setitimer(signal.ITIMER_PROF, a["limit"])
        try:
            case = lambda: (helper_case if i % 4 == 3 else builder_case)(c, M, r)
            if i % 20 < 4:
                lines |= traced(case)
            else:
                case()
        except Exception:
            c.fail("exception", traceback.format_exc())
        signal.setitimer(signal.ITIMER_PROF, 0)
        cases += 1
        i += a["step"]
        if len(c.v) >= 50:
            break
    for n in lines:
        c.counters["line %d of problem.py executed" % n] = 1
    res = {"cases": cases, "next": i, "evaluations": c.evaluations, "failed": c.failed, "violations": c.v,
           "counters": {k: v for k, v in c.counters.items() if not k.startswith("line ")},
           "distinct": sorted(c.distinct), "samples": c.samples}
    res["counters"]["lines of problem.py executed (summed over workers)"] = len(lines)
    if a["out"]:
        with open(a["out"] + ".tmp", "w") as f:
            json.dump(res, f)
        os.rename(a["out"] + ".tmp", a["out"])
    if a["only"] >= 0 or not a["out"]:
        for v in c.v:
            print("case %d [%s] %s\n" % (v["case"], v["key"], v["msg"]))
        print("%d cases, %d evaluations, %d failed" % (cases, c.evaluations, c.failed))
    return 3 if c.failed else 0


sys.exit(main())
