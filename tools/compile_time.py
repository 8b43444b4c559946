"""C26: generated programs, accepted by the compiler exactly if a specification
of the interface says so. Programs are random setups and random uses of a parser
and a converter under them; a failing one is reduced to a minimal one."""
import json, os, random, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import build as B

RULE = ("a case is a program: a list of setup options in one of three notations and uses of a parser or converter under it, compiled on its own against one of three builds of the library; "
        "it must be accepted exactly if a specification of options, error modes and types says so; non-trivial: an invalid program, or a valid one with two options and a use that depends on them")

PRELUDE = r'''
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <deque>
struct custom { std::string s; };
template <> inline bool ss::extract(const char* b, const char* e, custom& v) { v.s.assign(b, e); return !v.s.empty(); }
struct tied_is { int a{}; std::string b; auto tied() { return std::tie(a, b); } };
struct tied_1 { double a{}; auto tied() { return std::tie(a); } };
struct agg_is { int a; std::string b; };
struct agg_s { std::string a; };
struct cls_is { cls_is() = default; cls_is(int, std::string) {} };
struct unknown { int x; };
struct unknown2 { unknown2() = default; std::string s; };
enum colour { red, green };
enum class shade : short { light, dark };
struct even { bool ss_valid(int v) const { return v % 2 == 0; } const char* error() const { return "odd"; } };
'''

QUOTES = ['"', "'", '|']
CHARS = [' ', '\\t', '_', '"', '\\\\', '|', '^', "'"]


def lit(c):
    return "'\\''" if c == "'" else "'%s'" % c


# options: (kind, characters or number)
def opt_text(o):
    k, a = o
    if k in ("quote", "escape", "trim", "trim_left", "trim_right"):
        return "ss::%s<%s>" % (k, ", ".join(lit(c) for c in a))
    if k == "multiline_restricted":
        return "ss::multiline_restricted<%d>" % a
    if k == "bad":
        return a
    return "ss::" + k


BAD = ["int", "std::string", "ss::none", "void*", "unknown", "ss::setup<>", "std::tuple<>", "ss::setup<ss::quote<'|'>>", "std::vector<int>", "char", "ss::exception"]


def setup_errors(opts):
    """why a list of options is invalid"""
    r = []
    kinds = [o[0] for o in opts]
    for k in ("quote", "escape", "trim", "trim_left", "trim_right", "string_error", "throw_on_error", "ignore_header", "ignore_empty"):
        if kinds.count(k) > 1:
            r.append(k + " given more than once")
    if kinds.count("multiline") + kinds.count("multiline_restricted") > 1:
        r.append("multiline given more than once")
    if "bad" in kinds:
        r.append("not an option: " + next(a for k, a in opts if k == "bad"))
    if "string_error" in kinds and "throw_on_error" in kinds:
        r.append("string_error and throw_on_error")
    if ("multiline" in kinds or "multiline_restricted" in kinds) and "quote" not in kinds and "escape" not in kinds:
        r.append("multiline without quote and escape")
    if "trim" in kinds and ("trim_left" in kinds or "trim_right" in kinds):
        r.append("trim with one-sided trim")

    def chars(*ks):
        return {c for k, a in opts if k in ks for c in a}
    q, e, t = chars("quote"), chars("escape"), chars("trim", "trim_left", "trim_right")
    if q & e or q & t or e & t:
        r.append("one character in two roles")
    if any(k in ("quote", "escape", "trim", "trim_left", "trim_right") and len(a) > 1 and "\\0" in a for k, a in opts):
        r.append("terminator among the characters")
    return r


def has(opts, k):
    return any(o[0] == k for o in opts)


def gen_valid_options(r):
    pool = ["quote", "escape", "trims", "multi", "error", "ignore_header", "ignore_empty"]
    opts, used = [], set()

    def take(n, cands):
        c = [x for x in cands if x not in used]
        r.shuffle(c)
        return c[:n]
    for k in pool:
        if r.random() < 0.5:
            continue
        if k == "quote":
            c = take(1, QUOTES)
            if c:
                opts.append(("quote", c))
                used |= set(c)
        elif k == "escape":
            c = take(r.choice([1, 1, 2]), CHARS)
            opts.append(("escape", c))
            used |= set(c)
        elif k == "trims":
            form = r.choice(["both", "left", "right", "left right"])
            if form == "both":
                opts.append(("trim", take(r.choice([1, 2]), CHARS)))
            else:
                if "left" in form:
                    opts.append(("trim_left", take(r.choice([1, 2]), CHARS)))
                if "right" in form:
                    opts.append(("trim_right", take(r.choice([1, 2]), CHARS)))
        elif k == "multi":
            if has(opts, "quote") or has(opts, "escape"):
                opts.append(r.choice([("multiline", None), ("multiline_restricted", r.randint(1, 9))]))
        elif k == "error":
            opts.append((r.choice(["string_error", "throw_on_error"]), None))
        else:
            opts.append((k, None))
    r.shuffle(opts)
    return opts


def rand_option(r):
    k = r.choice(["quote", "escape", "trim", "trim_left", "trim_right", "multiline", "multiline_restricted", "string_error", "throw_on_error", "ignore_header", "ignore_empty", "bad"])
    if k == "quote":
        return (k, [r.choice(QUOTES)])
    if k in ("escape", "trim", "trim_left", "trim_right"):
        c = r.sample(CHARS, r.choice([1, 1, 2, 3]))
        if r.random() < 0.05:
            c.append("\\0")
        return (k, c)
    if k == "multiline_restricted":
        return (k, r.randint(1, 9))
    if k == "bad":
        return (k, r.choice(BAD))
    return (k, None)


def gen_options(r):
    """a list of options near the border between valid and invalid"""
    x = r.random()
    if x < 0.15:
        return [rand_option(r) for _ in range(r.randint(0, 6))]
    opts = gen_valid_options(r)
    if x < 0.75:
        y = r.random()
        at = r.randint(0, len(opts))
        if y < 0.3 and opts:  # again, with the same or another parameter
            k, a = r.choice(opts)
            if r.random() < 0.5:
                if k == "quote":
                    a = [r.choice(QUOTES)]
                elif k in ("escape", "trim", "trim_left", "trim_right"):
                    a = [r.choice(CHARS)]
                elif k in ("multiline", "multiline_restricted"):
                    k, a = ("multiline_restricted", r.randint(1, 9))
            opts.insert(at, (k, a))
        elif y < 0.5 and opts:  # a character of another option
            donors = [c for k, a in opts if k in ("quote", "escape", "trim", "trim_left", "trim_right") for c in a]
            c = r.choice(donors) if donors else r.choice(CHARS)
            k = r.choice(["quote", "escape", "trim", "trim_left", "trim_right"])
            if k == "quote" and c not in QUOTES:
                k = "escape"
            opts = [o for o in opts if o[0] != k]
            extra = [] if k == "quote" else r.sample(CHARS, r.choice([0, 0, 1]))
            opts.insert(min(at, len(opts)), (k, list(dict.fromkeys(extra + [c]))))
        elif y < 0.6:
            opts.insert(at, r.choice([("string_error", None), ("throw_on_error", None)]))
        elif y < 0.7:
            opts = [o for o in opts if o[0] not in r.choice([("quote", "escape"), ("quote",), ("escape",)])]
        elif y < 0.8:
            opts.insert(at, r.choice([("trim", [" "]), ("trim_left", ["_"]), ("trim_right", ["\\t"])]))
        else:
            opts.insert(at, rand_option(r))
    return opts


# ---------------------------------------------------------------- types
BASE = ["int", "unsigned", "short", "unsigned short", "long", "unsigned long", "long long", "unsigned long long", "float", "double", "bool", "char", "signed char",
        "unsigned char", "std::string", "std::string_view", "custom", "ss::int8", "ss::uint8", "int8_t", "uint8_t", "int64_t", "size_t"]
VALIDATORS = ["ss::ax<int, 1, 2>", "ss::nx<char, 'a', 'b'>", "ss::ir<int, 1, 5>", "ss::oor<long, -5, 5>", "ss::gt<int, 0>", "ss::gte<unsigned, 3>", "ss::lt<short, 9>",
              "ss::lte<long long, 7>", "ss::ne<std::string>", "even"]
UNSUPPORTED = ["unknown", "unknown2", "int*", "unknown*", "const char*", "char*", "std::vector<int>", "std::vector<std::string>", "std::map<int, int>", "std::pair<int, int>", "long double",
               "colour", "shade", "std::set<char>", "std::unique_ptr<int>", "std::deque<char>"]


SAME = {"int8_t": "signed char", "uint8_t": "unsigned char", "int64_t": "long", "size_t": "unsigned long"}


def distinct(r, n):
    """alternatives of a variant, no type twice"""
    ts, seen = [], set()
    for t in r.sample(BASE, len(BASE)):
        if SAME.get(t, t) not in seen and len(ts) < n:
            seen.add(SAME.get(t, t))
            ts.append(t)
    return ts


def gen_type(r, bad=False):
    """a supported column type, or one with something unsupported in it"""
    x = r.random()
    if x < 0.55:
        return r.choice(UNSUPPORTED) if bad else r.choice(BASE)
    if x < 0.7:
        # not for move-only types
        return "std::optional<%s>" % (r.choice(UNSUPPORTED[:13]) if bad else gen_inner(r))
    if x < 0.85:
        n = r.randint(1, 3)
        ts = distinct(r, n)
        if bad:
            # reached only if it is an alternative
            ts.insert(r.randint(0, n), r.choice(UNSUPPORTED[:13]))
        return "std::variant<%s>" % ", ".join(ts)
    return r.choice(UNSUPPORTED) if bad else r.choice(VALIDATORS)


def gen_inner(r):
    x = r.random()
    if x < 0.7:
        return r.choice(BASE)
    if x < 0.85:
        return "std::optional<%s>" % r.choice(BASE)
    return "std::variant<%s>" % ", ".join(distinct(r, 2))


def gen_list(r, bad=None):
    """column types; bad: None, 'type' or 'void'"""
    if bad == "void":
        ts = ["void"] * r.randint(1, 3)
    else:
        ts = [gen_type(r) for _ in range(r.choice([1, 1, 2, 2, 3, 4]))]
        if bad == "type":
            ts[r.randrange(len(ts))] = gen_type(r, True)
            if r.random() < 0.15 and len(ts) > 1:
                ts[r.randrange(len(ts))] = "tied_is"  # supported only alone
                if not any(t != "tied_is" for t in ts):
                    ts[0] = "unknown"
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            ts.insert(r.randint(0, len(ts)), "void")
    t = ", ".join(ts)
    if r.random() < 0.2:
        return "std::tuple<%s>" % t
    return t


OBJ = ["agg_is, int, std::string", "cls_is, int, std::string", "agg_is, std::tuple<int, std::string>", "cls_is, int, void, std::string", "agg_s, std::string", "tied_is, int, std::string", "std::string, std::string",
       "std::vector<std::string>, std::string, std::string", "agg_is, ss::gte<int, 2>, ss::ne<std::string>", "cls_is, short, std::string_view, void"]
OBJ = [o for o in OBJ if "string_view" not in o]
SOLE = ["tied_is", "tied_1"]


# a use: (text, condition on the setup, why it is invalid otherwise)
def always(o):
    return True


def no_throw(o):
    return not has(o, "throw_on_error")


def strings(o):
    return has(o, "string_error")


def header(o):
    return not has(o, "ignore_header")


def read_only_line(o):
    return not has(o, "quote") and not has(o, "escape")


def never(o):
    return False


def gen_use(r, want_bad):
    """(text, condition, name); want_bad: a use that is forbidden whatever the setup"""
    bad = r.choice(["type", "type", "void"]) if want_bad else None
    cond = never if want_bad else always

    def both(a, b):
        return lambda o: a(o) and b(o)
    k = r.randint(0, 31)
    tl = gen_list(r, bad) if want_bad or r.random() < 0.9 else r.choice(SOLE)
    if k <= 3:
        return ("(void)p.get_next<%s>();" % tl, cond, "get_next")
    if k == 4:
        return ("for (auto& x : p.iterate<%s>()) (void)x;" % tl, cond, "iterate")
    if k == 5:
        return ("(void)c.convert<%s>(line);" % tl, cond, "convert")
    if k == 6:
        return ("(void)c.convert<%s>(c.split(line, \";\"));" % tl, cond, "convert of a split line")
    if k == 7:
        return ("(void)c.convert<%s>();" % tl, cond, "convert of the cache")
    if k <= 10:
        fn = r.choice(["", "[] { return true; }", "[](auto&&...) {}"])
        return ("(void)p.try_next<%s>(%s).values();" % (tl, fn), both(cond, no_throw), "try_next")
    if k == 11:
        return ("(void)p.try_next<std::string>().or_else<%s>().values();" % tl, both(cond, no_throw), "or_else")
    if want_bad:
        if r.random() < 0.2:
            return r.choice([("P q{p}; (void)q;", never, "copy of a parser"), ("P q{std::move(p)}; q = p;", never, "copy assignment of a parser"), ("P q; (void)q;", never, "default construction of a parser")])
        return ("(void)p.get_next<%s>();" % gen_list(r, bad), never, "get_next")
    if k <= 13:
        return ("(void)p.get_object<%s>();" % r.choice(OBJ), always, "get_object")
    if k == 14:
        return ("for (auto& x : p.iterate_object<%s>()) (void)x;" % r.choice(OBJ), always, "iterate_object")
    if k == 15:
        return ("(void)p.try_object<%s>().values();" % r.choice(OBJ), no_throw, "try_object")
    if k == 16:
        return ("(void)p.try_next<int>().or_object<%s>([] { return true; }).values();" % r.choice(OBJ), no_throw, "or_object")
    if k == 17:
        return ("(void)c.convert_object<%s>(line);" % r.choice(OBJ), always, "convert_object")
    if k <= 19:
        return ("(void)p.error_msg();", strings, "error_msg of a parser")
    if k == 20:
        return ("(void)c.error_msg();", strings, "error_msg of a converter")
    if k == 21:
        return ("(void)p.try_next<int>().on_error([] {}).values();", no_throw, "on_error")
    if k == 22:
        return ("(void)p.try_next<int>().on_error([](const std::string&) {}).values();", strings, "on_error with the message")
    if k == 23:
        return ("(void)p.header();", header, "header")
    if k == 24:
        return ("(void)p.raw_header();", header, "raw_header")
    if k == 25:
        return ("(void)p.field_exists(\"a\");", header, "field_exists")
    if k == 26:
        return (r.choice(["p.use_fields(\"a\", \"b\");", "p.use_fields(std::vector<std::string>{\"a\"});", "p.use_fields(std::string{\"a\"});"]), header, "use_fields")
    if k <= 28:
        return (r.choice(["(void)c.convert<%s>(cline);", "(void)c.convert<%s>(cline, \";\");"]) % gen_list(r), read_only_line, "conversion of a read-only line")
    if k == 29:
        return ("(void)c.split(cline);", read_only_line, "split of a read-only line")
    if k == 30:
        return ("(void)p.valid(); (void)p.eof(); (void)p.line(); (void)p.position(); (void)p.ignore_next(); (void)c.valid(); (void)c.split(line);", always, "observers")
    return ("P q{std::move(p)}; p = std::move(q);", always, "move")


class Program:
    def __init__(self, variant, form, opts, uses, cxx="clang++"):
        self.variant, self.form, self.opts, self.uses, self.cxx = variant, form, opts, uses, cxx

    def errors(self):
        r = setup_errors(self.opts)
        if not r:
            r = [n + ": " + t for t, c, n in self.uses if not c(self.opts)]
        return r

    def text(self):
        o = ", ".join(opt_text(x) for x in self.opts)
        if self.form == 1:
            o = "ss::setup<%s>" % o
        elif self.form == 2:
            o = "ss::setup<ss::setup<%s>>" % o
        s = "using P = ss::parser<%s>;\nusing C = ss::converter<%s>;\n" % (o, o)
        s += "void f(P& p, C& c, char* line, const char* cline) {\n    (void)p.eof();\n    (void)c.valid();\n"
        for i, (t, _, _) in enumerate(self.uses):
            s += "    { %s }\n" % t
        return s + "}\n"

    def key(self):
        return (self.variant, self.text())


VARIANTS = ["headers", "single header", "headers without fast_float"]


class Compiler:
    def __init__(self, scratch, cxx):
        self.dir = os.path.join(scratch, cxx)
        os.makedirs(self.dir)
        self.cxx = cxx
        self.failed = None
        inc = os.path.join(B.REPO, "include")
        for v in range(3):
            h = os.path.join(self.dir, "v%d.hpp" % v)
            with open(h, "w") as f:
                if v == 2:
                    f.write("#define SSP_DISABLE_FAST_FLOAT\n")
                if v == 1:
                    f.write('#include "%s"\n' % os.path.join(B.REPO, "ssp.hpp"))
                else:
                    for n in ("converter", "parser", "extract", "setup"):
                        f.write('#include "%s/ss/%s.hpp"\n' % (inc, n))
                f.write(PRELUDE)
            out = h + (".pch" if cxx == "clang++" else ".gch")
            r = subprocess.run([cxx, "-std=c++17", "-w", "-I" + inc, "-x", "c++-header", h, "-o", out], capture_output=True, text=True)
            if r.returncode:
                self.failed = (v, r.stderr)
                return

    def accepts(self, prog, n):
        src = os.path.join(self.dir, "p%s.cpp" % n)
        h = os.path.join(self.dir, "v%d.hpp" % prog.variant)
        with open(src, "w") as f:
            f.write(prog.text())
        inc = ["-include-pch", h + ".pch"] if self.cxx == "clang++" else ["-include", h]
        r = subprocess.run([self.cxx, "-std=c++17", "-w", "-fsyntax-only"] + inc + [src], capture_output=True, text=True, cwd=self.dir)
        if r.returncode < 0 or "internal compiler error" in r.stderr or "PLEASE submit a bug report" in r.stderr:
            raise RuntimeError("compiler ended with %d: %s" % (r.returncode, r.stderr[:500]))
        return r.returncode == 0, r.stderr

    def sane(self):
        src = os.path.join(self.dir, "sane.cpp")
        with open(src, "w") as f:
            f.write("#include <string>\nint main() { std::string s; return static_cast<int>(s.size()); }\n")
        return subprocess.run([self.cxx, "-std=c++17", "-fsyntax-only", src], capture_output=True).returncode == 0


def gen_program(r):
    variant = r.choice([0, 0, 1, 1, 2])
    form = r.choice([0, 0, 0, 1, 1, 2])
    x = r.random()
    if x < 0.5:
        opts = gen_options(r)
        uses = [] if r.random() < 0.7 else [gen_use(r, False)]
        uses = [u for u in uses if u[1](opts)]
    else:
        opts = gen_valid_options(r)
        n = r.randint(1, 4)
        uses = [gen_use(r, False) for _ in range(n)]
        if x < 0.85:
            # one use may be forbidden under this setup, the others are not
            keep = r.randrange(n)
            uses = [u for i, u in enumerate(uses) if i == keep or u[1](opts)]
        else:
            uses = [u for u in uses if u[1](opts)][:1] + [gen_use(r, True)]
    if form == 0 and len(opts) == 1 and opts[0][0] == "bad" and opts[0][1].startswith(("ss::setup", "std::tuple")):
        form = 1
    if any(k == "bad" and a.startswith(("ss::setup", "std::tuple")) for k, a in opts) and len(opts) == 1:
        opts = opts + [("quote", ["|"])]
    return Program(variant, form, opts, uses)


def describe(p, accepted, stderr=""):
    e = p.errors()
    s = "%s %s a program that %s:\n%s" % (p.cxx, "accepts" if accepted else "rejects", "must be rejected (%s)" % "; ".join(e) if e else "must be accepted", p.text())
    if not accepted:
        lines = [l for l in stderr.splitlines() if "error" in l]
        s += "\n".join(lines[:5]) + "\n"
    return s


def shrink(p, wrong, comp, deadline):
    """removes options and uses while the verdict stays wrong in the same direction"""
    changed = True
    while changed and time.time() < deadline:
        changed = False
        cands = [Program(p.variant, p.form, p.opts[:i] + p.opts[i + 1:], p.uses, p.cxx) for i in range(len(p.opts))]
        cands += [Program(p.variant, p.form, p.opts, p.uses[:i] + p.uses[i + 1:], p.cxx) for i in range(len(p.uses))]
        if p.form:
            cands.append(Program(p.variant, 0, p.opts, p.uses, p.cxx))
        if p.variant:
            cands.append(Program(0, p.form, p.opts, p.uses, p.cxx))
        for k, (kind, a) in enumerate(p.opts):
            if isinstance(a, list) and len(a) > 1:
                for j in range(len(a)):
                    cands.append(Program(p.variant, p.form, p.opts[:k] + [(kind, a[:j] + a[j + 1:])] + p.opts[k + 1:], p.uses, p.cxx))
        for q in cands:
            if any(k == "bad" and a.startswith(("ss::setup", "std::tuple")) for k, a in q.opts) and len(q.opts) == 1:
                continue
            ok, _ = comp.accepts(q, "shrink")
            if ok == bool(q.errors()) and ok == wrong:
                p, changed = q, True
                break
    return p


def write_replay(p, text, replays):
    import hashlib
    path = os.path.join(replays, "C26-%s.replay" % hashlib.sha256(text.encode()).hexdigest()[:16])
    with open(path, "w") as f:
        f.write("property C26\n" + json.dumps({"cxx": p.cxx, "variant": p.variant, "program": p.text() if isinstance(p, Program) else p, "expected": "rejected" if p.errors() else "accepted"}) + "\n\n" + text + "\n")
    return path


def run(tier, seed, scratch, replays, cases=None):
    r = random.Random(seed * 1000003 + 26)
    want, limit = (1800, 150) if tier == "quick" else (40000, 840)
    if cases:
        want = cases
    comps = ["clang++"] if tier == "quick" else ["clang++", "g++"]
    t0 = time.time()
    built = {}
    for cxx in comps:
        c = Compiler(scratch, cxx)
        if c.failed:
            if not c.sane():
                raise RuntimeError("the compiler does not work")
            p = Program(c.failed[0], 0, [], [], cxx)
            text = "%s rejects the %s:\n%s" % (cxx, VARIANTS[c.failed[0]], c.failed[1][:3000])
            return dict(failed=True, replay=write_replay(p, text, replays), message=text[:600], evaluations=1, distinct_nontrivial=0, rule=RULE, samples=[text[:600]], labels={}, unconfirmed="")
        built[cxx] = c
    progs, seen = [], set()
    tries = 0
    while len(progs) < want and tries < want * 20:
        tries += 1
        p = gen_program(r)
        if p.key() in seen:
            continue
        seen.add(p.key())
        if len(comps) > 1 and r.random() < 0.3:
            p.cxx = "g++"
        progs.append(p)
    labels, done, nontrivial, bad, samples = {}, 0, 0, None, []

    def one(a):
        n, p = a
        if bad is not None or time.time() - t0 > limit:
            return None
        return n, p, built[p.cxx].accepts(p, n)
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        for res in ex.map(one, enumerate(progs)):
            if res is None:
                continue
            n, p, (ok, err) = res
            try:
                os.remove(os.path.join(built[p.cxx].dir, "p%d.cpp" % n))
            except OSError:
                pass
            done += 1
            e = p.errors()
            if e:
                nontrivial += 1
                key = "rejected: " + (e[0].split(":")[0] if ":" in e[0] else e[0])
                labels[key] = labels.get(key, 0) + 1
            else:
                labels["accepted"] = labels.get("accepted", 0) + 1
                if len(p.opts) >= 2 and p.uses:
                    nontrivial += 1
            if len(samples) < 6 and n % 97 == 5:
                samples.append(("rejected, as %s:\n" % "; ".join(e) if e else "accepted:\n") + p.text())
            if ok == bool(e) and bad is None:
                bad = (p, ok, err)
    out = dict(failed=False, replay="", message="", evaluations=done, distinct_nontrivial=nontrivial, rule=RULE, samples=samples, labels=labels, unconfirmed="")
    if bad:
        p, ok, err = bad
        comp = built[p.cxx]
        ok2, err = comp.accepts(p, "again")
        if ok2 != ok:
            raise RuntimeError("the compiler does not give the same answer twice")
        p = shrink(p, ok, comp, time.time() + 40)
        ok, err = comp.accepts(p, "final")
        text = describe(p, ok, err)
        out.update(failed=True, message=text[:900], replay=write_replay(p, text, replays))
    return out


def replay(path, scratch):
    with open(path) as f:
        d = json.loads(f.read().splitlines()[1])
    c = Compiler(scratch, d["cxx"])
    if c.failed:
        print("%s rejects the library:\n%s" % (d["cxx"], c.failed[1][:3000]))
        return 1

    class Text(Program):
        def text(self):
            return d["program"]
    ok, err = c.accepts(Text(d["variant"], 0, [], []), "replay")
    print(d["program"])
    print("expected to be %s, is %s" % (d["expected"], "accepted" if ok else "rejected"))
    if not ok:
        print("\n".join(l for l in err.splitlines() if "error" in l))
    return int(ok == (d["expected"] == "rejected"))
