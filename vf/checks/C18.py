"""Imports resolve to the public rules of grammar files, by every form of name."""
import os
import shutil
from pyparsing import ParseException
import jsgf.parser
from jsgf import (JointTreeContext, Grammar, Rule, Import, GrammarError, JSGFImportError, parse_grammar_file,
                  parse_grammar_string)
from ..gen import Cfg, tree, vocab, utterances, respell
from ..model import Node, build, LIT, REF, from_jsgf
from ..lang import Lang
from ..norm import items

TECHNIQUE = "runtime monitor of name resolution in generated import graphs against a model"
LEVEL = "exploration"
QUICK, THOROUGH = 2000, 40000
RULE = ("graphs of 1-5 grammar files (cyclic imports, wildcards, packages sharing last "
        "names, local rules shadowing imported ones, private rules, several extensions and "
        "locations, missing or malformed files) in scratch directories; lookups of simple, "
        "qualified, fully qualified, missing and private names, in varying order with "
        "explicit resolution; matching through imported rules; non-trivial = distinct "
        "(graph, lookup)")
ASSUMPTIONS = ["files declare the grammar name they are found by",
               "files do not change after they were resolved",
               "rules do not refer to themselves"]
GNAMES = ["com.ex.a", "com.ex.b", "com.x.a", "b", "a.b", "c", "org.c", u"z\u00fc.c"]
RNAMES = ["r", "s", "t", "u"]


class File(object):
    def __init__(self, name):
        self.name = name
        self.rules = []        # (name, public, node with keys, node with names)
        self.imports = []
        self.fault = None

    def rule(self, n):
        for r in self.rules:
            if r[0] == n:
                return r
        return None


class Graph(object):
    def __init__(self, rng, files, broken):
        self.files = files
        self.by = dict((f.name, f) for f in files)
        self.broken = broken   # grammars whose files cannot be read

    def import_ok(self, imp):
        g, r = imp.rsplit(".", 1)
        if g not in self.by or g in self.broken:
            return False
        f = self.by[g]
        return r == "*" or (f.rule(r) is not None and f.rule(r)[1])

    def imported(self, f):
        out = []
        for imp in f.imports:
            g, r = imp.rsplit(".", 1)
            for x in self.by[g].rules:
                if x[1] and r in ("*", x[0]) and (g, x[0]) not in out:
                    out.append((g, x[0]))
        return out

    def resolve(self, gname, name):
        """(grammar, rule), "missing" (GrammarError) or "import" (JSGFImportError)."""
        f = self.by[gname]
        if f.rule(name):
            return gname, name
        if not all(self.import_ok(i) for i in f.imports):
            return "import"
        found = []
        for g, r in self.imported(f):
            if name == g + "." + r and "." in name:
                return g, r
            if name in (r, g.split(".")[-1] + "." + r):
                found.append((g, r))
        if len(found) == 1:
            return found[0]
        if found:
            return "missing"
        if "." in name:
            return tuple(name.rsplit(".", 1)) if self.import_ok(name) else "import"
        return "missing"


def graph(rng, words):
    names = rng.sample(GNAMES, rng.choice([1, 2, 3, 3, 4, 5]))
    if len(names) > 1 and rng.random() < .1:
        names[1] = names[0] + "." + rng.choice(RNAMES)
    files = [File(n) for n in names]
    g = Graph(rng, files, set())
    order = []
    for f in files:
        for r in rng.sample(RNAMES, rng.choice([1, 2, 3])):
            order.append((f, r))
    rng.shuffle(order)
    # Imports: random ones first, more where references need them.
    pub = dict(((f.name, r), rng.random() < .75) for f, r in order)
    for f in files:
        for _ in range(rng.choice([0, 0, 1, 2])):
            o, r = rng.choice(order)
            if o is f and rng.random() < .8:
                continue
            imp = o.name + "." + (r if rng.random() < .6 and pub[o.name, r] else "*")
            if imp not in f.imports:
                f.imports.append(imp)
    done = []
    for f, r in order:
        cfg = Cfg(depth=rng.choice([0, 1, 2]), p_weight=.1, p_tag=.1,
                  refs=["%s\0%s" % (x.name, y) for x, y in done
                        if x is f or pub[x.name, y]])
        n = tree(rng, words, cfg)
        for x in n.walk():
            if x.kind in ("rep", "star"):
                x.tag = ""
            if x.weights and len(set(items(c, False) for c in x.kids)) < max(
                    2, len(x.kids)):
                x.weights = None
            if x.kind == REF:
                o, t = x.text.split("\0")
                if o != f.name and rng.random() < .5 and not any(
                        i in (x.text.replace("\0", "."), o + ".*") for i in f.imports):
                    f.imports.append(rng.choice([x.text.replace("\0", "."), o + ".*"]))
        done.append((f, r))
        f.rules.append([r, pub[f.name, r], n, None])
    for f in files:
        # The order of rules in a file is not the order of references.
        rng.shuffle(f.rules)
    for f in files:
        for r in f.rules:
            m = r[2].clone()
            for x in m.walk():
                if x.kind != REF:
                    continue
                o, t = x.text.split("\0")
                cands = [t, o.split(".")[-1] + "." + t, o + "." + t]
                rng.shuffle(cands)
                for c in cands + [o + "." + t]:
                    if g.resolve(f.name, c) == (o, t):
                        x.text = c
                        break
                else:
                    x.text = o + "." + t
            r[3] = m
    return g, [(f.name, r) for f, r in order]


def grammar_of(f):
    g = Grammar(f.name)
    g.add_imports(*[Import(i) for i in f.imports])
    for n, p, _, m in f.rules:
        g.add_rule(Rule(n, p, build(m, keep=False)))
    return g


def path(rng, name, ext):
    if rng.random() < .5:
        return name + ext
    return os.path.join(*name.split(".")) + ext


def write(p, text):
    d = os.path.dirname(p)
    if d and not os.path.isdir(d):
        os.makedirs(d)
    with open(p, "w", encoding="utf-8") as f:
        f.write(text)


DECOY = "#JSGF V1.0;\ngrammar %s;\npublic <decoy> = decoy;\n"


def case(rec, rng, i):
    words = vocab(rng, 3)
    g, order = graph(rng, words)
    d = "case%d" % i
    os.mkdir(d)
    os.chdir(d)
    parses = {}
    orig = jsgf.parser.parse_grammar_file

    def counted(p):
        parses[p] = parses.get(p, 0) + 1
        return orig(p)
    jsgf.parser.parse_grammar_file = counted
    try:
        run(rec, rng, i, g, words, parses)
    finally:
        jsgf.parser.parse_grammar_file = orig
        os.chdir("..")
        shutil.rmtree(d)


def run(rec, rng, i, g, words, parses):
    main = rng.choice(g.files)
    # With custom extensions, everything has to be resolved at once.
    exts = [".jsgf", ".jgram"]
    given = None
    if rng.random() < .2:
        given = rng.choice([["txt"], [".txt", "jsgf"], ("gram", ".txt"), (".jgram", ".jsgf"), ["JSGF"],
                            (".Jgram", "TXT")])
        exts = ["." + x.lstrip(".") for x in given]
    where = {}
    for f in g.files:
        r = rng.random()
        if f is not main and r < .06:
            g.broken.add(f.name)
            if r < .02:
                write(path(rng, f.name, ".other"), DECOY % f.name)
            rec.event("missing files")
            continue
        text = grammar_of(f).compile()
        if f is not main and r < .08:
            g.broken.add(f.name)
            text = text.replace("public", "pub lic").replace(" = ", " = (", 1)
            rec.event("malformed files")
        # The first extension and location that exist are used.
        places = [p for x in exts for p in (f.name + x,
                                            os.path.join(*f.name.split(".")) + x)]
        places = [p for k, p in enumerate(places) if p not in places[:k]]
        k = rng.randrange(len(places))
        write(places[k], text)
        where[f.name] = places[k]
        if rng.random() < .3 and k + 1 < len(places):
            write(rng.choice(places[k + 1:]), DECOY % f.name)
            rec.event("decoys in later places")
    if i < 3:
        rec.sample("\n".join(grammar_of(f).compile() for f in g.files))
    r = rng.random()
    if r < .4:
        m = grammar_of(main)
    elif r < .7 or main.name not in where:
        m = parse_grammar_string(grammar_of(main).compile())
    else:
        m = parse_grammar_file(where[main.name])
    parses.clear()
    shown = dict((f.name, (f.imports, [(a, b, c.show()) for a, b, _, c in f.rules]))
                 for f in g.files)
    key = repr(sorted(shown.items()))
    log = []

    def fail(what, **kw):
        rec.fail(what, files=shown, where=where, main=main.name, unreadable=sorted(g.broken),
                 history=log[-10:], **kw)

    def attempt(fn):
        try:
            return fn()
        except JSGFImportError:
            return "import"
        except GrammarError:
            return "missing"
        except ParseException:
            return "parse"

    def agrees(got, want):
        """Malformed files are reported by ParseException or GrammarError."""
        if want == "import":
            return got == "import" or (got in ("parse", "missing") and
                                       bool(g.broken & set(where)))
        return got == want

    env0 = dict(m.import_environment)
    ok = all(g.import_ok(x) for x in main.imports)
    objs = {}
    clash = any(a.name + "." + r[0] == b.name for a in g.files for b in g.files
                for r in a.rules)
    extra = [False]

    def lookup(gr, f, name):
        want = g.resolve(f.name, name)
        got = attempt(lambda: rng.choice([gr.get_rule, gr.get_rule_from_name])(name))
        log.append("%s: %s" % (f.name, name))
        rec.eval()
        rec.nontrivial(key, f.name, name)
        if not isinstance(want, tuple):
            if isinstance(got, Rule) or not agrees(got, want):
                fail("a name that means no rule is wrongly resolved", name=name,
                     grammar=f.name, got=str(got), want=want)
            rec.event("errors: " + want)
            return None
        if not isinstance(got, Rule):
            fail("a name was not resolved", name=name, grammar=f.name, want=want, got=got)
        if (got.grammar.name, got.name) != want:
            fail("a name was resolved to another rule", name=name, grammar=f.name, want=want,
                 got=got.fully_qualified_name)
        w = g.by[want[0]].rule(want[1])
        if got.visible is not w[1] or want[0] != f.name and not got.visible:
            fail("wrong visibility of a resolved rule", name=name)
        if items(from_jsgf(got.expansion)) != items(w[3]):
            fail("a resolved rule has other content", name=name, got=str(got),
                 want=w[3].show())
        imp = g.imported(f)
        if want[0] != f.name and want not in imp:
            rec.event("not imported, but fully qualified")
        else:
            rec.event("local" if want[0] == f.name else "imported")
        if (id(gr), name) in objs and objs[id(gr), name] is not got and \
                not clash and not extra[0]:
            fail("a repeated lookup gives another rule", name=name)
        if not clash and gr.get_rule(name) is not got:
            fail("a lookup repeated at once gives another rule", name=name)
        objs[id(gr), name] = got
        return got

    def explicit():
        log.append("resolve_imports")
        memo = rng.choice([None, {}])
        kw = {}
        if memo is not None:
            kw["memo"] = memo
            objs.clear()
            extra[0] = True       # nothing read before is known
        if given is not None:
            kw["file_exts"] = given
        before = dict(m.import_environment)
        res = attempt(lambda: m.resolve_imports(**kw))
        rec.eval()
        if not ok:
            if not agrees(res, "import"):
                fail("imports that cannot be resolved are not reported", got=str(res)[:80])
            if memo is None and dict(m.import_environment) != before:
                fail("a failed resolution changed the import environment")
            rec.event("failed resolutions")
            return
        if not isinstance(res, dict) or (memo is not None and res is not memo):
            fail("resolving imports failed", got=str(res)[:200])
        for gn, rn in g.imported(main):
            fq = gn + "." + rn
            if clash:
                continue
            if not isinstance(res.get(fq), Rule) or \
                    res[fq].fully_qualified_name != fq or \
                    not isinstance(res.get(gn), Grammar) or \
                    not any(res[fq] is x for x in res[gn].rules):
                fail("an imported rule is missing in the result", rule=fq)
            if m.import_environment.get(fq) is not res[fq]:
                fail("an imported rule is missing in the import environment", rule=fq)
        for imp in main.imports:
            gn, rn = imp.rsplit(".", 1)
            if clash:
                continue
            v = Import(imp)
            for _ in range(rng.choice([0, 0, 0, 1, 4])):
                v.resolve(memo=res)
            v = v.resolve(memo=res)
            if rn == "*":
                want = [x[0] for x in g.by[gn].rules if x[1]]
                if not isinstance(v, list) or [x.name for x in v] != want or \
                        any(x.grammar.name != gn for x in v):
                    fail("a wildcard import is not the list of public rules", imported=imp)
            elif not isinstance(v, Rule) or v.fully_qualified_name != imp:
                fail("a rule import is not the rule", imported=imp)
        rec.event("resolutions")

    if given is not None or rng.random() < .4:
        explicit()
    if given is not None and (not ok or tuple(given) != (".jgram", ".jsgf")):
        return
    if given is not None:
        return
    allnames = ["r", "s", "t", "u", "missing", "a.r", "b.s", "c.t", "com.ex.a.r", "b.r",
                "no.such.rule"]
    for f in g.files:
        for rr in f.rules:
            allnames += [f.name + "." + rr[0], f.name.split(".")[-1] + "." + rr[0]]
    todo = [(m, main)]
    for _ in range(rng.choice([4, 10])):
        k = rng.random()
        if k < .1:
            explicit()
            continue
        gr, f = rng.choice(todo)
        got = lookup(gr, f, rng.choice(allnames))
        if got is not None and got.grammar is not gr and len(todo) < 4:
            todo.append((got.grammar, g.by[got.grammar.name]))
    # References inside rules are resolved in the grammar of the rule.
    for name, _, node, named in main.rules:
        env = {}
        good = reachable(g, main.name, name, env)
        rule = m.get_rule(name)
        if not good:
            continue
        lang = Lang(env)
        deps = attempt(lambda: rule.dependencies)
        if not isinstance(deps, set):
            fail("dependencies cannot be determined", rule=name, got=str(deps))
        # Comparable rules of different grammars occur once.
        have = sorted(set((x.name, x.visible, items(from_jsgf(x.expansion), False))
                          for x in deps), key=repr)
        want = sorted(set(
            (b, g.by[a].rule(b)[1], items(g.by[a].rule(b)[3], False))
            for a, b in (k.split("\0") for k in env if k != main.name + "\0" + name)),
            key=repr)
        if have != want:
            fail("wrong dependencies", rule=name, got=have, want=want)

        def joined():
            with JointTreeContext(rule.expansion):
                return set(map(id, rule.dependencies)), [
                    bool(rule.matches(" ".join(ws))) for ws in same]
        same = utterances(rng, lang, env[main.name + "\0" + name], words, 2)
        was = set(map(id, deps)), [bool(rule.matches(" ".join(ws))) for ws in same]
        now = attempt(joined)
        rec.event("references followed in joint trees")
        if now != was:
            fail("references mean something else while trees are joined", rule=name,
                 joined=str(now), otherwise=str(was))
        for ws in utterances(rng, lang, env[main.name + "\0" + name], words, 3):
            s = respell(rng, ws)
            got = rule.matches(s)
            n = env[main.name + "\0" + name]
            rec.eval()
            if got and not lang.member(n, ws) or \
                    not got and lang.greedy(n, ws) == len(ws):
                fail("wrong match result of a rule with imported parts", rule=name,
                     utterance=s, got=got)
            rec.event("matched through imports: %s" % got if len(env) > 1 else "matched")
    if not clash and not extra[0] and not g.broken:
        rec.event("parse counts checked")
        if any(v > 1 for v in parses.values()):
            fail("a grammar file was read again for the same grammars", counts=parses)


def reachable(g, gname, rname, env):
    """Collect the meaning of a rule; False if something cannot be resolved."""
    key = gname + "\0" + rname
    if key in env:
        return True
    f = g.by[gname]
    if gname in g.broken:
        return False
    r = f.rule(rname)
    env[key] = r[2]
    for x, y in zip(r[2].walk(), r[3].walk()):
        if x.kind == REF:
            t = g.resolve(gname, y.text)
            if not isinstance(t, tuple):
                return False
            if t != tuple(x.text.split("\0")):
                return False
            if not reachable(g, t[0], t[1], env):
                return False
    return True


def fixed(rec):
    """Errors of imports resolved on their own; a missing file can appear later."""
    write("x/y.jsgf", "#JSGF V1.0;\ngrammar x.y;\npublic <a> = b;\n<p> = q;\npublic <c> = <p>;\n")
    memo = {}
    rec.eval()
    rec.nontrivial("fixed")
    a = Import("x.y.a").resolve(memo)
    rec.require(a.fully_qualified_name == "x.y.a" and Import("x.y.a").resolve(memo) is a and
                [r.name for r in Import("x.y.*").resolve(memo)] == ["a", "c"] and
                Import("x.y.*").resolve(memo)[0] is a, "imports sharing a memo differ")
    for bad in ("x.y.p", "x.y.none", "x.z.a", "x.z.*", "y.a"):
        try:
            Import(bad).resolve()
        except JSGFImportError:
            pass
        else:
            rec.fail("an import that means nothing was resolved", imported=bad)
    g = Grammar("later")
    g.add_import(Import("x.z.a"))
    g.add_rule(Rule("r", True, "a"))
    for k in range(2):
        try:
            g.get_rule("a")
        except JSGFImportError:
            pass
        else:
            rec.fail("a missing file was not reported")
    rec.require(g.get_rule("r").matches("a"), "a local rule needs no imports")
    write("x.z.jgram", "#JSGF V1.0;\ngrammar x.z;\npublic <a> = b;\n")
    rec.require(g.get_rule("a").matches("b"), "a file that appeared was not found")
    os.remove("x.z.jgram")
    shutil.rmtree("x")
