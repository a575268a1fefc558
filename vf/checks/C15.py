"""A grammar is an ordered registry of uniquely named rules and of imports."""
from jsgf import (Grammar, RootGrammar, Rule, PublicRule, PrivateRule, HiddenRule, Import,
                  GrammarError, Literal)
from ..gen import Cfg, grammar_nodes, eqkey, utterances, respell, tree, vocab
from ..model import build, LIT, REF
from ..lang import Lang
from ..state import state, explain
from .. import names

TECHNIQUE = "runtime monitor of operation histories against a registry model"
LEVEL = "exploration"
QUICK, THOROUGH = 1000, 20000
RULE = ("histories of about 30 operations (adding, removing, looking up and renaming rules "
        "and imports, with valid, comparable, conflicting, foreign and ill-typed "
        "arguments) on Grammar and RootGrammar; after each, everything the grammar lists "
        "is compared with a model; non-trivial = distinct (operation, outcome, registry)")
ASSUMPTIONS = ["rules are not added to two grammars and not renamed to taken names"]


class M(object):
    """Model of a rule."""
    def __init__(self, name, node, visible, cs, cls):
        self.name, self.node, self.visible, self.cs = name, node, visible, cs
        if cls is Rule:
            self.obj = Rule(name, visible, build(node), case_sensitive=cs)
        else:
            self.visible = cls is PublicRule
            self.obj = cls(name, build(node), case_sensitive=cs)
        self.set_cs(cs)

    def set_cs(self, cs):
        self.cs = cs
        for x in self.node.walk():
            x.cs = cs if x.kind == LIT else False

    def key(self):
        return (self.name, eqkey(self.node), self.visible, self.cs)


class Registry(object):
    """The model and the grammar it describes."""
    def __init__(self, rec, rng, i):
        self.rec, self.rng = rec, rng
        self.words = vocab(rng, 3)
        self.cs = rng.random() < .25
        self.cls = RootGrammar if rng.random() < .3 else Grammar
        self.name = names.grammar_name(rng)
        self.g = self.cls(name=self.name, case_sensitive=self.cs)
        self.rules, self.imports, self.all = [], [], []
        self.log = []
        self.pool = ["a", "b", "c", "d", "root", "e.x"[:1]]

    def fail(self, what, **kw):
        self.rec.fail(what, history=self.log[-8:], rules=[r.name for r in self.rules],
                      grammar=self.cls.__name__, **kw)

    def need(self, cond, what, **kw):
        if not cond:
            self.fail(what, **kw)

    # -- observations ----------------------------------------------------------------
    def observe(self):
        g, want = self.g, [r.obj for r in self.rules]

        def same(a, b):
            return isinstance(a, list) and len(a) == len(b) and \
                all(x is y for x, y in zip(a, b))
        self.rec.eval()
        self.need(same(g.rules, want), "wrong rules", got=[str(r) for r in g.rules])
        self.need(g.rule_names == [r.name for r in self.rules], "wrong rule names")
        vis = [r.obj for r in self.rules if r.visible]
        self.need(same(g.visible_rules, vis), "wrong visible rules")
        self.need(same(g.match_rules, vis), "wrong rules for matching")
        self.need([x.name for x in g.imports] == self.imports and
                  g.import_names == self.imports, "wrong imports", got=g.import_names,
                  want=self.imports)
        self.need(g.name == self.name, "wrong grammar name")
        for r in self.all:
            o = r.obj
            here = any(r is x for x in self.rules)
            self.need(o.grammar is (g if here else None), "a rule has a wrong grammar",
                      rule=r.name, grammar_of_rule=str(o.grammar), member=here)
            q = self.name.split(".")[-1] + "." + r.name if here else r.name
            f = self.name + "." + r.name if here else r.name
            self.need((o.name, o.qualified_name, o.fully_qualified_name) ==
                      (r.name, q, f), "wrong names of a rule", rule=r.name,
                      got=(o.name, o.qualified_name, o.fully_qualified_name))
            self.need(o.visible is r.visible and o.case_sensitive is r.cs and o.active,
                      "an attribute of a rule changed", rule=r.name)
        for r in self.rules:
            self.need(g.get_rule(r.name) is r.obj and
                      g.get_rule_from_name(r.name) is r.obj, "wrong rule for a name",
                      rule=r.name)

    def match(self):
        env = dict((r.name, r.node) for r in self.rules)
        if not self.rules or any(x.text not in env for n in env.values()
                                 for x in n.walk() if x.kind == REF):
            return
        lang = Lang(env)
        r = self.rng.choice(self.rules)
        for ws in utterances(self.rng, lang, r.node, self.words, 2):
            s = respell(self.rng, ws)
            got = self.g.find_matching_rules(s)
            want = [x.obj for x in self.rules if x.visible and x.obj.matches(s)]
            self.need(len(got) == len(want) and all(a is b for a, b in zip(got, want)),
                      "wrong matching rules", utterance=s, got=[x.name for x in got],
                      want=[x.name for x in want])
            self.rec.event("matching rules: %d" % min(len(want), 3))

    def attempt(self, what, fn, want, **kw):
        """Do fn, which must return or raise `want`; errors must change nothing."""
        self.log.append(what)
        objs = [r.obj for r in self.all]
        before = state(self.g, objs)
        try:
            res, got = fn(), None
        except (GrammarError, TypeError) as e:
            res, got = None, type(e)
        self.need(got is want, "an operation should %s" %
                  ("succeed" if want is None else "raise " + want.__name__),
                  operation=what, outcome=str(got), **kw)
        if want is not None:
            after = state(self.g, objs)
            self.need(before == after, "a rejected operation changed something",
                      operation=what, difference=explain(before, after))
        self.rec.event("%s: %s" % (what.split(" ")[0], want.__name__ if want else "ok"))
        self.rec.nontrivial(what.split(" ")[0], str(want), tuple(r.key() for r in
                                                                 self.rules))
        return res

    # -- operations ------------------------------------------------------------------
    def fresh(self, name=None):
        rng = self.rng
        cfg = Cfg(depth=rng.choice([0, 0, 1, 2]), p_weight=0, p_tag=.1,
                  refs=[r.name for r in self.rules], reps=True)
        r = rng.random()
        if name is None and r < .25 and self.all:
            # Like an existing rule, maybe with one thing changed.
            o = rng.choice(self.all)
            n = o.node.clone()
            m = M(o.name, n, o.visible, o.cs, Rule)
            k = rng.randrange(5)
            if k == 0:
                m.obj.visible = m.visible = not m.visible
            elif k == 1:
                m = M(o.name, o.node.clone(), o.visible, not o.cs, Rule)
            elif k == 2:
                m = M(o.name, tree(rng, self.words, cfg), o.visible, o.cs, Rule)
            return m
        name = name or (rng.choice(self.pool) if rng.random() < .7 else
                        names.base_name(rng))
        return M(name, tree(rng, self.words, cfg), rng.random() < .6,
                 self.cs if rng.random() < .6 else rng.random() < .5,
                 rng.choice([Rule, PublicRule, PrivateRule, HiddenRule]))

    def outcome(self, m):
        """What adding m does: the error, "ignored" or "added"."""
        if m.name == "root" and self.cls is RootGrammar:
            return GrammarError
        for r in self.rules:
            if r.name == m.name:
                return "ignored" if r.key() == m.key() else GrammarError
        return "added"

    def circular(self, *ms):
        """Whether rules would refer to themselves with ms added."""
        env = dict((r.name, r.node) for r in list(ms) + self.rules)
        for name in env:
            seen, todo = set(), [name]
            while todo:
                for x in env[todo.pop()].walk():
                    if x.kind == REF and x.text in env and x.text not in seen:
                        seen.add(x.text)
                        todo.append(x.text)
            if name in seen:
                return True
        return False

    def adopt(self, m):
        self.rules.append(m)
        m.set_cs(self.cs)

    def add(self):
        m = self.fresh()
        if self.circular(m):
            return
        o = self.outcome(m)
        if o == "added" or self.rng.random() < .5:
            self.all.append(m)
        if o == "added":
            m2 = m
            self.attempt("add %s" % m.name, lambda: self.g.add_rule(m2.obj), None)
            self.adopt(m)
        else:
            self.attempt("add-%s %s" % ("comparable" if o == "ignored" else "conflicting",
                                        m.name), lambda: self.g.add_rule(m.obj),
                         None if o == "ignored" else o)
            self.need(m.obj.grammar is None, "a rule that was not added has a grammar")

    def add_many(self):
        ms, err, n = [], None, len(self.rules)
        for _ in range(self.rng.randint(0, 3)):
            m = self.fresh()
            if not self.circular(m, *ms):
                ms.append(m)
        objs = [m.obj for m in ms]
        self.log.append("add_rules %s" % [m.name for m in ms])
        try:
            self.g.add_rules(*objs)
        except GrammarError as e:
            err = GrammarError
        want = None
        for m in ms:
            o = self.outcome(m)
            if o == "added":
                self.all.append(m)
                self.adopt(m)
            elif o != "ignored":
                want = o
                break
        self.need(err is want, "adding several rules should %s" %
                  ("fail" if want else "succeed"))
        self.rec.event("add_rules: %s" % (want and want.__name__))

    def users(self, m):
        """Rules that depend on m."""
        env = dict((r.name, r) for r in self.rules)
        out = []
        for r in self.rules:
            seen, todo = set(), [r]
            while todo:
                for x in todo.pop().node.walk():
                    if x.kind == REF and x.text not in seen and x.text in env:
                        seen.add(x.text)
                        todo.append(env[x.text])
            if m.name in seen:
                out.append(r)
        return out

    def dangling(self):
        env = set(r.name for r in self.rules)
        return any(x.kind == REF and x.text not in env for r in self.rules
                   for x in r.node.walk())

    def remove(self):
        rng = self.rng
        ignore = rng.random() < .2
        kw = {"ignore_dependent": True} if ignore else \
            rng.choice([{}, {"ignore_dependent": False}])
        k = rng.randrange(6)
        if k == 0 and not self.imports:
            self.attempt("remove-unknown", lambda: self.g.remove_rule("missing", **kw),
                         GrammarError)
            return
        if k == 1:
            m = self.fresh()
            if any(r.key() == m.key() for r in self.rules):
                m = [r for r in self.rules if r.key() == m.key()][0]
            else:
                self.attempt("remove-foreign %s" % m.name,
                             lambda: self.g.remove_rule(m.obj, **kw), GrammarError)
                return
        elif not self.rules:
            return
        else:
            m = rng.choice(self.rules)
        arg = m.obj
        how = "object"
        if rng.random() < .4:
            arg, how = m.name, "name"
        elif rng.random() < .3:
            arg, how = M(m.name, m.node.clone(), m.visible, m.cs, Rule).obj, "comparable"
        # Dependencies cannot be determined with references to removed rules.
        if not ignore and self.dangling():
            return
        if not ignore and self.users(m):
            self.attempt("remove-referenced %s" % m.name,
                         lambda: self.g.remove_rule(arg, **kw), GrammarError)
            return
        if ignore and self.users(m) and rng.random() < .8:
            return
        self.attempt("remove %s by %s" % (m.name, how),
                     lambda: self.g.remove_rule(arg, **kw), None)
        self.rules = [r for r in self.rules if r is not m]

    def readd(self):
        gone = [m for m in self.all if m.obj.grammar is None]
        if not gone:
            return
        m = self.rng.choice(gone)
        if self.circular(m):
            return
        o = self.outcome(m)
        self.attempt("readd %s" % m.name, lambda: self.g.add_rule(m.obj),
                     o if not isinstance(o, str) else None)
        if o == "added":
            self.adopt(m)

    def lookup(self):
        rng, g = self.rng, self.g
        ns = [rng.choice(self.rules).name for _ in range(rng.randint(0, 3))] \
            if self.rules else []
        fn = rng.choice([g.get_rules, g.get_rules_from_names])
        if rng.random() < .4 and not self.imports:
            ns.insert(rng.randint(0, len(ns)), "missing")
            self.attempt("lookup-missing", lambda: fn(*ns), GrammarError)
            self.attempt("lookup-missing one", lambda: g.get_rule("missing"), GrammarError)
            self.attempt("lookup-type", lambda: g.get_rule(rng.choice([None, 3, g, []])),
                         TypeError)
            self.attempt("lookup-invalid", lambda: g.get_rule(rng.choice(
                ["a b", "<a>", "", "a..b"])), GrammarError)
            return
        res = self.attempt("lookup", lambda: fn(*ns), None)
        by = dict((r.name, r.obj) for r in self.rules)
        self.need(isinstance(res, list) and len(res) == len(ns) and
                  all(x is by[n] for x, n in zip(res, ns)), "wrong rules for names",
                  names=ns)

    def rename(self):
        if not self.rules:
            return
        m = self.rng.choice(self.rules)
        if self.rng.random() < .3:
            def bad():
                m.obj.name = self.rng.choice(["", "NULL", "VOID", "a b", "<x>", "a.b"])
            self.attempt("rename-invalid", bad, GrammarError)
            return
        new = names.base_name(self.rng)
        taken = set(r.name for r in self.rules) | {"root"}
        old = m.name
        if new in taken or self.users(m):
            return
        m.name = new
        bad = self.circular()
        m.name = old
        if bad:
            return

        def fn():
            m.obj.name = new
        self.attempt("rename %s to %s" % (m.name, new), fn, None)
        m.name = new
        if not self.imports and new != old:
            self.attempt("lookup-renamed", lambda: self.g.get_rule(old), GrammarError)

    def regrammar(self):
        if self.rng.random() < .3:
            def bad():
                self.g.name = self.rng.choice(["", "NULL", "VOID", "a b", "x;y", "a..b"])
            self.attempt("rename-grammar-invalid", bad, GrammarError)
            return
        new = names.grammar_name(self.rng)

        def fn():
            self.g.name = new
        self.attempt("rename-grammar %s" % new, fn, None)
        self.name = new

    def show(self):
        if self.rules:
            m = self.rng.choice(self.rules)
            self.log.append("visibility of %s" % m.name)
            m.visible = not m.visible
            m.obj.visible = m.visible

    def imports_op(self):
        rng, g = self.rng, self.g
        s = rng.choice(self.imports) if self.imports and rng.random() < .4 else \
            rng.choice(["com.x.a", "com.x.*", "y.b", names.import_name(rng)])
        k = rng.randrange(7)
        if k == 0:
            bad = rng.choice(["com.x.a", 3, None, g])
            self.attempt("import-type", lambda: g.add_import(bad), TypeError)
        elif k == 1:
            ss = [rng.choice(["com.x.a", "com.x.b", "y.*"]) for _ in range(3)]
            self.attempt("imports %s" % ss, lambda: g.add_imports(*map(Import, ss)), None)
            for x in ss:
                if x not in self.imports:
                    self.imports.append(x)
        elif k in (2, 3):
            self.attempt("import %s" % s, lambda: g.add_import(Import(s)), None)
            if s not in self.imports:
                self.imports.append(s)
        elif k == 4:
            if s in self.imports:
                self.attempt("unimport %s" % s, lambda: g.remove_import(Import(s)), None)
                self.imports.remove(s)
            else:
                self.attempt("unimport-unknown %s" % s,
                             lambda: g.remove_import(Import(s)), GrammarError)
        elif k == 5:
            bad = rng.choice(["com.x.a", 3, None])
            self.attempt("unimport-type", lambda: g.remove_import(bad), TypeError)
        elif self.imports:
            ss = rng.sample(self.imports, rng.randint(1, len(self.imports)))
            self.attempt("unimports %s" % ss, lambda: g.remove_imports(*map(Import, ss)),
                         None)
            for x in ss:
                self.imports.remove(x)

    def bad_rule(self):
        bad = self.rng.choice(["a", None, 3, Literal("a"), self.g])
        self.attempt("add-type", lambda: self.g.add_rule(bad), TypeError)

    def spoil(self):
        g = self.g
        for x in (g.rules, g.visible_rules, g.rule_names, g.match_rules, g.imports,
                  g.import_names):
            x.reverse()
            del x[:1]
            x.append(None)


def case(rec, rng, i):
    r = Registry(rec, rng, i)
    ops = [r.add] * 7 + [r.add_many, r.remove, r.remove, r.remove, r.readd, r.lookup,
                         r.rename, r.regrammar, r.show, r.imports_op, r.imports_op,
                         r.bad_rule, r.spoil]
    for k in range(rng.choice([12, 25, 40])):
        rng.choice(ops)()
        r.observe()
        if rng.random() < .15:
            r.match()
    if i < 3:
        rec.sample(r.log)
