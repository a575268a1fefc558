"""Dependencies, dependent rules and reference counts."""
from jsgf import (Grammar, Rule, PublicRule, PrivateRule, GrammarError, NamedRuleRef,
                  Sequence, AlternativeSet)
from jsgf.expansions import RuleRef
from ..gen import Cfg, tree, vocab, literal
from ..model import Node, REF, SEQ, REQ, ALT, LIT, OPT, REP, STAR, build

TECHNIQUE = "runtime monitor of dependency sets against reachability in a model"
LEVEL = "exploration"
QUICK, THOROUGH = 450, 10000
RULE = ("histories of rules added, removed, disabled, hidden, renamed, given other "
        "expansions and references, in one or two grammars or none, by name or by object; "
        "all dependency answers compared after each step; non-trivial = distinct "
        "(reference graph)")
ASSUMPTIONS = ["rules do not refer to themselves",
               "in histories, rules are pairwise different and all references can be resolved"]


class H(object):
    """
    Rules in a fixed order of which later ones may reference earlier ones: uid -> object,
    node, grammar and names. References in nodes hold (uid, by object?).
    """
    def __init__(self, rec, rng):
        self.rec, self.rng = rec, rng
        self.words = vocab(rng)
        self.gs = [Grammar("g%d" % i) for i in range(rng.choice([1, 1, 2]))]
        self.rules = []         # dicts: obj, node, g (index or None), name, uid
        self.n = 0
        self.log = []

    def index(self, r):
        return self.rules.index(r)

    def targets(self, at, g):
        """Earlier rules that may be referenced: with whether by name."""
        out = []
        for r in self.rules[:at]:
            out.append((r, False))
            if g is not None and r["g"] == g:
                out.append((r, True))
                out.append((r, True))
        return out

    def node(self, at, g):
        rng = self.rng
        ts = self.targets(at, g)
        cfg = Cfg(depth=rng.choice([0, 1, 2, 2, 3]), refs=("?",) if ts else (),
                  special=.3 if ts else .05, p_tag=.1)
        n = tree(rng, self.words, cfg)
        for x in n.walk():
            if x.kind == ALT:
                x.weights = None
            if x.kind == LIT and ts and rng.random() < .3:
                x.kind = REF
            if x.kind == REF:
                r, byname = rng.choice(ts)
                x.text = (r["uid"], byname)
        return n

    def build(self, n):
        by = {r["uid"]: r for r in self.rules}

        def real(x):
            y = Node(x.kind, [real(k) for k in x.kids], x.text, x.tag)
            if x.kind == REF:
                r = by[x.text[0]]
                if not x.text[1]:
                    rules["!" + r["name"]] = r["obj"]
                    y.text = "!" + r["name"]
                else:
                    y.text = r["name"]
            return y
        rules = {}
        return build(real(n), rules, keep=False)

    def name(self):
        self.n += 1
        return "r%d" % self.n

    def direct(self, n):
        return {x.text[0] for x in n.walk() if x.kind == REF}

    def deps(self, r):
        by = {x["uid"]: x for x in self.rules}
        out, todo = set(), [r]
        while todo:
            for u in self.direct(todo.pop()["node"]):
                if u not in out:
                    out.add(u)
                    todo.append(by[u])
        return out

    def named(self, r):
        """Rules that reference r by name somewhere."""
        return [x for x in self.rules if any(
            y.kind == REF and y.text == (r["uid"], True) for y in x["node"].walk())]

    def referenced(self, r):
        return [x for x in self.rules if r["uid"] in self.direct(x["node"])]

    def show(self):
        def s(r):
            return "%s%s=%s" % (r["name"], "" if r["g"] is None else "@g%d" % r["g"],
                                sorted((x.text[0], "name" if x.text[1] else "object")
                                       for x in r["node"].walk() if x.kind == REF))
        return "; ".join(s(r) for r in self.rules)

    def add(self):
        rng = self.rng
        g = rng.choice([None] + list(range(len(self.gs))) * 3)
        self.n += 1
        r = dict(uid="r%d" % self.n, name="r%d" % self.n, g=g)
        r["node"] = self.node(len(self.rules), g)
        e = self.build(r["node"])
        k = rng.randrange(3)
        r["obj"] = (Rule(r["name"], rng.random() < .5, e) if k == 0 else
                    PublicRule(r["name"], e) if k == 1 else PrivateRule(r["name"], e))
        if g is not None:
            rng.choice([self.gs[g].add_rule, self.gs[g].add_rules])(r["obj"])
        self.rules.append(r)
        self.log.append("add %s" % r["name"])

    def step(self):
        rng = self.rng
        k = rng.choice(["add", "add", "remove", "expansion", "expansion", "child", "rename",
                        "toggle", "hide", "refname", "move", "case"])
        if not self.rules or k == "add":
            if len(self.rules) < 8:
                self.add()
            return
        r = rng.choice(self.rules)
        at = self.index(r)
        o, g = r["obj"], r["g"]
        self.log.append("%s %s" % (k, r["name"]))
        self.rec.event("step: " + k)
        if k == "remove":
            if self.referenced(r):
                return
            if g is not None:
                self.gs[g].remove_rule(rng.choice([o, o.name]))
                # Not in a grammar any more.
                if rng.random() < .5 and not any(
                        x.kind == REF and x.text[1] for x in r["node"].walk()):
                    r["g"] = None
                    return
            self.rules.remove(r)
        elif k == "expansion":
            r["node"] = self.node(at, g)
            o.expansion = self.build(r["node"])
        elif k == "child":
            tops = [r["node"]]
            if r["node"].kind not in (SEQ, REQ, ALT):
                return
            if rng.random() < .5 or len(r["node"].kids) < 2:
                c = self.node(at, g)
                i = rng.randint(0, len(r["node"].kids))
                r["node"].kids.insert(i, c)
                o.expansion.children.insert(i, self.build(c))
            else:
                i = rng.randrange(len(r["node"].kids))
                r["node"].kids.pop(i)
                o.expansion.children.pop(i)
        elif k == "rename":
            # References by name would be lost.
            if not self.named(r):
                r["name"] = self.name()
                o.name = r["name"]
        elif k == "toggle":
            rng.choice([o.enable, o.disable])()
        elif k == "hide":
            o.visible = rng.random() < .5
        elif k == "refname":
            refs = [(x, y) for x, y in zip(r["node"].walk(), self.walk(o.expansion))
                    if x.kind == REF and x.text[1]]
            ts = [t for t, byname in self.targets(at, g) if byname]
            if refs and ts:
                x, y = rng.choice(refs)
                t = rng.choice(ts)
                x.text = (t["uid"], True)
                y.name = t["name"]
        elif k == "move":
            # To another grammar, with nothing referencing by name.
            if g is None or len(self.gs) < 2 or self.named(r) or any(
                    x.kind == REF and x.text[1] for x in r["node"].walk()):
                return
            self.gs[g].remove_rule(o, ignore_dependent=True)
            r["g"] = 1 - g
            self.gs[1 - g].add_rule(o)
        elif k == "case":
            o.case_sensitive = rng.random() < .5

    @staticmethod
    def walk(e):
        yield e
        for c in e.children:
            for x in H.walk(c):
                yield x

    def check(self):
        rec = self.rec
        by = {r["uid"]: r for r in self.rules}
        rec.nontrivial(self.show())
        deps = {r["uid"]: self.deps(r) for r in self.rules}
        order = list(self.rules)
        self.rng.shuffle(order)
        for r in order:
            rec.eval()
            o = r["obj"]
            got = o.dependencies
            want = [by[u]["obj"] for u in deps[r["uid"]]]
            kw = dict(rule=r["name"], rules=self.show(), history=self.log[-6:])
            if not isinstance(got, set) or {id(x) for x in got} != {id(x) for x in want}:
                rec.fail("dependencies differ", got=sorted(x.name for x in got),
                         want=sorted(x.name for x in want), **kw)
            want = [x["obj"] for x in self.rules if r["g"] is not None and
                    x["g"] == r["g"] and r["uid"] in deps[x["uid"]]]
            got = o.dependent_rules
            if not isinstance(got, set) or {id(x) for x in got} != {id(x) for x in want}:
                rec.fail("dependent rules differ", got=sorted(x.name for x in got),
                         want=sorted(x.name for x in want), **kw)
            if o.reference_count != len(want):
                rec.fail("reference count differs", got=o.reference_count,
                         want=len(want), **kw)
            if want:
                rec.event("rules with dependent ones")
                # They cannot be removed unintentionally.
                try:
                    self.gs[r["g"]].remove_rule(self.rng.choice([o, o.name]))
                except GrammarError:
                    pass
                else:
                    rec.fail("a rule was removed that others depend on", **kw)


def comparable(rec, rng):
    """Rules equal to one of a grammar count as that one."""
    words = vocab(rng)
    n = tree(rng, words, Cfg(depth=1, special=.02))
    vis = rng.random() < .5
    a, b = [Rule("a", vis, build(n.clone())) for _ in range(2)]
    g = Grammar("g")
    g.add_rule(a)
    if rng.random() < .5:
        g.add_rule(b)       # silently ignored
    ref = RuleRef(b)
    user = Rule("user", True, rng.choice([
        lambda: ref, lambda: Sequence("x", ref), lambda: AlternativeSet("x", ref)])())
    g.add_rule(user)
    rec.eval()
    rec.nontrivial("comparable", n.show(), str(user.expansion))
    if a.dependent_rules != {user} or a.reference_count != 1:
        rec.fail("a rule equal to a referenced one has other dependent rules",
                 rule=n.show(), got=sorted(x.name for x in a.dependent_rules))
    for arg in (a, "a", b):
        try:
            g.remove_rule(arg)
        except GrammarError:
            pass
        else:
            rec.fail("a rule equal to a referenced one was removed", rule=n.show())
    g.remove_rule(user)
    if a.dependent_rules or a.reference_count:
        rec.fail("a rule not used any more has dependent rules", rule=n.show())
    g.remove_rule(rng.choice([a, "a", b]))
    if g.rules or a.grammar is not None:
        rec.fail("a rule equal to the one given was not removed", rule=n.show())
    rec.event("equal rules")


def namesakes(rec, rng):
    """Rules of the same name elsewhere are other rules."""
    words = vocab(rng)
    n = tree(rng, words, Cfg(depth=1, special=.02))
    vis = rng.random() < .5
    a = Rule("a", vis, build(n.clone()))
    other = Sequence(build(n.clone()), "something else")
    b = Rule("a", vis, other) if rng.random() < .6 else Rule("a", not vis, build(n.clone()))
    g = Grammar("g")
    g.add_rule(a)
    if rng.random() < .5:
        Grammar(rng.choice(["g", "h"])).add_rule(b)
    ref = RuleRef(b)
    user = Rule("user", True, rng.choice([
        lambda: ref, lambda: Sequence("x", ref), lambda: AlternativeSet("x", ref)])())
    g.add_rule(user)
    rec.eval()
    rec.event("rules of the same name elsewhere")
    rec.nontrivial("namesakes", n.show(), str(user.expansion))
    if user.dependencies != {b} or a in user.dependencies:
        rec.fail("the dependencies include another rule of the same name", rule=n.show())
    if a.dependent_rules or a.reference_count:
        rec.fail("a rule of the same name as a referenced one has dependent rules",
                 rule=n.show(), got=sorted(x.name for x in a.dependent_rules))
    if rng.random() < .5:
        name = Rule("name", True, Sequence(NamedRuleRef("a"), "y"))
        g.add_rule(name)
        if a.dependent_rules != {name} or name.dependencies != {a} or \
                a.reference_count != 1:
            rec.fail("wrong dependent rules of a rule with a namesake elsewhere",
                     rule=n.show(), got=sorted(x.name for x in a.dependent_rules))
        g.remove_rule(name)
    try:
        g.remove_rule(rng.choice([a, "a"]))
    except GrammarError:
        rec.fail("a rule that nothing references was not removed", rule=n.show())
    if g.rules != [user] or user.dependencies != {b}:
        rec.fail("removing a rule changed others", rule=n.show())


def case(rec, rng, i):
    if i % 3 == 0:
        comparable(rec, rng)
    if i % 3 == 1:
        namesakes(rec, rng)
    h = H(rec, rng)
    for _ in range(rng.choice([2, 4, 6])):
        h.add()
    h.check()
    for _ in range(10):
        h.step()
        h.check()
    if i < 3:
        rec.sample(h.show())
