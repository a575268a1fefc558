"""Structural questions about expansion trees and about trees joined by references."""
import pickle

from jsgf import (JointTreeContext, map_expansion, Expansion, GrammarError, Sequence,
                  flat_map_expansion,
                  NamedRuleRef, RuleRef, Rule, Literal, RequiredGrouping)
from ..world import World, STYLES, random_world
from ..gen import utterances, respell, vocab, tree, literal, Cfg
from ..model import LIT, SEQ, REQ, ALT, OPT, REP, STAR, REF, Node, build, from_jsgf
from ..edit import Editor
from ..parse import ref_counts

TECHNIQUE = "runtime monitor of structural answers against a model of the (joined) tree"
LEVEL = "exploration"
QUICK, THOROUGH = 1200, 20000
RULE = ("random grammars, asked about pairs of expansions in random order and repeatedly, in "
        "and out of joint tree contexts (left normally, by an error, or never entered), "
        "before and after edits with invalidate_calculations called for all trees; "
        "non-trivial = distinct (tree, pair)")
ASSUMPTIONS = ["rules do not refer to themselves",
               "within joined trees, rules are referenced once",
               "invalidate_calculations was called for every part moved, added or removed and what "
               "is below it",
               "sets of just one alternative are not asked about is_alternative"]


class Tree(object):
    """Parents of nodes, as the trees are at the moment."""
    def __init__(self, w):
        self.w, self.env = w, w.env
        self.up, self.joined = {}, {}
        self.name_of = {}
        for name, root in w.rules:
            root = w.env[name]
            self.go(root, name)

    def go(self, n, name):
        self.name_of[id(n)] = name
        for k in n.kids:
            self.up[id(k)] = n
            self.go(k, name)

    def parent(self, n):
        return self.up.get(id(n)) or self.joined.get(id(n))

    def line(self, n):
        """n and its ancestors."""
        out = []
        while n is not None:
            out.append(n)
            n = self.parent(n)
        return out

    def below(self, n):
        """n and everything in its tree, also by references."""
        out = [n]
        kids = n.kids
        if n.kind == REF and n.text in self.env:
            kids = [self.env[n.text]]
        for k in kids:
            out += self.below(k)
        return out

    def root(self, n):
        return self.line(n)[-1]

    def leaves(self, n):
        return [x for x in self.below(n) if not x.kids]

    def exclusive(self, a, b):
        la, lb = self.line(a), self.line(b)
        if la[-1] is not lb[-1]:
            return False
        ids = {id(x): i for i, x in enumerate(la)}
        for j, x in enumerate(lb):
            if id(x) in ids:
                i = ids[id(x)]
                # x is the closest common one; a and b in different parts of it?
                return x.kind == ALT and i > 0 and j > 0
        return False

    def rep(self, n):
        for x in self.line(n)[1:]:
            if x.kind in (REP, STAR):
                return x
        return None


class Asker(object):
    def __init__(self, rec, rng, w):
        self.rec, self.rng, self.w = rec, rng, w
        self.asked = []

    def fail(self, what, **kw):
        self.rec.fail(what, tree=self.w.show(), joined=self.where, **kw)

    def one(self, t, n, x=None):
        rec, e = self.rec, n.obj
        rec.eval()
        k = self.rng.randrange(8)
        line = t.line(n)
        if k == 0:
            want = line[-1].obj
            if e.root_expansion is not want:
                self.fail("another root", part=n.show(), got=str(e.root_expansion))
        elif k == 1:
            want = any(y.kind in (OPT, STAR) for y in line)
            if e.is_optional is not want:
                self.fail("is_optional differs", part=n.show(), got=e.is_optional)
        elif k == 2:
            if any(y.kind == ALT and len(y.kids) < 2 for y in line):
                return
            want = any(y.kind == ALT for y in line)
            if e.is_alternative is not want:
                self.fail("is_alternative differs", part=n.show(), got=e.is_alternative)
        elif k == 3:
            want = t.rep(n)
            want = want.obj if want is not None else None
            if e.repetition_ancestor is not want:
                self.fail("another closest repetition", part=n.show(),
                          got=str(e.repetition_ancestor), want=str(want))
        elif k == 4:
            self.leaves(t, n, "leaves_after", lambda y: True)
        elif k == 5:
            self.leaves(t, n, "matchable_leaves_after", lambda y: not t.exclusive(n, y))
        elif k == 6:
            want = t.parent(n)
            if e.parent is not (want.obj if want is not None else None):
                self.fail("another parent", part=n.show(), got=str(e.parent))
        else:
            want = [y.obj for y in t.leaves(n)]
            got = e.leaves
            if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
                self.fail("other leaves", part=n.show(), got=str(got), want=str(want))

    def leaves(self, t, n, what, ok):
        all_ = t.leaves(t.root(n))
        at = [i for i, y in enumerate(all_) if y is n]
        want = [y.obj for y in all_[at[0]:] if y is not n and ok(y)] if at else []
        it = getattr(n.obj, what)
        got = list(it)
        if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
            self.fail("%s differs" % what, part=n.show(), got=str(got), want=str(want))
        if want:
            self.rec.event(what)

    def two(self, t, a, b):
        rec, rng = self.rec, self.rng
        rec.eval()
        rec.nontrivial(self.w.show(), a.show(), b.show())
        if rng.random() < .5:
            want = a is not b and any(y is a for y in t.below(b))
            got = a.obj.is_descendant_of(b.obj)
            if got is not want:
                self.fail("is_descendant_of differs", part=a.show(), of=b.show(), got=got)
            if want:
                rec.event("descendants")
        else:
            want = t.exclusive(a, b)
            got = a.obj.mutually_exclusive_of(b.obj)
            if got is not want:
                self.fail("mutually_exclusive_of differs", part=a.show(), of=b.show(),
                          got=got)
            if want:
                rec.event("mutually exclusive")

    def ask(self, t, nodes, n, where):
        self.where = where
        rng = self.rng
        for _ in range(n):
            if rng.random() < .35:
                self.one(t, rng.choice(nodes))
            else:
                a = rng.choice(nodes)
                b = rng.choice(nodes)
                if rng.random() < .3:
                    b = rng.choice(t.line(a))
                if rng.random() < .5:
                    a, b = b, a
                if self.asked and rng.random() < .4:
                    # The same again, if both are still there.
                    x, y = rng.choice(self.asked)
                    if any(n is x for n in nodes) and any(n is y for n in nodes):
                        a, b = x, y
                        self.rec.event("pairs asked again")
                else:
                    self.asked.append((a, b))
                self.two(t, a, b)


class Stop(Exception):
    pass


def joint(rec, rng, w, t, asker, start, us):
    """The tree of start, joined with those of the rules it references."""
    inside = t.below(start)
    refs = [n for n in inside if n.kind == REF and n.text in w.env]
    every = [n.text for n in t.below(t.root(start)) if n.kind == REF]
    once = len(set(every)) == len(every)
    j = Tree(w)
    for n in refs:
        j.joined[id(w.env[n.text])] = n
    asker.where = "in context"
    nodes = t.below(t.root(start))
    nodes = list({id(n): n for n in nodes}.values())
    before = {u: w.rule.matches(u) for u in us}
    ctx = JointTreeContext(start.obj)
    error = rng.random() < .3
    try:
        with ctx:
            if once:
                asker.ask(j, nodes, rng.choice([0, 5, 15]), "in a context")
                rec.event("joined trees with references" if refs else "joined trees")
            else:
                for n in refs:
                    p = w.env[n.text].obj.parent
                    if not any(p is r.obj for r in refs if r.text == n.text):
                        asker.fail("a referenced tree is not joined", rule=n.text)
                rec.event("joined trees, references more than once")
            for u in us:
                rec.eval()
                r = w.rule.matches(u)
                rec.event("utterances in joined trees %smatched" % ("" if r else "not "))
                if r is not before[u]:
                    asker.fail("a match differs in joined trees", utterance=u, got=r)
            if error:
                raise Stop()
    except Stop:
        rec.event("contexts left by errors")
    else:
        if error:
            asker.fail("a joint tree context hides errors")
    asker.where = "after a context"
    for name in w.env:
        if w.env[name].obj.parent is not None:
            asker.fail("a tree was left joined", rule=name,
                       parent=str(w.env[name].obj.parent))


def missing(rec, rng, w):
    """No trees are joined if a reference cannot be resolved."""
    names = [n for n, _ in w.rules]
    parts = [RuleRef(w.by_name[n]) for n in names] + [NamedRuleRef("missing")]
    rng.shuffle(parts)
    e = rng.choice([Sequence, RequiredGrouping])(*parts)
    r = Rule("extra", True, e)
    try:
        with JointTreeContext(e):
            rec.fail("trees with missing rules were joined", tree=str(e))
    except GrammarError:
        pass
    for n in names:
        if w.env[n].obj.parent is not None:
            rec.fail("a tree was left joined by an error", rule=n, tree=str(e))
    rec.event("missing rules")


def moved(rec, rng):
    """All pairs, before and after parts are moved within a tree, joined or not."""
    words = vocab(rng, 3)
    rules = [("r0", tree(rng, words, Cfg(depth=rng.choice([2, 3]), maxkids=3, special=.02,
                                         p_weight=0)))]
    name = "r0"
    if rng.random() < .5:
        name = "r1"
        rules.append(("r1", Node(rng.choice([SEQ, ALT, REQ]),
                                 [literal(rng, words, Cfg()), Node(REF, text="r0")])))
    w = World(rules, rng.choice(STYLES))
    root, top = w.env["r0"], w.env[name]
    nodes = list(root.walk()) + ([n for n in top.walk()] if name == "r1" else [])
    if not 4 < len(nodes) < 24:
        return
    asker = Asker(rec, rng, w)

    def all_pairs():
        ctx, t = None, Tree(w)
        asker.where = "no"
        if name == "r1" and rng.random() < .6:
            ctx = JointTreeContext(rng.choice([top, top, top.kids[1]]).obj)
            ctx.__enter__()
            t.joined[id(root)] = top.kids[1]
            asker.where = "in a context"
        try:
            pairs = [(a, b) for a in nodes for b in nodes]
            rng.shuffle(pairs)
            for a, b in pairs[:rng.choice([40, 200, 600])]:
                asker.two(t, a, b)
        finally:
            if ctx is not None:
                ctx.__exit__(None, None, None)

    for _ in range(rng.choice([1, 2])):
        all_pairs()
    for _ in range(rng.choice([1, 2, 3])):
        t = Tree(w)
        movable = [n for n in root.walk() if n is not root and len(t.parent(n).kids) > 1
                   and t.parent(n).kind in (SEQ, REQ, ALT)]
        rng.shuffle(movable)
        for n in movable:
            own = {id(x) for x in n.walk()}
            to = [d for d in root.walk() if d.kind in (SEQ, REQ, ALT) and d.kids and
                  id(d) not in own and d is not t.parent(n)]
            if not to:
                continue
            d, p = rng.choice(to), t.parent(n)
            k = [x is n for x in p.kids].index(True)
            j = rng.randint(0, len(d.kids))
            n.obj.parent.children.pop(k)
            del p.kids[k]
            d.obj.children.insert(j, n.obj)
            d.kids.insert(j, n)
            map_expansion(n.obj, Expansion.invalidate_calculations, shallow=True)
            rec.event("parts moved")
            break
        for _ in range(rng.choice([1, 2])):
            all_pairs()


def saved(rec, rng):
    """Loaded trees do not answer what others were asked, whose places they may take."""
    words = vocab(rng, 3)
    blobs = []
    for _ in range(3):
        n = tree(rng, words, Cfg(depth=3, maxkids=3, special=.02, p_weight=0))
        e = build(n)
        es = flat_map_expansion(e)
        for a in es:
            for b in es:
                a.is_descendant_of(b)
                a.mutually_exclusive_of(b)
        blobs.append((n, pickle.dumps(e, rng.choice([0, 2, pickle.HIGHEST_PROTOCOL]))))
        for x in n.walk():
            x.obj = None
        del e, es, a, b
    for _ in range(3):
        n, blob = rng.choice(blobs)
        e = pickle.loads(blob)
        if rng.random() < .5:
            # Other parts take their places.
            for x in list(e.children):
                e.children.remove(x)
                e.children.append(x)
                map_expansion(x, Expansion.invalidate_calculations)
        n = from_jsgf(e)
        t = Tree(Lone(n))
        nodes = list(n.walk())
        for a in nodes:
            for b in nodes:
                rec.eval()
                got = a.obj.is_descendant_of(b.obj), a.obj.mutually_exclusive_of(b.obj)
                want = (a is not b and any(y is a for y in t.below(b)), t.exclusive(a, b))
                if got != want:
                    rec.fail("a loaded tree answers otherwise", tree=n.show(),
                             part=a.show(), other=b.show(), got=got, want=want)
    rec.event("trees loaded")


class Lone(object):
    """A tree that belongs to no rule."""
    def __init__(self, n):
        self.rules, self.env = [("", n)], {"": n}


def case(rec, rng, i):
    words, w = random_world(rng, nrules=rng.choice([1, 2, 3, 4]))
    names = [n for n, _ in w.rules]
    ed = Editor(rng, words, w.env, lambda name: names[:names.index(name)]
                if w.style == "grammar" else [])
    asker = Asker(rec, rng, w)
    us = utterances(rng, w.lang, w.node, words, n=3)
    keep = []
    for rnd in range(4):
        t = Tree(w)
        nodes = [n for name in names for n in w.env[name].walk()]
        keep.append(nodes)
        if len(nodes) > 120:
            return
        asker.ask(t, nodes, rng.choice([5, 20, 60]), "no")
        for _ in range(rng.choice([0, 1, 2])):
            start = w.env[rng.choice(names + [w.name] * 3)]
            if rng.random() < .2:
                start = rng.choice(list(start.walk()))
            u = respell(rng, rng.choice(us))
            before = w.rule.matches(u)
            joint(rec, rng, w, t, asker, start,
                  [respell(rng, x) for x in us[:3]] if rng.random() < .5 else [])
            if w.rule.matches(u) is not before:
                asker.fail("a match differs after joining trees", utterance=u)
            asker.ask(t, nodes, rng.choice([0, 10]), "no (after a context)")
        # Changes, and the call that is due after them.
        was = {id(n.obj): (n.obj, n.obj.parent) for n in nodes}
        refs = any(n.kind == REF for n in nodes)
        for _ in range(rng.randint(1, 3)):
            if ed.edit(rng.choice(names)):
                rec.event("edits")
        now = [n for name in names for n in w.env[name].walk()]
        keep.append(now)
        if rng.random() < .5 and not refs and not any(n.kind == REF for n in now):
            # For what was moved, added or removed, and what is below.
            for n in now:
                was.setdefault(id(n.obj), (n.obj, None))
            for x, p in was.values():
                if x.parent is not p:
                    map_expansion(x, Expansion.invalidate_calculations, shallow=True)
                    rec.event("calculations of moved parts invalidated")
        else:
            for x in [x for x, _ in was.values() if x.parent is None] + \
                    [w.env[n].obj for n in names]:
                map_expansion(x, Expansion.invalidate_calculations, shallow=True)
    if i % 3 == 0:
        moved(rec, rng)
    if i % 4 == 0:
        saved(rec, rng)
    if i % 6 == 0:
        missing(rec, rng, w)
    if i < 3:
        rec.sample(w.show())
