"""Child lists behave like lists, and every expansion knows its parent."""
from jsgf import (Literal, Sequence, RequiredGrouping, AlternativeSet, OptionalGrouping,
                  Repeat, KleeneStar, NamedRuleRef, NullRef, VoidRef, Rule, Grammar)
from ..gen import eqkey
from ..model import from_jsgf

TECHNIQUE = "runtime monitor of list operation histories against Python lists and parent links"
LEVEL = "exploration"
QUICK, THOROUGH = 6000, 60000
RULE = ("histories of 40 list operations (also with wrong indices, sizes, types and absent "
        "elements, on several lists between which expansions move, inside rules and "
        "loose) compared with Python lists; non-trivial = distinct (operation, lists)")
ASSUMPTIONS = ["an expansion is a member of at most one list, once"]
MULTI = [Sequence, RequiredGrouping, AlternativeSet]
SINGLE = [OptionalGrouping, Repeat, KleeneStar]


class Lists(object):
    def __init__(self, rec, rng):
        self.rec, self.rng = rec, rng
        self.known = []        # every expansion ever seen
        self.lists = []        # (owner, model list)
        self.log = []
        for _ in range(rng.choice([2, 3, 4])):
            self.new_owner()
        self.rule = None
        if rng.random() < .5:
            o = self.lists[0][0]
            self.rule = Rule("r", True, o)
            if rng.random() < .5:
                self.g = Grammar("g")
                self.g.add_rules(self.rule, Rule("x", True, "zzz"))
                self.rule.matches("a b")

    def model(self, o):
        for x, l in self.lists:
            if x is o:
                return l
        return None

    def leaf(self):
        rng = self.rng
        k = rng.randrange(8)
        if k < 5:
            e = Literal(rng.choice(["a", "a", "b", "c d", "e"]))
        else:
            e = [NullRef(), VoidRef(), NamedRuleRef("x")][k - 5]
        if rng.random() < .2:
            e.tag = rng.choice(["t", "t1", "T.2"])
        self.known.append(e)
        return e

    def new_owner(self):
        rng = self.rng
        k = rng.choice(MULTI + SINGLE)
        kids = [self.leaf() for _ in range(1 if k in SINGLE else rng.randint(0, 4))]
        if rng.random() < .3 and k not in SINGLE:
            strs = ["s%d" % j for j in range(len(kids))]
            kids2 = [rng.choice([x, s]) for x, s in zip(kids, strs)]
            o = k(*kids2)
            kids = [y if isinstance(x, str) else x for x, y in zip(kids2, o.children)]
            self.known += kids
        else:
            o = k(*kids)
        if rng.random() < .2:
            o.tag = rng.choice(["t", "t1", "T.2"])
        self.known.append(o)
        self.lists.append((o, kids))
        return o

    def taken(self):
        return set(id(x) for _, l in self.lists for x in l)

    def free(self, owner):
        """Something that can be put into owner's list: (argument, expansion or None)."""
        rng = self.rng
        r = rng.random()
        if r < .2:
            return rng.choice(["word", "two words"]), None
        if r < .6:
            # An expansion in no list, not above the owner.
            t = self.taken()
            above = set()
            x = owner
            while x is not None:
                above.add(id(x))
                x = self.owner_of(x)
            c = [x for x in self.known if id(x) not in t and id(x) not in above and
                 (self.rule is None or x is not self.rule.expansion)]
            if c:
                e = rng.choice(c)
                return e, e
        e = self.leaf()
        return e, e

    def owner_of(self, x):
        for o, l in self.lists:
            if any(x is y for y in l):
                return o
        return None

    def several(self, owner, lo=0, hi=3):
        out, seen = [], set()
        for _ in range(self.rng.randint(lo, hi)):
            a, e = self.free(owner)
            if e is None or id(e) not in seen:
                seen.add(id(e))
                out.append(a)
        return out

    def fail(self, what, **kw):
        self.rec.fail(what, history=self.log[-6:],
                      lists=[(type(o).__name__, [str(x) for x in l])
                             for o, l in self.lists], **kw)

    def settle(self, o, m):
        """Learn the expansions made from strings."""
        real = list(o.children)
        if len(real) != len(m):
            self.fail("a list has a wrong length", got=[str(x) for x in real],
                      want=[str(x) for x in m])
        for j, (x, y) in enumerate(zip(m, real)):
            if isinstance(x, str):
                if type(y) is not Literal or y.text != x:
                    self.fail("a string was not made a literal", got=str(y), want=x)
                if not any(y is k for k in self.known):
                    self.known.append(y)
                m[j] = y
        for k, (x, l) in enumerate(self.lists):
            if x is o:
                self.lists[k] = (o, m)

    def observe(self):
        self.rec.eval()
        where = {}
        for o, l in self.lists:
            c = o.children
            if len(c) != len(l) or any(x is not y for x, y in zip(c, l)) or \
                    len(list(c)) != len(l) or \
                    any(c[j] is not x for j, x in enumerate(l)) or \
                    any(c[-j - 1] is not x for j, x in enumerate(reversed(l))):
                self.fail("a list has other elements", got=[str(x) for x in c],
                          want=[str(x) for x in l], owner=type(o).__name__)
            if bool(c) != bool(l) or not (c == l) or (c != l) or c + [] != l or \
                    c[:] != l or c[1:] != l[1:]:
                self.fail("a list is not equal to its elements")
            more = l + [self.known[0]]
            if c < l or not c < more or not c <= l or c > l or not c >= l or c > more:
                self.fail("a list has another order than its elements")
            o2, l2 = self.lists[0]
            for s, w in ((c + o2.children, l + l2), (o2.children + c, l2 + l), (c + l2, l + l2)):
                if type(s) is not list or len(s) != len(w) or \
                        any(x is not y for x, y in zip(s, w)):
                    self.fail("the sum of lists has other elements",
                              got=[str(x) for x in s], want=[str(x) for x in w])
            if repr(c) != repr(l):
                self.fail("a list is displayed as another", got=repr(c), want=repr(l))
            for x in l:
                where[id(x)] = o
            if len(l) == 1 and type(o) in SINGLE and o.child is not l[0] or \
                    type(o) in SINGLE and not l and o.child is not None:
                self.fail("the only child is wrong")
        for x in self.known:
            if x.parent is not where.get(id(x)):
                self.fail("an expansion has a wrong parent", expansion=str(x),
                          got=str(x.parent), want=str(where.get(id(x))))
            r = x
            while id(r) in where:
                r = where[id(r)]
            if x.root_expansion is not r:
                self.fail("an expansion has a wrong root", expansion=str(x),
                          got=str(x.root_expansion), want=str(r))

    def expect(self, what, fn, err):
        """fn must raise one of err."""
        self.log.append(what)
        try:
            fn()
        except err as e:
            self.rec.event("%s: %s" % (what.split()[0], type(e).__name__))
        else:
            self.fail("an impossible operation succeeded", operation=what)

    def step(self):
        rng = self.rng
        o, l = rng.choice(self.lists)
        m = list(l)
        c = o.children
        n = len(l)
        i = rng.randint(-n - 1, n + 1)
        kinds = ["append", "insert", "extend", "iadd", "setitem", "setslice", "pop",
                 "remove", "clear", "assign", "index", "owner", "bad", "reorder", "xslice",
                 "move", "orphan"]
        if type(o) in SINGLE:
            kinds = ["setitem", "assign", "pop", "append", "bad", "remove", "index"]
            if n:
                kinds.remove("append")
        k = rng.choice(kinds)
        self.log.append("%s.%s %d" % (type(o).__name__, k, i))
        self.rec.nontrivial(k, i, [(type(a).__name__, [eqkey(from_jsgf(x)) for x in b])
                                   for a, b in self.lists])
        self.rec.event(k)
        if k == "append":
            a, _ = self.free(o)
            c.append(a)
            m.append(a)
        elif k == "insert":
            a, _ = self.free(o)
            c.insert(i, a)
            m.insert(i, a)
        elif k in ("extend", "iadd"):
            s = self.several(o)
            arg = rng.choice([list, tuple, iter])(s)
            if k == "extend":
                c.extend(arg)
            elif rng.random() < .5:
                c += arg
            else:
                o.children += list(s)
            m.extend(s)
        elif k == "setitem":
            a, _ = self.free(o)
            if not -n <= i < n:
                def fn():
                    c[i] = a
                self.expect("setitem-range", fn, IndexError)
                return
            if rng.random() < .25:
                a = m[i]        # to its own place
            c[i] = a
            m[i] = a
        elif k == "setslice":
            j = rng.randint(-n - 1, n + 1)
            s = self.several(o)
            if rng.random() < .4:
                # Some of these elements stay, in any order.
                s += [x for x in m[i:j] if rng.random() < .7]
                rng.shuffle(s)
            c[i:j] = rng.choice([list, tuple])(s)
            m[i:j] = s
        elif k == "xslice":
            st = rng.choice([2, -1, -2, 3])
            size = len(m[::st])
            s = []
            for _ in range(size if rng.random() < .7 else size + 1):
                a, e = self.free(o)
                if e is None or not any(a is y for y in s):
                    s.append(a)
            if len(s) != size:
                def fn():
                    c[::st] = s
                self.expect("xslice-size", fn, ValueError)
                return
            c[::st] = s
            m[::st] = s
        elif k == "reorder":
            p = list(m)
            rng.shuffle(p)
            if rng.random() < .5:
                c[:] = p
            else:
                o.children = p
            m = p
        elif k == "pop":
            if rng.random() < .3 and n:
                x = c.pop()
                y = m.pop()
            elif not -n <= i < n:
                self.expect("pop-range", lambda: c.pop(i), IndexError)
                return
            else:
                x = c.pop(i)
                y = m.pop(i)
            if x is not y:
                self.fail("pop returned something else", got=str(x), want=str(y))
        elif k == "remove":
            x = rng.choice(self.known)
            if rng.random() < .5 and m:
                x = rng.choice(m)
            key = eqkey(from_jsgf(x))
            idx = [j for j, y in enumerate(m) if type(y) is type(x) and
                   eqkey(from_jsgf(y)) == key]
            if not idx:
                self.expect("remove-absent", lambda: c.remove(x), ValueError)
                return
            c.remove(x)
            del m[idx[0]]
        elif k == "clear":
            if rng.random() < .5:
                c.clear()
            else:
                o.children = []
            m = []
        elif k == "assign":
            s = self.several(o, 1, 1) if type(o) in SINGLE else self.several(o)
            if rng.random() < .3 and m and type(o) not in SINGLE:
                s.insert(rng.randint(0, len(s)), rng.choice(m))
            v = rng.choice([list, tuple])(s)
            o.children = v
            m = list(s)
        elif k == "index":
            x = rng.choice(self.known)
            key = eqkey(from_jsgf(x))
            a = rng.randint(0, n)
            idx = [j for j, y in enumerate(m) if j >= a and type(y) is type(x) and
                   eqkey(from_jsgf(y)) == key]
            if not idx:
                self.expect("index-absent", lambda: c.index(x, a), ValueError)
                return
            if c.index(x, a) != idx[0] or c.index(x, idx[0], idx[0] + 1) != idx[0]:
                self.fail("wrong index", got=c.index(x, a), want=idx[0])
            a, b = rng.randint(-n - 1, n), rng.randint(-n - 1, n + 1)
            span = range(n)[slice(a, b)]
            idx = [j for j in span if type(m[j]) is type(x) and
                   eqkey(from_jsgf(m[j])) == key]
            if not idx:
                self.expect("index-absent", lambda: c.index(x, a, b), ValueError)
            elif c.index(x, a, b) != idx[0]:
                self.fail("wrong index", got=c.index(x, a, b), want=idx[0])
            return
        elif k == "owner":
            self.new_owner()
            return
        elif k == "move":
            if not m:
                return
            x = m.pop(rng.randrange(len(m)))
            c.remove(x) if c.index(x) == [j for j, y in enumerate(c)
                                          if y is x][0] else c.pop(
                [j for j, y in enumerate(c) if y is x][0])
            self.settle(o, m)
            below = set(id(y) for y in walk(x))
            d, l2 = rng.choice(self.lists)
            if id(d) in below or type(d) in SINGLE:
                return
            d.children.append(x)
            l2 = list(l2) + [x]
            self.settle(d, l2)
            return
        elif k == "orphan":
            self.log.append("(assign)")
            o.children = tuple(m)
        elif k == "bad":
            bad = rng.choice([3, None, object(), ["a"], {"a": 1}])
            ok = Literal("ok")
            j = rng.randint(-n, n)

            def si():
                c[0] = bad

            def ss():
                c[i:j] = [ok, bad]

            def ia():
                o.children += [ok, bad]

            def asg():
                o.children = rng.choice([[ok, bad], bad if not isinstance(bad, list)
                                         else 7, "text", {1}])

            def par():
                ok.parent = rng.choice(["a", 3, [ok]])
            ops = [lambda: c.append(bad), lambda: c.insert(0, bad),
                   lambda: c.extend([ok, bad]), ss, ia, asg, par,
                   lambda: type(o)(bad), lambda: c.extend(7)]
            if n:
                ops.append(si)
            self.expect("wrong-type", rng.choice(ops), TypeError)
            if ok.parent is not None:
                self.fail("a rejected operation set a parent")
            return
        self.settle(o, m)


def walk(x):
    yield x
    for c in x.children:
        for y in walk(c):
            yield y


def taken_over(rec, rng):
    """An expansion added to a list belongs to it, whatever list it was in before."""
    kids = [Literal("k%d" % j) for j in range(4)]
    old = rng.choice(MULTI)(*kids)
    new = rng.choice(MULTI)(*[Literal("n%d" % j) for j in range(rng.randint(1, 3))])
    c = new.children
    xs = rng.sample(kids, rng.randint(1, 3))
    k = rng.randrange(8)
    if k == 0:
        c.extend(xs)
    elif k == 1:
        new.children += xs
    elif k == 2:
        c[0:rng.randint(0, 1)] = xs
    elif k == 3:
        new.children = xs
    elif k == 4:
        new = rng.choice(MULTI)(*xs)
    else:
        xs = xs[:1]
        if k == 5:
            c.append(xs[0])
        elif k == 6:
            c.insert(0, xs[0])
        else:
            c[0] = xs[0]
    rec.eval()
    rec.event("expansions of other lists")
    for x in xs:
        rec.require(x.parent is new and any(x is y for y in new.children),
                    "an expansion of another list has not the parent it was added to",
                    operation=k, expansion=str(x), got=str(x.parent))
    for x in kids:
        if not any(x is y for y in xs):
            rec.require(x.parent is old, "an expansion has lost its parent",
                        operation=k, expansion=str(x), got=str(x.parent))


def case(rec, rng, i):
    taken_over(rec, rng)
    s = Lists(rec, rng)
    s.observe()
    for _ in range(40):
        s.step()
        s.observe()
    if i < 3:
        rec.sample(s.log)
