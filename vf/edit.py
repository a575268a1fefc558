"""Random edits applied in step to nodes and to the library's objects."""
from .model import (Node, LIT, SEQ, REQ, ALT, OPT, REP, STAR, REF, NULL, VOID, build)
from .gen import Cfg, tree, eqkey, literal


def weights_ok(root):
    for n in root.walk():
        if n.kind == ALT and n.weights is not None:
            ks = [eqkey(c) for c in n.kids]
            if len(set(ks)) != len(ks):
                return False
            if any(w is None for w in n.weights):
                return False
    return True


def set_kid_weight(n, idx, w):
    n.weights[idx] = w


class Editor(object):
    """
    Edits the trees in env (name -> node, with node.obj set). refs(name) lists the rules
    that the rule may reference.
    """
    def __init__(self, rng, words, env, refs, p_cs=0.0):
        self.rng, self.words, self.env, self.refs, self.p_cs = rng, words, env, refs, p_cs
        self.log = []
        self.weighted = False   # only edit weights, where there are any

    def fresh(self, name, depth=1):
        cfg = Cfg(depth=depth, refs=self.refs(name), p_cs=self.p_cs,
                  p_tag=self.rng.choice([0, .2]))
        return tree(self.rng, self.words, cfg)

    def root_ok(self, name):
        return weights_ok(self.env[name])

    def edit(self, name):
        """Try one random edit of rule `name`; returns a description or None."""
        rng = self.rng
        root = self.env[name]
        nodes = [n for n in root.walk()]
        n = rng.choice(nodes)
        if self.weighted:
            ns = [x for x in nodes if x.kind == ALT and x.weights is not None and x.kids]
            if ns:
                n = rng.choice(ns)
                k = rng.choice(["weight", "weight", "weights"])
                return getattr(self, "do_" + k)(name, root, n)
        kinds = []
        if n.kind in (SEQ, REQ, ALT) and n.kids:
            kinds += ["append", "insert", "setitem", "extend", "iadd", "children",
                      "slice", "swap", "move"] * 2
            if len(n.kids) > (2 if n.kind == ALT else 1):
                kinds += ["pop", "remove", "delslice"] * 2
            kinds += ["clear"]
        if n.kind in (OPT, REP, STAR):
            kinds += ["setitem", "children"] * 2
        if n.kind == LIT:
            kinds += ["text"] * 3 + ["case"]
        if n.kind == REF and len(self.refs(name)) > 1:
            kinds += ["refname"]
        if n.kind == ALT and n.kids:
            kinds += ["weight", "weights", "weight"]
        kinds += ["tag"]
        k = rng.choice(kinds)
        return getattr(self, "do_" + k)(name, root, n)

    # Each do_* checks the edit on the nodes first, then applies it to both.

    def _apply_kids(self, root, n, kids, weights, apply):
        old_k, old_w = n.kids, n.weights
        n.kids, n.weights = kids, weights
        if not weights_ok(root):
            n.kids, n.weights = old_k, old_w
            return False
        new = [c for c in kids if not any(c is x for x in old_k)]
        for c in new:
            if c.obj is None:
                build(c)
        apply()
        if weights is not None:
            for i, w in enumerate(weights):
                if any(kids[i] is c for c in new):
                    n.obj.set_weight(i, w)
        return True

    def _w(self, n, kids_weights):
        return kids_weights if n.weights is not None else None

    def _rw(self):
        return float(self.rng.choice([0, 1, 2, 5, 0.5, 10]))

    def _fresh_obj(self, name):
        c = self.fresh(name)
        if self.rng.random() < .3:
            c = literal(self.rng, self.words, Cfg())
        return c

    def _value(self, c):
        """What to hand to the library: plain strings are accepted for literals."""
        if c.kind == LIT and not c.cs and not c.tag and c.obj is None and \
                self.rng.random() < .4:
            return c.text
        return build(c)

    def _adopt(self, n):
        """Strings were turned into expansions: learn which ones."""
        for c, o in zip(n.kids, n.obj.children):
            if c.obj is not o:
                c.obj = o

    def _change(self, name, root, n, kids, weights, apply, what):
        old_k, old_w = n.kids, n.weights
        n.kids, n.weights = kids, weights
        if not weights_ok(root):
            n.kids, n.weights = old_k, old_w
            return None
        apply()
        self._adopt(n)
        if weights is not None:
            for i, w in enumerate(weights):
                if not any(kids[i] is c for c in old_k):
                    n.obj.set_weight(i if self.rng.random() < .5 else n.obj.children[i],
                                     w)
        return "%s in %s" % (what, n.show())

    def do_append(self, name, root, n):
        c = self._fresh_obj(name)
        return self._change(name, root, n, n.kids + [c],
                            n.weights and n.weights + [self._rw()],
                            lambda: n.obj.children.append(self._value(c)), "append")

    def do_insert(self, name, root, n):
        c = self._fresh_obj(name)
        i = self.rng.randint(0, len(n.kids))
        return self._change(name, root, n, n.kids[:i] + [c] + n.kids[i:],
                            n.weights and n.weights[:i] + [self._rw()] + n.weights[i:],
                            lambda: n.obj.children.insert(i, self._value(c)), "insert")

    def do_setitem(self, name, root, n):
        if not n.kids:
            return None
        c = self._fresh_obj(name)
        i = self.rng.randrange(len(n.kids))

        def apply():
            n.obj.children[i if self.rng.random() < .5 else i - len(n.obj.children)] = \
                self._value(c)
        return self._change(name, root, n, n.kids[:i] + [c] + n.kids[i + 1:],
                            n.weights and n.weights[:i] + [self._rw()] +
                            n.weights[i + 1:], apply, "replace")

    def do_extend(self, name, root, n):
        cs = [self._fresh_obj(name) for _ in range(self.rng.randint(1, 2))]
        return self._change(name, root, n, n.kids + cs,
                            n.weights and n.weights + [self._rw() for _ in cs],
                            lambda: n.obj.children.extend([self._value(c) for c in cs]),
                            "extend")

    def do_iadd(self, name, root, n):
        c = self._fresh_obj(name)

        def apply():
            lst = n.obj.children
            lst += [self._value(c)]
        return self._change(name, root, n, n.kids + [c],
                            n.weights and n.weights + [self._rw()], apply, "+=")

    def do_children(self, name, root, n):
        m = 1 if n.kind in (OPT, REP, STAR) else self.rng.randint(1, 3)
        cs = [self._fresh_obj(name) for _ in range(m)]

        def apply():
            v = [self._value(c) for c in cs]
            n.obj.children = v if self.rng.random() < .5 else tuple(v)
        return self._change(name, root, n, cs,
                            n.weights and [self._rw() for _ in cs], apply, "children=")

    def do_slice(self, name, root, n):
        i = self.rng.randint(0, len(n.kids))
        j = self.rng.randint(i, len(n.kids))
        cs = [self._fresh_obj(name) for _ in range(self.rng.randint(1, 2))]

        def apply():
            n.obj.children[i:j] = [self._value(c) for c in cs]
        return self._change(name, root, n, n.kids[:i] + cs + n.kids[j:],
                            n.weights and n.weights[:i] + [self._rw() for _ in cs] +
                            n.weights[j:], apply, "[%d:%d]=" % (i, j))

    def do_delslice(self, name, root, n):
        i = self.rng.randrange(len(n.kids))

        def apply():
            n.obj.children[i:i + 1] = []
        return self._change(name, root, n, n.kids[:i] + n.kids[i + 1:],
                            n.weights and n.weights[:i] + n.weights[i + 1:], apply,
                            "[%d:%d]=[]" % (i, i + 1))

    def do_swap(self, name, root, n):
        if n.weights is not None or len(n.kids) < 2:
            return None
        i = self.rng.randrange(len(n.kids))
        kids = n.kids[:i] + n.kids[i + 1:] + [n.kids[i]]

        def apply():
            n.obj.children.append(n.obj.children.pop(i))
        return self._change(name, root, n, kids, n.weights, apply, "rotate")

    def do_pop(self, name, root, n):
        i = self.rng.randrange(len(n.kids))
        return self._change(name, root, n, n.kids[:i] + n.kids[i + 1:],
                            n.weights and n.weights[:i] + n.weights[i + 1:],
                            lambda: n.obj.children.pop(i), "pop")

    def do_remove(self, name, root, n):
        # Removes the first comparable child.
        i = self.rng.randrange(len(n.kids))
        k = eqkey(n.kids[i])
        i = [eqkey(c) for c in n.kids].index(k)
        o = n.kids[i].obj
        return self._change(name, root, n, n.kids[:i] + n.kids[i + 1:],
                            n.weights and n.weights[:i] + n.weights[i + 1:],
                            lambda: n.obj.children.remove(o), "remove")

    def do_clear(self, name, root, n):
        cs = [self._fresh_obj(name)]
        if n.kind == ALT:
            cs.append(self._fresh_obj(name))

        def apply():
            n.obj.children.clear()
            n.obj.children.extend([self._value(c) for c in cs])
        return self._change(name, root, n, cs, n.weights and [self._rw() for _ in cs],
                            apply, "clear and extend")

    def do_move(self, name, root, n):
        """Move a child of n to another list in the same rule."""
        i = self.rng.randrange(len(n.kids))
        c = n.kids[i]
        inside = set(id(x) for x in c.walk())
        dests = [d for d in root.walk() if d.kind in (SEQ, REQ) and d.kids and
                 id(d) not in inside]
        if not dests or len(n.kids) < 2 or n.weights is not None:
            return None
        d = self.rng.choice(dests)
        n.kids = n.kids[:i] + n.kids[i + 1:]
        d.kids = d.kids + [c]
        if not weights_ok(root):
            d.kids = d.kids[:-1]
            n.kids.insert(i, c)
            return None
        o = n.obj.children.pop(i)
        d.obj.children.append(o)
        return "move to %s" % d.show()

    def do_text(self, name, root, n):
        old = n.text
        n.text = literal(self.rng, self.words, Cfg()).text
        if self.rng.random() < .3:
            t = self.rng.choice([old.upper(), old.title(), old.lower(),
                                 old[:1] + old[1:].swapcase()])
            n.text = t if len(t) == len(old) else n.text
        if not weights_ok(root):
            n.text = old
            return None
        n.obj.text = n.text
        return "text %r -> %r" % (old, n.text)

    def do_case(self, name, root, n):
        n.cs = not n.cs
        if not weights_ok(root):
            n.cs = not n.cs
            return None
        n.obj.case_sensitive = n.cs
        return "case of %r" % n.text

    def do_refname(self, name, root, n):
        old = n.text
        n.text = self.rng.choice(self.refs(name))
        if not weights_ok(root):
            n.text = old
            return None
        n.obj.name = n.text
        return "reference %s -> %s" % (old, n.text)

    def do_weight(self, name, root, n):
        if n.weights is None:
            return None
        i = self.rng.randrange(len(n.kids))
        n.weights[i] = self._rw()
        key = i if self.rng.random() < .5 else n.kids[i].obj
        n.obj.set_weight(key, n.weights[i])
        return "weight"

    def do_weights(self, name, root, n):
        old = n.weights
        n.weights = [self._rw() for _ in n.kids]
        if not weights_ok(root):
            n.weights = old
            return None
        n.obj.weights = dict((c.obj, w) for c, w in zip(n.kids, n.weights))
        return "weights="

    def do_tag(self, name, root, n):
        n.tag = self.rng.choice(["", "t1", "t2", "two words"])
        n.obj.tag = n.tag
        return "tag"
