"""Traversal functions visit every expansion once per occurrence, in order."""
from jsgf import (GrammarError, map_expansion, find_expansion, filter_expansion,
                  flat_map_expansion, TraversalOrder, save_current_matches,
                  restore_current_matches, Sequence, NamedRuleRef, Literal,
                  RequiredGrouping, AlternativeSet, Rule, Grammar)
from ..world import random_world
from ..gen import utterances, respell, eqkey, vocab
from ..model import LIT, SEQ, REQ, ALT, REF, Node, build
from ..edit import Editor

TECHNIQUE = "runtime monitor of visits against an independent walk over a model of the tree"
LEVEL = "exploration"
QUICK, THOROUGH = 8000, 100000
RULE = ("traversals from any expansion of random grammars, in both orders, shallow and not, "
        "with callbacks that return anything or raise, after edits; matches saved, lost and "
        "restored; non-trivial = distinct (tree, order, shallow)")
ASSUMPTIONS = ["rules do not refer to themselves",
               "saving and restoring matches concerns pairwise different expansions"]

PRE, POST = TraversalOrder.PreOrder, TraversalOrder.PostOrder
FALSY = [None, 0, "", [], (), False, 0.0]
TRUTHY = [True, 1, "x", [0], (None,), 2.5, object()]


def visits(n, env, order, shallow):
    """Nodes in the order visited."""
    if n.kind == REF and n.text in env and not shallow:
        below = visits(env[n.text], env, order, shallow)
    else:
        below = [x for k in n.kids for x in visits(k, env, order, shallow)]
    return [n] + below if order == PRE else below + [n]


def nested(n, env, order, shallow, results):
    """The documented tuples, taking results in the order visited."""
    def below():
        if n.kind == REF and n.text in env and not shallow:
            return nested(env[n.text], env, order, shallow, results)
        return tuple([nested(k, env, order, shallow, results) for k in n.kids])
    if order == PRE:
        v = next(results)
        return (v, below())
    b = below()
    return (b, next(results))


class Boom(Exception):
    pass


def same(a, b):
    """Equal tuples, with the same objects in them."""
    if isinstance(b, tuple) and isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a is b


def traverse(rec, rng, w, start):
    env = w.env
    order, shallow = rng.choice([PRE, POST]), rng.random() < .4
    want = visits(start, env, order, shallow)
    objs = [n.obj for n in want]
    e = start.obj
    rec.nontrivial(start.show(), order, shallow)
    kw = dict(tree=w.show(), start=start.show(), order="pre" if order == PRE else "post",
              shallow=shallow)
    if shallow:
        rec.event("shallow traversals")
    elif any(n.kind == REF for n in want):
        rec.event("traversals through references")
    seen = []
    values = [rng.choice(FALSY + TRUTHY) for _ in objs]

    def log(x):
        seen.append(x)
        return values[len(seen) - 1] if len(seen) <= len(values) else None

    def args(fn, f=None):
        """Arguments by position or name, leaving defaults out at times."""
        if f is None:
            a = {"order": order, "shallow": shallow}
        else:
            if rng.random() < .5:
                return fn(e, f, order, shallow)
            a = {"func": f, "order": order, "shallow": shallow}
        if order == PRE and rng.random() < .5:
            del a["order"]
        if not shallow and rng.random() < .5:
            del a["shallow"]
        return fn(e, **a)

    def visited(what, n=None):
        rec.eval()
        m = objs if n is None else objs[:n]
        if len(seen) != len(m) or any(a is not b for a, b in zip(seen, m)):
            rec.fail("%s visits other expansions" % what, got=[str(x) for x in seen],
                     want=[str(x) for x in m], **kw)
        del seen[:]

    r = args(map_expansion, log)
    visited("map_expansion")
    x = nested(start, env, order, shallow, iter(values))
    if not same(r, x):
        rec.fail("map_expansion returns something else", got=repr(r), want=repr(x), **kw)
    r = args(map_expansion)
    x = nested(start, env, order, shallow, iter(objs))
    if not same(r, x):
        rec.fail("map_expansion without a function returns something else", got=repr(r),
                 want=repr(x), **kw)
    r = args(flat_map_expansion, log)
    visited("flat_map_expansion")
    if not isinstance(r, list) or not same(tuple(r), tuple(values)):
        rec.fail("flat_map_expansion returns something else", got=repr(r),
                 want=repr(values), **kw)
    for fn in (flat_map_expansion, filter_expansion):
        r = args(fn)
        if not isinstance(r, list) or not same(tuple(r), tuple(objs)):
            rec.fail("%s without a function returns something else" % fn.__name__,
                     got=repr(r), want=repr(objs), **kw)
    r = args(filter_expansion, log)
    visited("filter_expansion")
    x = [o for o, v in zip(objs, values) if v]
    if not isinstance(r, list) or not same(tuple(r), tuple(x)):
        rec.fail("filter_expansion returns something else", got=repr(r), want=repr(x), **kw)
    # Finding stops at the first one.
    if rng.random() < .6:
        k = rng.randrange(len(objs))
        values[:] = [rng.choice(FALSY) for _ in range(k)] + [rng.choice(TRUTHY)] + \
            [rng.choice(FALSY + TRUTHY) for _ in objs[k + 1:]]
    elif rng.random() < .5:
        values[:] = [rng.choice(FALSY) for _ in objs]
    n = next((i for i, v in enumerate(values) if v), None)
    r = args(find_expansion, log)
    visited("find_expansion", None if n is None else n + 1)
    if r is not (None if n is None else objs[n]):
        rec.fail("find_expansion returns something else", got=repr(r),
                 want=None if n is None else str(objs[n]), **kw)
    # Leaves.
    x = [o.obj for o in want if not o.kids]
    r = e.collect_leaves(order, shallow) if rng.random() < .5 else \
        e.collect_leaves(order=order, shallow=shallow)
    if not same(tuple(r), tuple(x)):
        rec.fail("other leaves", got=repr(r), want=repr(x), **kw)
    x = [o.obj for o in visits(start, env, PRE, False) if not o.kids]
    if not same(tuple(e.leaves), tuple(x)):
        rec.fail("other leaves by property", got=repr(e.leaves), want=repr(x), **kw)
    # An error in the function ends the traversal.
    k = rng.randrange(len(objs))

    def stop(x):
        seen.append(x)
        if len(seen) == k + 1:
            raise Boom()

    for fn in (map_expansion, flat_map_expansion, filter_expansion, find_expansion):
        try:
            r = args(fn, stop)
        except Boom:
            visited(fn.__name__ + " with an error", k + 1)
        else:
            rec.fail("%s hides an error of the function" % fn.__name__, got=repr(r), **kw)
    bad = rng.choice([2, -1, None, "pre", 7, "0"])
    for fn in (map_expansion, flat_map_expansion, filter_expansion, find_expansion,
               lambda e, f, order, shallow: e.collect_leaves(order, shallow)):
        try:
            r = fn(e, log, bad, shallow)
        except ValueError:
            if seen:
                rec.fail("visits with a wrong order", order=repr(bad), tree=w.show())
        else:
            rec.fail("a wrong order is accepted", wrong=repr(bad), got=repr(r), **kw)


def unresolved(rec, rng):
    """A reference to a rule that does not exist stops traversals that need it."""
    words = vocab(rng)
    ref = NamedRuleRef("missing")
    a, b = Literal(words[0]), Literal(words[-1])
    e = rng.choice([Sequence, RequiredGrouping, AlternativeSet])(a, ref, b)
    how = rng.randrange(3)
    if how:
        r = Rule("r", True, e)
        if how == 2:
            g = Grammar("g")
            g.add_rules(r, Rule("other", True, "x"))
    for fn in (map_expansion, flat_map_expansion, filter_expansion, find_expansion):
        for order, want in ((PRE, [e, a, ref]), (POST, [a])):
            seen = []
            try:
                fn(e, lambda x: seen.append(x), order)
            except GrammarError:
                pass
            else:
                rec.fail("%s passes over a missing rule" % fn.__name__)
            if not same(tuple(seen), tuple(want)):
                rec.fail("%s visits others before a missing rule" % fn.__name__,
                         got=repr(seen))
            seen = []
            fn(e, lambda x: seen.append(x), order, shallow=True)
            want = [e, a, ref, b] if order == PRE else [a, ref, b, e]
            if not same(tuple(seen), tuple(want)):
                rec.fail("shallow %s visits others" % fn.__name__, got=repr(seen))
            rec.eval(2)
    rec.event("missing rules")


def childless(rec, rng):
    """Expansions that could have children are leaves too if they have none."""
    words = vocab(rng)

    def leaf():
        return rng.choice([Sequence, RequiredGrouping, AlternativeSet])() \
            if rng.random() < .5 else Literal(rng.choice(words))

    def make(d):
        if not d:
            return leaf(), 1
        xs = [make(d - 1 if rng.random() < .6 else 0) for _ in range(rng.randint(1, 3))]
        k = rng.choice([Sequence, RequiredGrouping, AlternativeSet])
        e = k(*[x for x, _ in xs])
        return e, sum(n for _, n in xs)
    e, n = make(rng.choice([0, 1, 2, 3]))

    def leaves(x):
        return [x] if not x.children else [y for c in x.children for y in leaves(c)]
    want = leaves(e)
    rec.eval()
    assert len(want) == n
    for got in (e.leaves, e.collect_leaves(), e.collect_leaves(POST),
                e.collect_leaves(PRE, True)):
        if not same(tuple(got), tuple(want)):
            rec.fail("other leaves with expansions that have no children", tree=str(e),
                     got=[str(x) for x in got], want=[str(x) for x in want])
    rec.event("trees with expansions that have no children")


def matches(rec, rng, w, words):
    """Saving and restoring what was matched."""
    nodes = w.all_nodes()
    ks = [eqkey(n) for n in nodes]
    if len(set(ks)) != len(ks):
        rec.event("saved matches of comparable expansions skipped")
        return
    us = utterances(rng, w.lang, w.node, words, n=4)

    def data():
        return [(n.obj.current_match, n.obj.matching_slice) for n in nodes]

    def match():
        if rng.random() < .2:
            w.rule.expansion.reset_for_new_match()
        else:
            w.rule.matches(respell(rng, rng.choice(us)))

    match()
    e = w.rule.expansion
    a = data()
    saved = save_current_matches(e)
    rec.eval()
    if len(saved) != len(nodes):
        rec.fail("not every expansion was saved", tree=w.show(), got=len(saved),
                 want=len(nodes))
    for n, (m, s) in zip(nodes, a):
        d = saved.get(n.obj)
        if d != {"current_match": m, "matching_slice": s}:
            rec.fail("saved match data differs", tree=w.show(), part=n.show(), got=d,
                     want=(m, s))
    if data() != a:
        rec.fail("saving changes match data", tree=w.show())
    match()
    b = data()
    over = rng.random() < .6
    if over and rng.random() < .5:
        restore_current_matches(e, saved)
    else:
        restore_current_matches(e, saved, over)
    want = [x if over else (x[0] if x[0] is not None else y[0],
                            x[1] if x[1] is not None else y[1]) for x, y in zip(a, b)]
    got = data()
    for n, x, y in zip(nodes, got, want):
        if x != y:
            rec.fail("restored match data differs", tree=w.show(), part=n.show(), got=x,
                     want=y, override_none=over)
    # Only what was saved is restored.
    match()
    b = data()
    part = rng.choice(nodes)
    restore_current_matches(e, {part.obj: saved[part.obj]})
    i = [k for k, n in enumerate(nodes) if n is part][0]
    b[i] = a[i]
    if data() != b:
        rec.fail("restoring the data of one expansion changes others", tree=w.show(),
                 part=part.show())
    rec.event("saved and restored matches")


def case(rec, rng, i):
    words, w = random_world(rng)
    ed = Editor(rng, words, w.env,
                lambda name: [n for n, _ in w.rules][:[n for n, _ in w.rules].index(name)]
                if w.style == "grammar" else [])
    for rnd in range(3):
        for _ in range(2):
            name = rng.choice([w.name, w.name] + list(w.env))
            root = w.env[name]
            start = root if rng.random() < .4 else rng.choice(list(root.walk()))
            traverse(rec, rng, w, start)
        if rng.random() < .5:
            matches(rec, rng, w, words)
        for _ in range(rng.randint(1, 3)):
            if ed.edit(rng.choice(list(w.env))):
                rec.event("edits")
    if i % 5 == 0:
        unresolved(rec, rng)
        childless(rec, rng)
    if i < 3:
        rec.sample(w.show())
