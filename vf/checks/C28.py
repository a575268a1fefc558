"""Pickled expansions, rules and grammars come back the same."""
import gc
import pickle
from jsgf import Grammar, RootGrammar, Rule, Import, Literal, AlternativeSet, parse_grammar_string
from ..gen import Cfg, tree, vocab, utterances, respell, grammar_nodes
from ..model import build, from_jsgf, LIT, REF, REP, STAR, ALT
from ..snap import node_data, slice_t
from ..world import World
from ..lang import Lang
from .. import names

TECHNIQUE = "runtime monitor of pickled and unpickled objects in parallel histories"
LEVEL = "exploration"
QUICK, THOROUGH = 1500, 25000
RULE = ("expansions, rules and grammars, before and after matching, edited or parsed, "
        "pickled by every protocol and compared with the originals in content, links and "
        "match data, then matched and changed in parallel; non-trivial = distinct objects")
ASSUMPTIONS = ["rules do not refer to themselves"]


def walk(x):
    yield x
    for c in x.children:
        for y in walk(c):
            yield y


def compare(rec, a, b, what, data=True, **kw):
    """b is the unpickled counterpart of the tree a."""
    xs, ys = list(walk(a)), list(walk(b))
    rec.eval()
    if len(xs) != len(ys):
        rec.fail("unpickled %s has another shape" % what, **kw)
    pos = dict((id(x), i) for i, x in enumerate(xs))
    for x, y in zip(xs, ys):
        for f in ("tag", "text", "case_sensitive", "name", "repetitions_matched",
                  "use_current_match"):
            if getattr(x, f, None) != getattr(y, f, None):
                rec.fail("unpickled %s has another %s" % (what, f), part=str(x),
                         got=getattr(y, f, None), want=getattr(x, f, None), **kw)
        if type(x) is not type(y) or x is y:
            rec.fail("unpickled %s has parts of another type" % what, part=str(x), **kw)
        if x is not a and (y.parent is None or y.parent is not ys[pos[id(x.parent)]]):
            rec.fail("unpickled %s has a wrong parent" % what, part=str(x), **kw)
        if y.root_expansion is not b.root_expansion:
            rec.fail("unpickled %s has a wrong root" % what, part=str(x), **kw)
        d = [(e.current_match, slice_t(e.matching_slice), bool(e.had_match))
             for e in (x, y)]
        if data and d[0] != d[1]:
            rec.fail("unpickled %s has other match data" % what, part=str(x), got=d[1],
                     want=d[0], **kw)
        if data and hasattr(x, "get_expansion_matches"):
            for p, q in zip(xs, ys):
                if x.get_expansion_matches(p) != y.get_expansion_matches(q) or \
                        x.get_expansion_slices(p) != y.get_expansion_slices(q):
                    rec.fail("unpickled %s has other data of repetitions" % what,
                             part=str(x), expansion=str(p),
                             got=y.get_expansion_matches(q),
                             want=x.get_expansion_matches(p), **kw)
        w = getattr(x, "weights", None)
        if w is not None:
            v = y.weights
            # Weights belong to the alternatives of the unpickled set.
            if sorted(w.values()) != sorted(v.values()) or any(
                    not any(k is c for c in y.children) for k in v) and not any(
                    not any(k is c for c in x.children) for k in w):
                rec.fail("unpickled %s has other weights" % what, part=str(x), **kw)
    if (a.rule is None) != (b.rule is None):
        rec.fail("unpickled %s has lost its rule" % what, **kw)
    if not (a == b) or hash(a) != hash(b):
        rec.fail("unpickled %s is not equal" % what, **kw)


def compiled(o):
    return o.compile()


def pickled(rng, o):
    return pickle.loads(pickle.dumps(o, rng.choice(list(range(pickle.HIGHEST_PROTOCOL + 1)) +
                                                   [2, 2])))


def expansions(rec, rng):
    words = vocab(rng, 3)
    n = tree(rng, words, Cfg(depth=rng.choice([0, 1, 2, 3]), p_cs=.2, p_tag=.2,
                             childless=.05))
    a = build(n)
    kw = dict(expansion=n.show())
    lang = Lang({})
    spoken = [respell(rng, u) for u in utterances(rng, lang, n, words, 3)]
    k = rng.randrange(3)
    if k:
        for s in spoken[:k]:
            a.matches(s)
    if rng.random() < .3:
        a.compile()
        for x in walk(a):
            x.is_descendant_of(a)
            x.mutually_exclusive_of(a)
    part = a
    if rng.random() < .3:
        part = rng.choice(list(walk(a)))
    b = pickled(rng, part)
    rec.nontrivial("expansion", n.show(), k, part is a)
    compare(rec, part, b, "expansion", **kw)
    if part is not a:
        # The rest of the tree comes along.
        compare(rec, a, b.root_expansion, "rest of an expansion", **kw)
        rec.event("parts of expansions")
        b = b.root_expansion
    rec.event("expansions")
    if b.compile() != a.compile():
        rec.fail("an unpickled expansion has another text", got=b.compile(),
                 want=a.compile(), **kw)
    for s in spoken:
        x, y = a.matches(s), b.matches(s)
        rec.eval()
        if x != y:
            rec.fail("an unpickled expansion matches something else", utterance=s, got=y,
                     want=x, **kw)
        compare(rec, a, b, "expansion matched afterwards", **kw)
    # Weights can be set as before.
    for x, y in zip(list(walk(a)), list(walk(b))):
        if isinstance(x, AlternativeSet) and x.weights and rng.random() < .5:
            i, v = rng.randrange(len(x.children)), rng.choice([1, 2.5, 7])
            x = x.copy()
            x.set_weight(i, v)
            y.set_weight(i, v)
            rec.event("weights set afterwards")
            if x.compile() != y.compile():
                rec.fail("weights of an unpickled expansion cannot be set", set=str(y),
                         got=y.compile(), want=x.compile(), **kw)
    # Structural questions are about the unpickled tree.
    ys = list(walk(b))
    xs = list(walk(a))
    for _ in range(3):
        i, j = rng.randrange(len(xs)), rng.randrange(len(xs))
        if ys[i].is_descendant_of(ys[j]) != xs[i].is_descendant_of(xs[j]) or \
                ys[i].mutually_exclusive_of(ys[j]) != xs[i].mutually_exclusive_of(xs[j]):
            rec.fail("structural calculations differ for an unpickled expansion",
                     first=str(xs[i]), second=str(xs[j]), **kw)
    for p in list(walk(b)):
        p.tag = "changed"
        if isinstance(p, Literal):
            p.text += "s"
    if any(x.tag == "changed" for x in walk(a)) or a.compile() != build(n.clone()).compile():
        rec.fail("changing an unpickled expansion changed the original", **kw)
    if not any(x.kind == LIT and x.text == "" for x in n.walk()):
        for s in spoken:
            a.matches(s)


def stored(rec, rng):
    """Calculations stored before pickling are not about the unpickled expansions."""
    words = vocab(rng, 3)
    n = tree(rng, words, Cfg(depth=2))
    pool = [Literal("x") for _ in range(8)]
    rng.shuffle(pool)
    del pool[::2]
    a = build(n, keep=False)
    del pool

    def relations(e):
        xs = list(walk(e))
        return [(x.is_descendant_of(y), x.mutually_exclusive_of(y)) for x in xs for y in xs]
    want = relations(a)
    d = pickle.dumps(a, 2)
    del a
    gc.collect()
    pool = [Literal("x") for _ in range(rng.randrange(3))]
    b = pickle.loads(d)
    rec.eval()
    rec.require(relations(b) == want, "structural calculations of an unpickled expansion "
                "are those of others", expansion=n.show())
    rec.event("stored calculations")


def grammars(rec, rng):
    words, rules = grammar_nodes(rng, Cfg(p_tag=.2), nrules=rng.choice([1, 2, 3, 4]))
    style = rng.choice(["grammar", "grammar", "mixed", "loose"])
    w = World(rules, style, rng.random() < .2, [n for n, _ in rules if rng.random() < .3])
    g = w.grammar
    kw = dict(rules=w.show())
    lang = w.lang
    if g is not None:
        g.jsgf_version, g.charset_name, g.language_name = names.header(rng)
        if rng.random() < .3:
            g.add_import(Import("com.x.a"))
        if rng.random() < .3 and style != "mixed":
            objs = g.rules
            imps = g.imports
            for r in objs:
                g.remove_rule(r, True)
            h = RootGrammar(objs, g.name, w.cs)
            h.jsgf_version, h.charset_name, h.language_name = names.header(rng)
            for x in imps:
                h.add_import(x)
            w.grammar = g = h
    for r in w.by_name.values():
        if rng.random() < .15:
            r.disable()
    spoken = []
    for _ in range(4):
        n = rng.choice([x for x, _ in rules])
        for u in utterances(rng, lang, w.env[n], words, 1):
            spoken.append((n, respell(rng, u)))
    for n, s in spoken[:rng.choice([0, 1, 2])]:
        w.by_name[n].matches(s)
    kind = rng.choice(["grammar", "grammar", "rule", "rules", "expansion"])
    if g is None and kind == "grammar":
        kind = "rules"
    rec.nontrivial(kind, w.show())
    rec.event("pickled: " + kind)
    if kind == "grammar":
        h = pickled(rng, g)
        by = dict((r.name, r) for r in h.rules)
    elif kind == "rules":
        h = None
        # In any order, and together.
        objs = list(w.by_name.values())
        rng.shuffle(objs)
        by = dict((r.name, r) for r in pickled(rng, objs))
    else:
        r = w.by_name[w.name]
        p = pickled(rng, r) if kind == "rule" else pickled(rng, r.expansion).rule
        by = {p.name: p}
        h = None
    if g is not None and h is None:
        h = list(by.values())[0].grammar
        by = dict((r.name, r) for r in h.rules)
    if g is not None:
        rec.require(type(h) is type(g) and h is not g and h == g and g == h,
                    "an unpickled grammar is not equal", **kw)
        rec.require([r.name for r in h.rules] == [r.name for r in g.rules] and
                    h.import_names == g.import_names and h.jsgf_header == g.jsgf_header and
                    h.case_sensitive == g.case_sensitive,
                    "an unpickled grammar has other content", **kw)
        rec.require(all(r.grammar is h for r in h.rules),
                    "a rule of an unpickled grammar belongs to another grammar", **kw)
        rec.require(h.compile() == g.compile() and h.compile_as_root_grammar() ==
                    g.compile_as_root_grammar(), "an unpickled grammar has another text",
                    got=h.compile(), want=g.compile(), **kw)
    for name, b in by.items():
        a = w.by_name[name]
        rec.require(type(a) is type(b) and (a.visible, a.active, a.case_sensitive, a.name) ==
                    (b.visible, b.active, b.case_sensitive, b.name) and a == b and
                    hash(a) == hash(b) and a.tags == b.tags and a.matched_tags ==
                    b.matched_tags and bool(a.was_matched) == bool(b.was_matched),
                    "an unpickled rule differs", rule=name, **kw)
        rec.require(b.expansion.rule is b, "the expansion of an unpickled rule has another "
                    "rule", rule=name, **kw)
        compare(rec, a.expansion, b.expansion, "rule", rule=name, **kw)
        for x in walk(b.expansion):
            if hasattr(x, "referenced_rule"):
                r = x.referenced_rule
                if g is not None and r is not h.get_rule(x.name) or \
                        any(r is y for y in w.by_name.values()):
                    rec.fail("an unpickled reference means a rule outside", rule=name, **kw)
    for n, s in spoken:
        if n not in by:
            continue
        a, b = w.by_name[n], by[n]
        rec.eval()
        x = (a.matches(s), b.matches(s))
        rec.event("matched: %s" % x[0])
        if x[0] != x[1] or a.matched_tags != b.matched_tags or \
                a.get_tags_matching(s) != b.get_tags_matching(s):
            rec.fail("an unpickled rule matches something else", rule=n, utterance=s,
                     want=x[0], got=x[1], **kw)
        for m in by:
            compare(rec, w.by_name[m].expansion, by[m].expansion,
                    "rule matched afterwards", rule=m, utterance=s, **kw)
        if a.find_matching_part("x " + s) != b.find_matching_part("x " + s):
            rec.fail("an unpickled rule finds something else", rule=n, utterance=s, **kw)
    if g is not None:
        s = spoken[-1][1]
        rec.require([r.name for r in g.find_matching_rules(s)] ==
                    [r.name for r in h.find_matching_rules(s)] and
                    all(r.grammar is h for r in h.find_matching_rules(s)),
                    "an unpickled grammar finds other rules", utterance=s, **kw)
        # Further changes concern the unpickled grammar only.
        text = g.compile()
        zz = "zz"
        while zz in by:
            zz += "z"
        h.add_rule(Rule(zz, True, "new words"))
        h.disable_rule(w.name)
        h.get_rule(rules[0][0]).expansion = "other"
        h.name = "renamed"
        h.add_import(Import("y.*"))
        rec.require(g.compile() == text and g.find_matching_rules("new words") == [],
                    "changing an unpickled grammar changed the original", **kw)
        rec.require(h.find_matching_rules("new words") == [h.get_rule(zz)] and
                    h.get_rule(zz).fully_qualified_name == "renamed." + zz,
                    "an unpickled grammar cannot be changed", **kw)


def case(rec, rng, i):
    expansions(rec, rng)
    grammars(rec, rng)
    if i % 4 == 0:
        stored(rec, rng)
    if i < 3:
        rec.sample("case %d" % i)
