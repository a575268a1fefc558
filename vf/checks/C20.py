"""Equality and hashing follow content; copies of expansions are equal and independent."""
import copy
from jsgf import (Grammar, RootGrammar, Rule, PublicRule, PrivateRule, Import, Literal,
                  parse_expansion_string)
from jsgf.expansions import RuleRef, NamedRuleRef, Sequence
from ..gen import Cfg, tree, vocab, literal, eqkey, utterances, respell
from ..edit import weights_ok
from ..model import (Node, build, from_jsgf, LIT, SEQ, REQ, ALT, OPT, REP, STAR, REF, NULL,
                     VOID)
from ..lang import Lang
from ..world import random_world
from .. import names

TECHNIQUE = "runtime monitor of equality, hashes, containers and copies against content keys"
LEVEL = "exploration"
QUICK, THOROUGH = 2500, 40000
RULE = ("pairs of expansions, rules, grammars and imports of which one is the other with "
        "zero or more parts changed, also by changing objects that were hashed before; "
        "copies compared, changed and matched; non-trivial = distinct pairs")
ASSUMPTIONS = ["weighted alternatives of a set are pairwise different",
               "no Dictation expansions (their hash depends on where they are)"]


def key(n, rules=None):
    """Equal expansions have equal keys; tags do not count."""
    if n.kind == ALT:
        ws = n.weights or [None] * len(n.kids)
        return ("alt", len(n.kids), frozenset((key(k, rules), w)
                                              for k, w in zip(n.kids, ws)))
    t = n.text
    if n.kind == LIT and not n.cs:
        t = t.lower()
    r = None
    if n.kind == REF and rules and n.text in rules:
        r = rules[n.text][0]
    return (n.kind, t, n.cs, tuple(key(k, rules) for k in n.kids), r)


def same_words(rng, t):
    return rng.choice([t.upper(), t.lower(), t.title(), t])


def change(rng, words, root):
    """Change something about a node; what it means is found by its key."""
    n = rng.choice([x for x in root.walk()])
    k = rng.randrange(12)
    if k == 0 and n.kind == LIT:
        n.text = literal(rng, words, Cfg()).text
    elif k == 1 and n.kind == LIT:
        n.text = same_words(rng, n.text)
    elif k == 2 and n.kind == LIT:
        n.cs = not n.cs
    elif k == 3 and len(n.kids) > 1:
        i, j = rng.sample(range(len(n.kids)), 2)
        n.kids[i], n.kids[j] = n.kids[j], n.kids[i]
        if n.weights is not None and rng.random() < .7:
            n.weights[i], n.weights[j] = n.weights[j], n.weights[i]
    elif k == 4 and n.kind in (SEQ, REQ, ALT) and n.kids and n.weights is None:
        n.kids.insert(rng.randint(0, len(n.kids)), rng.choice(n.kids).clone())
    elif k == 5 and n.kind in (SEQ, REQ, ALT) and len(n.kids) > 1:
        i = rng.randrange(len(n.kids))
        del n.kids[i]
        if n.weights is not None:
            del n.weights[i]
    elif k == 6:
        swap = {SEQ: [REQ, ALT], REQ: [SEQ, ALT], OPT: [REP, STAR], REP: [STAR, OPT],
                STAR: [REP, OPT], NULL: [VOID], VOID: [NULL], ALT: [SEQ, REQ]}
        if n.kind in swap:
            n.kind = rng.choice(swap[n.kind])
            n.weights = None
    elif k in (7, 8):
        n.tag = rng.choice(["", "t1", "t2"])
    elif k == 9 and n.weights is not None:
        n.weights[rng.randrange(len(n.kids))] = float(rng.choice([0, 1, 2, 3]))
    elif k == 10 and n.kind == ALT and n.kids:
        n.weights = None if n.weights is not None else [1.0] * len(n.kids)
    elif k == 11 and n.kids:
        i = rng.randrange(len(n.kids))
        n.kids[i] = Node(rng.choice([SEQ, REQ, OPT]), [n.kids[i]])
    return root


def changed(rng, words, n, times):
    for _ in range(20):
        m = n.clone()
        for _ in range(times):
            change(rng, words, m)
        if weights_ok(m):
            return m
    return n.clone()


def related(rec, a, b, want, what, **kw):
    """a and b are equal exactly if want; equal ones have the same hash."""
    rec.eval()
    r = (a == b, b == a, not (a != b), not (b != a))
    if r != (want,) * 4:
        rec.fail("%s should %sbe equal" % (what, "" if want else "not "), results=r, **kw)
    if not (a == a) or a != a:
        rec.fail("%s is not equal to itself" % what, **kw)
    rec.event("%s: %s" % (what, "equal" if want else "different"))


def hashes(rec, a, b, want, what, **kw):
    if want and hash(a) != hash(b):
        rec.fail("equal %s have different hashes" % what, **kw)
    if hash(a) != hash(a):
        rec.fail("the hash of %s changes" % what, **kw)
    if (b in {a: 1}) != want or (b in set([a])) != want or (b in [a]) != want or \
            len(set([a, b])) != (1 if want else 2):
        rec.fail("wrong membership of %s" % what, want=want, **kw)


def ruledefs(rng, words):
    """Rules that can be referenced by object, some of them alike."""
    out = {}
    for n in ("a", "b"):
        t = tree(rng, words, Cfg(depth=1, p_weight=0))
        for x in t.walk():
            x.cs = False
        vis = rng.random() < .5
        r = Rule(n, vis, build(t))
        out[n] = ((n, vis, key(t)), r, t)
    return out


def expansions(rec, rng, words):
    rules = ruledefs(rng, words) if rng.random() < .4 else {}
    byname = dict((n, r[1]) for n, r in rules.items())
    cfg = Cfg(depth=rng.choice([0, 1, 2, 3]), p_cs=.2, p_tag=.15, refs=["a", "b", "c"],
              childless=.05)
    n = tree(rng, words, cfg)
    m = changed(rng, words, n, rng.choice([0, 0, 1, 1, 2, 3]))
    a, b = build(n, byname), build(m, byname)
    want = key(n, rules) == key(m, rules)
    kw = dict(first=n.show(), second=m.show())
    rec.nontrivial("expansion", n.show(), m.show())
    related(rec, a, b, want, "expansions", **kw)
    hashes(rec, a, b, want, "expansions", **kw)
    for other in (str(a), a.compile(), None, 3, [a], Rule("z", True, Literal("x"))):
        if a == other if not isinstance(other, Rule) else False:
            rec.fail("an expansion is equal to something else", other=repr(other), **kw)
        if not isinstance(other, Rule) and not (a != other):
            rec.fail("an expansion is not different from something else", **kw)
    # The same object, changed after it was hashed.
    if rng.random() < .6:
        d = {a: 1}
        k = rng.randrange(4)
        lits = [x for x in n.walk() if x.kind == LIT]
        x = rng.choice(lits) if lits else None
        before = n.clone()
        if k == 0 and x is not None:
            x.text = rng.choice(words)
            x.obj.text = x.text
        elif k == 1 and x is not None:
            x.cs = not x.cs
            x.obj.case_sensitive = x.cs
        elif k == 2:
            for y in n.walk():
                if y.kind in (SEQ, REQ):
                    y.kids.append(Node(LIT, text=words[0]))
                    y.obj.children.append(words[0])
                    break
        else:
            n.tag = a.tag = "new"
        if not weights_ok(n):
            return
        c = build(n.clone(), byname)
        kw = dict(before=before.show(), after=n.show())
        related(rec, a, c, True, "changed expansions", **kw)
        if hash(a) != hash(c):
            rec.fail("a changed expansion has another hash than an equal one", **kw)
        related(rec, a, b, key(n, rules) == key(m, rules), "changed expansions",
                second=m.show(), **kw)
        related(rec, a, build(before, byname), key(n, rules) == key(before, rules),
                "changed expansions", **kw)
        del d
    # Membership in a tree.
    if not rules:
        env = {"a": tree(rng, words, Cfg(depth=1))}
        g = Grammar("g")
        t = n.clone()
        for x in t.walk():
            if x.kind == REF:
                x.text = "a"
        ra = Rule("a", True, build(env["a"]))
        rt = Rule("t", True, build(t))
        g.add_rules(ra, rt)
        everything = list(t.walk())
        if any(x.kind == REF for x in everything):
            everything += list(env["a"].walk())
        for x in everything:
            x.cs = False
        probe = rng.choice([y for y in m.walk()] + everything).clone()
        for y in probe.walk():
            y.cs = False
            if y.kind == REF:
                y.text = "a"
        want = any(key(probe) == key(x) for x in everything)
        rec.eval()
        if all(map(weights_ok, [probe, t, env["a"]])) and (build(probe) in rt.expansion) != want:
            rec.fail("wrong membership in an expansion", item=probe.show(), tree=t.show(),
                     referenced=env["a"].show(), want=want)
        rec.event("membership in trees: %s" % want)


def same(a, b, path="/"):
    """Difference between the content of two trees, or None."""
    if type(a) is not type(b):
        return path + ": type"
    for f in ("tag", "text", "case_sensitive", "name"):
        if getattr(a, f, None) != getattr(b, f, None):
            return "%s: %s %r / %r" % (path, f, getattr(a, f, None), getattr(b, f, None))
    if isinstance(a, RuleRef) and a.referenced_rule is not b.referenced_rule:
        return path + ": the referenced rule was copied"
    if len(a.children) != len(b.children):
        return path + ": number of children"
    for i, (x, y) in enumerate(zip(a.children, b.children)):
        d = same(x, y, path + "%d/" % i)
        if d:
            return d
    return None


def walk(x):
    yield x
    for c in x.children:
        for y in walk(c):
            yield y


def weight_lists(e):
    out = []
    for x in walk(e):
        w = getattr(x, "weights", None)
        if w and x.children:
            out.append([[v for k, v in w.items() if k is c or k == c][:1]
                        for c in x.children])
    return out


def parsed(rec, rng, words):
    """Parsed expansions are as good as built ones."""
    n = tree(rng, words, Cfg(depth=rng.choice([1, 2, 3]), p_cs=0, p_tag=.15, p_weight=.5,
                             refs=["a", "b"]))
    for x in n.walk():
        if x.kind in (REP, STAR):
            x.tag = ""
        if x.kind == ALT and x.weights is not None and len(x.kids) < 2:
            x.weights = None
    if not weights_ok(n):
        return
    text = build(n).compile()
    a, b = parse_expansion_string(text), parse_expansion_string(text)
    t = from_jsgf(a).clone()
    if not weights_ok(t):
        return
    c = build(t)
    rec.nontrivial("parsed", text)
    kw = dict(text=text)
    for x, y in ((a, b), (a, c), (c, b)):
        related(rec, x, y, True, "parsed expansions", **kw)
        hashes(rec, x, y, True, "parsed expansions", **kw)
    d = a.copy() if rng.random() < .5 else copy.deepcopy(a)
    for x, y in ((a, d), (d, c)):
        related(rec, x, y, True, "copies of parsed expansions", **kw)
        hashes(rec, x, y, True, "copies of parsed expansions", **kw)
    if weight_lists(a) != weight_lists(d) or weight_lists(a) != weight_lists(c) or \
            d.compile() != a.compile() or c.compile() != a.compile():
        rec.fail("a copy of a parsed expansion differs", copy=d.compile(), **kw)
    m = changed(rng, words, t, rng.choice([1, 2]))
    e = build(m)
    want = key(m) == key(t)
    related(rec, a, e, want, "parsed expansions", other=m.show(), **kw)
    hashes(rec, a, e, want, "parsed expansions", other=m.show(), **kw)


def copies(rec, rng, words):
    rules = ruledefs(rng, words) if rng.random() < .4 else {}
    byname = dict((n, r[1]) for n, r in rules.items())
    cfg = Cfg(depth=rng.choice([0, 1, 2, 3]), p_cs=.2, p_tag=.3, refs=list(rules) or (),
              childless=.05)
    n = tree(rng, words, cfg)
    for x in n.walk():
        if x.kind == LIT and rng.random() < .3:
            x.text = same_words(rng, x.text)
    if not weights_ok(n):
        return
    a = build(n, byname)
    env = dict((k, v[2]) for k, v in rules.items())
    lang = Lang(env)
    spoken = [respell(rng, u, cs_safe=True) for u in utterances(rng, lang, n, words, 3)]
    kw = dict(expansion=n.show())
    if rng.random() < .5:
        a.matches(rng.choice(spoken))
    if rng.random() < .3:
        Rule("owner", True, a, case_sensitive=rng.random() < .5)
        for x in n.walk():
            if x.kind == LIT:
                x.cs = x.obj.case_sensitive
        if not weights_ok(n):
            return
    part = rng.choice(list(walk(a))) if rng.random() < .4 else a
    text = part.compile() if rng.random() < .7 else None
    how = rng.choice(["copy", "copy()", "deepcopy"])
    b = part.copy() if how == "copy" else part.copy(shallow=False) if how == "copy()" \
        else copy.deepcopy(part)
    rec.eval()
    rec.nontrivial("copy", from_jsgf(part).show(), how)
    d = same(part, b)
    if d:
        rec.fail("a copy has other content", difference=d, how=how, **kw)
    if not (part == b) or hash(part) != hash(b):
        rec.fail("a copy is not equal", how=how, **kw)
    if weight_lists(part) != weight_lists(b):
        rec.fail("a copy has other weights", how=how, **kw)
    if b.compile() != part.compile() or text is not None and b.compile() != text:
        rec.fail("a copy has another text", how=how, **kw)
    ids = set(id(x) for x in walk(a))
    for x in walk(b):
        if id(x) in ids:
            rec.fail("a copy shares parts with the original", how=how, part=str(x), **kw)
        if x.rule is not None or x.matching_slice is not None or x.current_match or \
                getattr(x, "repetitions_matched", 0):
            rec.fail("a copy belongs to a rule or has match data", how=how, **kw)
        for c in x.children:
            if c.parent is not x:
                rec.fail("a part of a copy has a wrong parent", how=how, **kw)
        w = getattr(x, "weights", None)
        if w and any(not any(k is c for c in x.children) for k in w):
            rec.fail("the weights of a copy are not those of its alternatives", **kw)
    if b.parent is not None:
        rec.fail("a copy has a parent", how=how, **kw)
    if part is not a and part.parent is None:
        rec.fail("copying removed the original from its parent", how=how, **kw)
    # What a part matches also depends on what it is part of.
    for s in spoken if part is a else ():
        x, y = part.matches(s), b.matches(s)
        rec.eval()
        if x != y:
            rec.fail("a copy matches something else", utterance=s, got=y, want=x, **kw)
        for p, q in zip(walk(part), walk(b)):
            if (p.current_match, p.matching_slice) != (q.current_match, q.matching_slice):
                rec.fail("a copy has other match data", utterance=s, part=str(p),
                         got=(q.current_match, str(q.matching_slice)),
                         want=(p.current_match, str(p.matching_slice)), **kw)
    # The letters given to literals survive, whatever the setting.
    for p, q in zip(walk(part), walk(b)):
        if isinstance(p, Literal):
            for v in (True, False, True):
                p.case_sensitive = q.case_sensitive = v
                if p.text != q.text:
                    rec.fail("a copy of a literal lost its letters", got=q.text,
                             want=p.text, **kw)
    for x in part, b:
        for p in walk(x):
            if isinstance(p, Literal):
                p.case_sensitive = False
    # Changing one changes the other in no way.
    x, y = (part, b) if rng.random() < .5 else (b, part)
    before, tb = [(id(p), str(p), p.tag) for p in walk(y)], y.compile()
    wb = weight_lists(y)
    k = rng.randrange(5)
    if k == 0:
        for p in walk(x):
            p.tag = "changed"
    elif k == 1:
        for p in list(walk(x)):
            if isinstance(p, Literal):
                p.text = p.text + "s"
    elif k == 2:
        for p in list(walk(x)):
            if getattr(p, "weights", None) and p.children:
                for j in range(len(p.children)):
                    p.set_weight(j, 77)
    elif k == 3:
        for p in list(walk(x)):
            if type(p).__name__ in ("Sequence", "RequiredGrouping", "AlternativeSet"):
                p.children.append("more")
    else:
        for p in list(walk(x)):
            p.children = [] if type(p).__name__ in (
                "Sequence", "RequiredGrouping", "AlternativeSet") else list(p.children)
    if [(id(p), str(p), p.tag) for p in walk(y)] != before or y.compile() != tb or \
            weight_lists(y) != wb:
        rec.fail("changing a copy or its original changes the other", change=k,
                 which="original" if x is part else "copy", **kw)
    rec.event("copies")


def shallow(rec, rng, words):
    cfg = Cfg(depth=rng.choice([0, 1, 2]), p_cs=.2, p_tag=.3)
    n = tree(rng, words, cfg)
    a = build(n)
    kids = list(a.children)
    b = a.copy(shallow=True) if rng.random() < .5 else copy.copy(a)
    rec.eval()
    rec.nontrivial("shallow", n.show())
    if b is a or type(b) is not type(a) or b.tag != a.tag or not (a == b) or \
            len(b.children) != len(kids) or any(x is not y for x, y in
                                                zip(b.children, kids)):
        rec.fail("a shallow copy is not an equal expansion with the same children",
                 expansion=n.show(), copy=str(b))
    if a.compile() != b.compile():
        rec.fail("a shallow copy has another text", expansion=n.show())
    rec.event("shallow copies")


def deep_rules(rec, rng):
    """Deep copies of rules and grammars are usable on their own."""
    words, w = random_world(rng, cfg=Cfg(p_tag=.2, childless=0))
    if not all(weights_ok(n) for _, n in w.rules):
        return
    olds = list(w.by_name.values())
    kw = dict(rules=w.show())
    if w.grammar is not None and rng.random() < .3:
        w.grammar.add_import(Import("a.b"))
    spoken = [respell(rng, u, cs_safe=True)
              for u in utterances(rng, w.lang, w.node, words, 4)]
    w.rule.matches(spoken[0])
    before = [(x.current_match, x.matching_slice) for r in olds for x in walk(r.expansion)]
    off = rng.choice(olds) if rng.random() < .2 else None
    if off is not None:
        off.disable()
    g = h = w.grammar
    if g is not None and rng.random() < .6:
        h = copy.deepcopy(g)
        new = h.get_rule(w.name)
        if not (h == g) or h.compile() != g.compile():
            rec.fail("a deep copy of a grammar differs", got=h.compile(), **kw)
    else:
        new = copy.deepcopy(w.rule)
        h = new.grammar
    rec.eval()
    rec.nontrivial("deep copy", w.show())
    rec.event("deep copies of rules and grammars")
    if (h is None) != (g is None) or h is not None and h is g:
        rec.fail("a deep copy has a wrong grammar", **kw)
    news = [new] if h is None else h.rules
    pairs = [(w.rule, new)] if h is None else list(zip(g.rules, news))
    if h is not None and (len(g.rules) != len(news) or h.import_names != g.import_names or
                          not any(new is r for r in news)):
        rec.fail("a deep copy has other rules or imports", **kw)
    ids = set(id(x) for r in olds for x in walk(r.expansion))
    for a, b in pairs:
        if a is b or not (a == b) or type(a) is not type(b) or a.active is not b.active or \
                a.compile() != b.compile() or b.grammar is not h:
            rec.fail("a deep copy of a rule differs", rule=a.name, **kw)
        d = same(a.expansion, b.expansion)
        if d:
            rec.fail("a deep copy of a rule has other content", difference=d, **kw)
        for x in walk(b.expansion):
            if id(x) in ids or x.rule is not b:
                rec.fail("a part of a deep copy belongs to another rule", part=str(x), **kw)
    # They match alike, and the originals do not notice.
    got = [(new.matches(s), new.get_tags_matching(s)) for s in spoken]
    if w.style == "grammar" and before != [
            (x.current_match, x.matching_slice) for r in olds for x in walk(r.expansion)]:
        rec.fail("matching a deep copy changed the original", **kw)
    want = [(w.rule.matches(s), w.rule.get_tags_matching(s)) for s in spoken]
    if got != want:
        rec.fail("a deep copy matches differently", utterances=spoken, got=got, want=want,
                 **kw)
    text = w.rule.compile() if g is None else g.compile()
    new.visible = not new.visible
    new.name = "renamed"
    new.expansion.tag = "other"
    new.enable() if off is w.rule else new.disable()
    if text != (w.rule.compile() if g is None else g.compile()):
        rec.fail("changing a deep copy changed the original", **kw)


def rules_and_grammars(rec, rng, words):
    def ruledef():
        return [rng.choice(["a", "b", "A"]), rng.random() < .5,
                tree(rng, words, Cfg(depth=rng.choice([0, 1, 2]), p_tag=.1)),
                rng.random() < .2]

    def alter(d):
        d = [d[0], d[1], d[2].clone(), d[3]]
        k = rng.randrange(7)
        if k == 0:
            d[0] = rng.choice(["a", "b", "A"])
        elif k == 1:
            d[1] = not d[1]
        elif k == 2:
            d[3] = not d[3]
        elif k in (3, 4):
            d[2] = changed(rng, words, d[2], rng.choice([1, 2]))
        return d

    def make(d):
        r = rng.random()
        if r < .5:
            o = Rule(d[0], d[1], build(d[2]), case_sensitive=d[3])
        else:
            o = (PublicRule if d[1] else PrivateRule)(d[0], build(d[2]),
                                                      case_sensitive=d[3])
        if rng.random() < .2:
            o.disable()
        return o

    def rkey(d):
        n = d[2].clone()
        for x in n.walk():
            x.cs = d[3] if x.kind == LIT else False
        return (d[0], d[1], d[3], key(n)) if weights_ok(n) else None
    d1 = ruledef()
    d2 = alter(d1)
    if rkey(d1) is None or rkey(d2) is None:
        return
    want = rkey(d1) == rkey(d2)
    kw = dict(first=(d1[0], d1[1], d1[2].show(), d1[3]),
              second=(d2[0], d2[1], d2[2].show(), d2[3]))
    rec.nontrivial("rule", repr(kw))
    a, b = make(d1), make(d2)
    related(rec, a, b, want, "rules", **kw)
    hashes(rec, a, b, want, "rules", **kw)
    # References to rules by object are as equal as the rules.
    x, y = RuleRef(a), RuleRef(b)
    related(rec, x, y, want, "references to rules", **kw)
    hashes(rec, x, y, want, "references to rules", **kw)
    # They have the present names of the rules.
    if rng.random() < .3:
        c = x.copy()
        a.name = names.base_name(rng)
        z = RuleRef(a)
        related(rec, x, z, True, "references to a renamed rule", **kw)
        hashes(rec, x, z, True, "references to a renamed rule", **kw)
        related(rec, x, c, True, "a copied reference to a renamed rule", **kw)
        rec.require(x.name == c.name == a.name and x.compile() == "<%s>" % a.name,
                    "a reference by object does not have the name of its rule", got=x.name,
                    name=a.name)
        x.name = d1[0]
        related(rec, x, x.copy(), True, "a copied reference with another name", **kw)
        rec.event("references to renamed rules")
    s, t = names.import_name(rng), names.import_name(rng)
    if rng.random() < .5:
        t = s
    related(rec, Import(s), Import(t), s == t, "imports", first=s, second=t)
    hashes(rec, Import(s), Import(t), s == t, "imports", first=s, second=t)
    # Grammars.
    defs = [ruledef() for _ in range(rng.choice([0, 1, 2, 3]))]
    for i, d in enumerate(defs):
        d[0] = "r%d" % i
        d[3] = False
    imps = [names.import_name(rng) for _ in range(rng.choice([0, 0, 1, 2]))]
    head = names.header(rng)
    g1 = ["g", head, defs, imps, rng.random() < .2]
    g2 = ["g", head, [[d[0], d[1], d[2].clone(), d[3]] for d in defs], list(imps), g1[4]]
    k = rng.randrange(8)
    if k == 0:
        g2[0] = "h"
    elif k == 1:
        g2[1] = names.header(rng)
    elif k == 2 and defs:
        j = rng.randrange(len(defs))
        g2[2][j] = alter(g2[2][j])
        g2[2][j][0] = "r%d" % j
        g2[2][j][3] = False
    elif k == 3:
        rng.shuffle(g2[2])
    elif k == 4:
        g2[3] = [names.import_name(rng)] + g2[3]
    elif k == 5:
        g2[4] = not g2[4]
    elif k == 6:
        g2[2] = g2[2][:-1]
    elif k == 7 and rng.random() < .7:
        while len(imps) < 2:
            x = names.import_name(rng)
            if x not in imps:
                imps.append(x)
        g2[3] = imps[::-1] if rng.random() < .7 else list(imps)

    def gmake(d):
        g = (RootGrammar if rng.random() < .3 else Grammar)(name=d[0],
                                                            case_sensitive=d[4])
        g.jsgf_version, g.charset_name, g.language_name = d[1]
        for x in d[2]:
            g.add_rule(make(x))
        for x in d[3]:
            g.add_import(Import(x))
        return g

    def gkey(d, g):
        ks = []
        for x in d[2]:
            k = rkey([x[0], x[1], x[2], d[4]])
            if k is None:
                return None
            ks.append(k)
        return (d[0], g.jsgf_header, ks, list(dict.fromkeys(d[3])), d[4])
    a, b = gmake(g1), gmake(g2)
    if gkey(g1, a) is None or gkey(g2, b) is None:
        return
    kw = dict(first=(g1[0], g1[1], [(d[0], d[1], d[2].show()) for d in g1[2]], g1[3:]),
              second=(g2[0], g2[1], [(d[0], d[1], d[2].show()) for d in g2[2]], g2[3:]))
    related(rec, a, b, gkey(g1, a) == gkey(g2, b), "grammars", **kw)
    # Objects of other kinds are never equal, even if they have the same name.
    things = [PublicRule("g", "g"), a, Import("g.g"), Literal("g"),
              NamedRuleRef("g"), None, 5, "g", object(), (), Sequence("g").children]
    for x in things[:5]:
        for y in things:
            if x is not y and (x == y or y == x or not x != y or not y != x or
                               x in [y] or y in [x]):
                rec.fail("objects of other kinds are equal", first=repr(x), second=repr(y))
            rec.eval()
    rec.event("comparisons with objects of other kinds")


def case(rec, rng, i):
    words = vocab(rng, rng.choice([1, 2, 3]))
    for _ in range(3):
        expansions(rec, rng, words)
    parsed(rec, rng, words)
    copies(rec, rng, words)
    shallow(rec, rng, words)
    rules_and_grammars(rec, rng, words)
    if rng.random() < .5:
        deep_rules(rec, rng)
    if i < 3:
        rec.sample(words)
