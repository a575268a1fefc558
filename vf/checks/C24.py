"""Expanding alternatives and optional parts with dictation."""
from jsgf import Rule, Grammar, GrammarError
from jsgf.ext.expansions import expand_dictation_expansion
from ..gen import vocab, tree, Cfg, eqkey
from ..model import (Node, build, from_jsgf, LIT, SEQ, REQ, ALT, OPT, REP, STAR, REF, DICT,
                     VOID, NULL)
from ..lang import Lang

TECHNIQUE = "runtime monitor comparing the sentences of expansions before and after"
LEVEL = "exploration"
QUICK, THOROUGH = 8000, 200000
RULE = ("trees with dictation in and beside alternatives (weighted or not), optional parts, "
        "Kleene stars, groups, repetitions and references, expanded and compared sentence by "
        "sentence (dictation as one word); non-trivial = distinct trees with dictation")
ASSUMPTIONS = ["repetitions contain no dictation beside parts to be expanded, "
               "sentences with at most two rounds per repetition, at most 300 per tree",
               "weighted alternatives that are or become equal have nothing to be expanded within, "
               "or have equal weights (known finding)",
               "tags of expanded alternatives are not kept by the library"]
D = "DDD"
CAP = 300


def mark(n):
    """Dictation as one special word."""
    n = n.clone()
    for x in n.walk():
        if x.kind == DICT:
            x.kind, x.text = LIT, D
    return n


def flat(n, env):
    """References replaced by groups."""
    if n.kind == REF:
        return Node(REQ, [flat(env[n.text], env)])
    m = Node(n.kind, [flat(k, env) for k in n.kids], n.text, n.tag, n.weights, n.cs)
    m.obj = n.obj
    return m


def sentences(n, env):
    k = n.kind
    if k == LIT:
        return [tuple(n.text.split())]
    if k == REF:
        return sentences(env[n.text], env)
    if k == VOID:
        return []

    def cat(a, b):
        return sorted({x + y for x in a for y in b})[:CAP]
    if k in (SEQ, REQ):
        r = [()]
        for c in n.kids:
            r = cat(r, sentences(c, env))
        return r
    if k == ALT:
        r = set()
        for i, c in enumerate(n.kids):
            if n.weights is None or n.weights[i] > 0:
                r |= set(sentences(c, env))
        return sorted(r)[:CAP]
    if not n.kids:
        return [()]
    a = sentences(n.kids[0], env)
    if k == OPT:
        return sorted(set(a) | {()})
    r = set(a) | set(cat(a, a))
    return sorted(r | ({()} if k == STAR else set()))[:CAP]


def has_dict(n):
    return any(x.kind == DICT for x in n.walk())


def within_limits(n, inside=False):
    """No repetition has dictation beside something to expand."""
    if n.kind in (REP, STAR) and has_dict(n):
        for x in n.walk():
            if x is not n and x.kind in (ALT, OPT, STAR, REP):
                return False
    return all(within_limits(k) for k in n.kids)


def twins(n, env):
    """Weighted alternatives that are or become equal, with parts to expand within
    (see known_findings.txt, key=equal-weighted)."""
    def strip(x):
        if x.kind == REF:
            return strip(env[x.text])
        if x.kind == OPT and x.kids:
            return strip(x.kids[0])
        if x.kind == STAR:
            return Node(REP, [strip(k) for k in x.kids])
        return Node(x.kind, [strip(k) for k in x.kids], x.text, "", x.weights)
    for x in n.walk():
        if x.kind == REF and twins(env[x.text], env):
            return True
        if x.kind == ALT and x.weights is not None:
            ds = [w for k, w in zip(x.kids, x.weights) if has_dict(flat(k, env))]
            if 0 in ds and len(ds) > 1:
                return True
            keys = [strip(k).key(tags=False) for k in x.kids]
            for k, key in zip(x.kids, keys):
                f = flat(k, env)
                if keys.count(key) > 1 and any(
                        y is not f and y.kind in (OPT, STAR, ALT) for y in f.walk()):
                    return True
    return False


def left(n):
    """Parts that should have been expanded."""
    for x in n.walk():
        if not has_dict(x):
            continue
        if x.kind == ALT and len(x.kids) > 1:
            return "an alternative set with dictation: " + x.show()
        if x.kind in (OPT, STAR):
            return "an optional part with dictation: " + x.show()
    return None


def run(rec, rng, node, env, rules, uniq):
    L = Lang({})
    fnode = flat(node, env)
    rdict = {}
    for nm in env:
        rdict[nm] = rules[nm]
    e = build(node, rdict)
    holder = rng.choice(["none", "none", "rule", "grammar"])
    owner = None
    if holder != "none":
        owner = Rule("holder", True, e)
    if holder == "grammar":
        g = Grammar("g")
        for nm in env:
            g.add_rule(rules[nm])
        g.add_rule(owner)
    rkeys = {nm: (from_jsgf(rules[nm].expansion).key(), rules[nm].expansion) for nm in env}
    before = from_jsgf(e)
    key, objs = before.key(), [id(x.obj) for x in before.walk()]
    rec.eval()
    res = expand_dictation_expansion(e)
    rec.require(isinstance(res, list) and res, "not a list of expansions",
                tree=node.show(), result=str(res))
    after = from_jsgf(e)
    rec.require(after.key() == key and [id(x.obj) for x in after.walk()] == objs,
                "the original expansion was changed", tree=node.show(), now=after.show())
    for nm in env:
        rec.require(rules[nm].expansion is rkeys[nm][1] and
                    from_jsgf(rules[nm].expansion).key() == rkeys[nm][0],
                    "a referenced rule was changed", tree=node.show(), rule=nm,
                    now=from_jsgf(rules[nm].expansion).show())
        for x in from_jsgf(rules[nm].expansion).walk():
            rec.require(x.obj.rule is rules[nm], "a part left the referenced rule",
                        tree=node.show(), rule=nm, part=x.show())
            rec.require(all(k.obj.parent is x.obj for k in x.kids),
                        "a part of a referenced rule has another parent",
                        tree=node.show(), rule=nm, part=x.show())
        rec.require(rules[nm].expansion.parent is None,
                    "the expansion of a referenced rule has a parent", tree=node.show(),
                    rule=nm)
    if owner is not None:
        rec.require(owner.expansion is e and e.rule is owner,
                    "the original left its rule", tree=node.show())
    ns = [from_jsgf(x) for x in res]
    show = [x.show() for x in ns]
    fs = [flat(x, env) for x in ns]
    if not has_dict(fnode):
        rec.event("trees without dictation")
        if True:
            rec.require(len(res) == 1 and ns[0].key() == key,
                        "an expansion without dictation was expanded", tree=node.show(),
                        result=show)
            return
    rec.event("trees with dictation")
    rec.event("results", len(res))
    rec.nontrivial(node.key())
    if not has_dict(node):
        rec.event("trees with dictation in referenced rules only")
    elif has_dict(fnode) and sum(x.kind == DICT for x in fnode.walk()) > \
            sum(x.kind == DICT for x in node.walk()):
        rec.event("trees with dictation in referenced rules too")
    # Nothing left, no doubles, nothing shared.
    for x in fs:
        what = left(x)
        rec.require(what is None, "not fully expanded: %s" % what, tree=node.show(),
                    result=show)
    keys = [x.key() for x in ns]
    rec.require(len(set(keys)) == len(keys), "equal results", tree=node.show(), result=show)
    seen = {}
    if not (len(res) == 1 and res[0] is e):
        for i in objs:
            seen[i] = "the original"
    for nm in env:
        for x in from_jsgf(rules[nm].expansion).walk():
            seen[id(x.obj)] = "rule " + nm
    for j, x in enumerate(ns):
        for y in x.walk():
            rec.require(id(y.obj) not in seen, "a result shares a part with another",
                        tree=node.show(), result=show, part=y.show())
            seen[id(y.obj)] = j
        for y in x.walk():
            for k in y.kids:
                rec.require(k.obj.parent is y.obj, "a part has another parent",
                            tree=node.show(), result=show, part=k.show())
        rec.require(x.obj.parent is None, "a result has a parent", tree=node.show(),
                    result=show)
    # The same sentences.
    rec.eval()
    m = mark(fnode)
    ms = [mark(x) for x in fs]
    a = sentences(m, {})
    for s in a:
        if s:
            rec.event("sentences of originals")
            rec.require(any(L.member(x, s) for x in ms), "a sentence was lost",
                        sentence=" ".join(s), tree=node.show(), result=show)
    for x in ms:
        for s in sentences(x, {}):
            rec.event("sentences of results")
            rec.require(L.member(m, s), "a sentence was gained", sentence=" ".join(s),
                        tree=node.show(), result=show)
    if len(a) < CAP and () in a:
        rec.event("trees that can match nothing")
    # Weights of the alternatives that remain together (comparable alternatives of a
    # set share a weight).
    if not uniq:
        return expanded(rec, node, res, ns)
    tags = {}
    for x in node.walk():
        if x.kind == LIT:
            tags.setdefault(x.text.lower(), set()).add(x.tag)
    for x in ns:
        for y in x.walk():
            if y.kind == LIT and y.tag not in tags[y.text.lower()]:
                rec.fail("a tag was changed", tree=node.show(), result=show, part=y.show())
    was = [({eqkey(y) for y in k.walk()}, w) for x in node.walk()
           if x.kind == ALT and x.weights is not None
           for k, w in zip(x.kids, x.weights)]
    plain = {id(x) for x in node.walk() if x.kind == ALT and x.weights is None}
    for x in ns:
        for y in x.walk():
            if y.kind != ALT or y.weights is None or len(y.kids) < 2:
                continue
            for k, w in zip(y.kids, y.weights):
                known = [v for q, v in was if eqkey(k) in q]
                if known and k.kind not in (NULL, VOID):
                    rec.event("weights kept")
                    rec.require(w in known, "a weight was changed", tree=node.show(),
                                result=show, alternative=k.show(), weight=w)
    if not plain:
        for x in ns:
            for y in x.walk():
                if y.kind == ALT and len(y.kids) > 1:
                    rec.require(y.weights is not None, "weights were lost",
                                tree=node.show(), result=show)
    expanded(rec, node, res, ns)


def expanded(rec, node, res, ns):
    # Expanded results are left as they are.
    rec.eval()
    for x, n in zip(res, ns):
        again = expand_dictation_expansion(x)
        if len(again) != 1 or from_jsgf(again[0]).key() != n.key():
            rec.fail("a result is expanded further", tree=node.show(), result=n.show(),
                     again=[from_jsgf(y).show() for y in again])
    rec.event("results expanded again", len(res))


def case(rec, rng, i):
    words = vocab(rng, rng.choice([2, 3]))
    env, rules = {}, {}
    uniq = rng.random() < .5
    zw = .15 if uniq else 0
    tags = rng.choice([0, 0, .15, .4])
    for j in range(rng.choice([0, 0, 0, 1, 2])):
        n = tree(rng, words, Cfg(depth=rng.choice([1, 2]), special=.05,
                                 dict=rng.choice([0, .4]), maxkids=3,
                                 reps=rng.random() < .5,
                                 refs=tuple(env), p_weight=.2, zero_weight=zw, p_tag=tags))
        env["s%d" % j] = n
        rules["s%d" % j] = Rule("s%d" % j, rng.random() < .5, build(n, rules))
    for _ in range(40):
        n = tree(rng, words, Cfg(depth=rng.choice([1, 2, 2, 3]), dict=.4, special=.03,
                                 refs=tuple(env), p_weight=rng.choice([0, 0, .5, 1]),
                                 zero_weight=zw, maxkids=3, p_tag=tags,
                                 reps=rng.random() < .5))
        alts = [x for x in n.walk() if x.kind == ALT and len(x.kids) > 1]
        if alts and rng.random() < .1:
            # An alternative given twice.
            x = rng.choice(alts)
            x.kids.append(rng.choice(x.kids).clone())
            if x.weights is not None:
                x.weights.append(rng.choice([1, 2.5, 7]))
        f = flat(n, env)
        if within_limits(f) and not twins(n, env) and f.size() < 40 and \
                (has_dict(f) or rng.random() < .2) and cost(f) <= 200:
            break
    else:
        return
    if i < 3:
        rec.sample(n.show())
    if uniq:
        j = 0
        for x in n.walk():
            if x.kind == LIT:
                j += 1
                x.text = " ".join("%s%d" % (w, j) for w in x.text.split())
        uniq = not any(x.kind == REF for x in n.walk())
    run(rec, rng, n, env, rules, uniq)


def cost(n):
    """Upper bound for the number of results."""
    c = 1
    for x in n.walk():
        if x.kind in (OPT, STAR):
            c *= 2
        elif x.kind == ALT:
            c *= len(x.kids) + 1
    return c


def fixed(rec):
    # Findings recorded in known_findings.txt.
    n = Node(ALT, [Node(REP, [Node(OPT, [Node(LIT, text="a")])]), Node(DICT),
                   Node(REP, [Node(OPT, [Node(LIT, text="a")])])], weights=[2., 1., 2.])
    rec.eval()
    try:
        for e in expand_dictation_expansion(build(n)):
            e.compile()
    except GrammarError as err:
        rec.known["equal-weighted"] = "%s: %s" % (n.show(), err)
