"""Data saved for each repetition."""
from ..world import random_world
from ..gen import utterances, respell, nullable, has_only_branch
from ..parse import (Verifier, Deriver, Inconsistent, expected, spans, char_slice, need,
                     observed)
from ..model import REP, STAR, REF, OPT

TECHNIQUE = "runtime monitor of per-repetition records against derivations"
LEVEL = "exploration"
QUICK, THOROUGH = 4000, 40000
RULE = ("random rule sets with repetitions (also nested, nullable, around references) "
        "matched against sentences; every repetition operator's count and the text and "
        "position lists of each of its descendants are checked after a success; "
        "non-trivial = distinct (tree, utterance) with an operator matched at least twice")
ASSUMPTIONS = ["rules do not refer to themselves"]


def rep_nodes(n, path=()):
    """(node, is inside another repetition)"""
    if n.kind in (REP, STAR):
        yield n, any(p.kind in (REP, STAR) for p in path)
    for c in n.kids:
        for x in rep_nodes(c, path + (n,)):
            yield x


def once(w):
    """Rules referenced once, also in repetitions: their data is that of the last one."""
    return {r for r, c in w.counts.items() if c == 1}


def getter(rep, r):
    def get(n):
        return (rep.obj.get_expansion_matches(n.obj)[r],
                rep.obj.get_expansion_slices(n.obj)[r])
    return get


def check_rep(rec, w, ws, n, top):
    """n is a repetition whose own data describe the utterance."""
    o = n.obj
    k = o.repetitions_matched
    cm, sl = observed(n)
    need(isinstance(k, int) and k >= 0, "repetitions_matched is %r", k)
    # Lists exist for every descendant, with one entry per repetition.
    descs = [x for c in n.kids for x in c.walk()]
    refd = []
    for x in list(descs):
        if x.kind == REF:
            refd += [y for y in w.env[x.text].walk()]
    for x in descs + refd:
        for lst in (o.get_expansion_matches(x.obj), o.get_expansion_slices(x.obj)):
            need(isinstance(lst, list) and len(lst) == k,
                 "%s: %r holds %r entries for %r repetitions", x.show(), lst, len(lst), k)
    if not cm:
        need(k == 0, "%s matched nothing but has %d repetitions", n.show(), k)
        rec.event("operators without repetitions")
        return
    need(k >= 1, "%s matched %r with no repetitions", n.show(), cm)
    v0 = Verifier(ws, w.env)
    i, j = v0.span(n)
    pos = i
    for r in range(k):
        # Each repetition is a derivation of its own part; parts are consecutive.
        v = Verifier(ws, w.env, once(w) & {x.text for x in descs if x.kind == REF},
                     get=getter(n, r), nullable=lambda x: nullable(x, w.env))
        s = v.verify(n.kids[0])
        need(s is not None, "%s: repetition %d matched nothing", n.show(), r)
        need(s[0] == pos, "%s: repetition %d starts at word %d, the previous one ended "
             "at %d", n.show(), r, s[0], pos)
        pos = s[1]
        rec.eval(v.checked)
    need(pos == j, "%s: the repetitions end at word %d, the match at %d", n.show(), pos, j)
    # The data reported outside the lists is that of the last repetition.
    for x in descs:
        need(o.get_expansion_matches(x.obj)[-1] == x.obj.current_match and
             o.get_expansion_slices(x.obj)[-1] == x.obj.matching_slice,
             "%s: %r is not that of the last repetition, %r", x.show(),
             x.obj.current_match, o.get_expansion_matches(x.obj)[-1])
        ever = any(o.get_expansion_matches(x.obj))
        if top and ever:
            need(x.obj.had_match is True, "%s matched in a repetition but had_match is %r",
                 x.show(), x.obj.had_match)
    rec.event("operators with %s repetitions" % (k if k < 4 else "4+"))
    return k


def check_exact(rec, w, ws, d):
    """Where the reading is unique, the lists are known exactly."""
    sp = spans(ws)

    def go(d, inside):
        if d.n.kind in (REP, STAR):
            o = d.n.obj
            if not inside:
                need(o.repetitions_matched == len(d.reps),
                     "%s: %d repetitions reported, %d are in the utterance", d.n.show(),
                     o.repetitions_matched, len(d.reps))
            for r, x in enumerate(d.reps):
                exp = expected(x)
                for c in d.n.kids[0].walk():
                    got = o.get_expansion_slices(c.obj)[r]
                    txt = o.get_expansion_matches(c.obj)[r]
                    want = exp.get(id(c))
                    rec.eval()
                    if want is None:
                        need(not txt, "%s: repetition %d reports %r for %s, which took no "
                             "part in it", d.n.show(), r, txt, c.show())
                    else:
                        a, b = char_slice(sp, *want)
                        need(got is not None and (got.start, got.stop) == (a, b),
                             "%s: repetition %d reports position %s of %s, expected "
                             "%d-%d", d.n.show(), r, got, c.show(), a, b)
            rec.event("operators compared exactly")
            # Operators inside hold the data of the last repetition.
            for x in d.reps[-1:]:
                go(x, False)
            return
        if d.n.kind == REF:
            return
        for c in d.kids:
            if c.j > c.i:
                go(c, inside)
    go(d, False)


def check_all(rec, w, ws, speech):
    words_of = " ".join(ws)
    try:
        for n, inside in rep_nodes(w.node):
            # Inside another repetition, the data is that of its last repetition.
            k = check_rep(rec, w, ws, n, not inside)
            if k and k > 1:
                rec.nontrivial(w.node.key(), words_of)
        for name in once(w):
            for n, inside in rep_nodes(w.env[name]):
                check_rep(rec, w, ws, n, not inside)
                rec.event("operators in referenced rules")
        der = Deriver(w.env)
        d = der.run(w.node, ws)
        if d is not None and d.j == len(ws) and not der.tie and \
                not has_only_branch(w.node):
            check_exact(rec, w, ws, d)
        # Expansions outside have no entries.
        for n, _ in rep_nodes(w.node):
            ids = set(id(x) for c in n.kids for x in c.walk())
            for x in w.node.walk():
                if id(x) not in ids:
                    need(n.obj.get_expansion_matches(x.obj) == [] and
                         n.obj.get_expansion_slices(x.obj) == [],
                         "%s has entries for %s, which it does not repeat", n.show(),
                         x.show())
    except Inconsistent as e:
        rec.fail("repetition data is not that of the utterance", problem=str(e),
                 rules=w.show(), utterance=speech)


def case(rec, rng, i):
    for _ in range(20):
        words, w = random_world(rng)
        if any(True for x in w.all_nodes() if x.kind in (REP, STAR)):
            break
    if rng.random() < .15 and w.used_elsewhere(rng, words):
        rec.event("parts that were parts of other rules before")
    if i < 3:
        rec.sample(w.show())
    for ws in utterances(rng, w.lang, w.node, words, 9, more=.8):
        speech = respell(rng, ws, cs_safe=w.cs)
        ws = speech.split()
        if w.rule.matches(speech):
            check_all(rec, w, ws, speech)
            rec.event("successes checked")
        else:
            for n, _ in rep_nodes(w.node):
                rec.eval()
                rec.require(n.obj.repetitions_matched == 0 and all(
                    n.obj.get_expansion_matches(x.obj) == []
                    for x in n.kids[0].walk()),
                    "repetition data after a failed match", rules=w.show(),
                    utterance=speech)
            rec.event("failures checked")
