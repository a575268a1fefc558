"""Match data after a success is one consistent derivation of the utterance."""
from ..world import random_world, World, STYLES
from ..gen import utterances, respell, vocab, tree, Cfg, has_only_branch, nullable
from ..parse import (Verifier, Deriver, Inconsistent, expected, spans, char_slice,
                     unmatched_values, observed)
from ..model import Node, LIT, SEQ, OPT, STAR, REP, REF

TECHNIQUE = "runtime monitor of match data against an independently computed derivation"
LEVEL = "exploration"
QUICK, THOROUGH = 4000, 40000
RULE = ("random acyclic rule sets matched against sentences, near-sentences and partial "
        "sentences; after each success every expansion's reported text and position is "
        "checked; non-trivial = distinct (tree, utterance) with at least 2 expansions "
        "reporting matched text")
ASSUMPTIONS = ["rules do not refer to themselves"]


def check_data(rec, w, ws, k, speech):
    """Data must describe the first k of the words ws."""
    part = ws[:k]
    v = Verifier(ws, w.env, w.once, nullable=lambda n: nullable(n, w.env))
    try:
        s = v.verify(w.node)
        if k:
            if s != (0, k):
                raise Inconsistent("the whole match spans words %s, not 0-%d" % (s, k))
        elif s is not None:
            raise Inconsistent("no words were matched, but words %s are reported" % (s,))
        for x in w.all_nodes():
            cm, sl = observed(x)
            if not cm:
                want = unmatched[id(x)] if id(x) in unmatched else None
                if id(x) in unmatched and cm != want:
                    raise Inconsistent("%s: unmatched value is %r, not %r"
                                       % (x.show(), cm, want))
    except Inconsistent as e:
        rec.fail("match data is not one consistent derivation", problem=str(e),
                 rules=w.show(), utterance=speech)
    rec.eval(v.checked)
    rec.event("successes checked")
    if v.checked >= 3:
        rec.nontrivial(w.node.key(), tuple(part))

    # Exact data where the documented reading is unique.
    der = Deriver(w.env)
    d = der.run(w.node, part)
    if d is None or d.j != k or der.tie or has_only_branch(w.node):
        rec.event("reading not unique (consistency only)")
        return
    exp = expected(d)
    sp = spans(ws)
    for x in w.node.walk():
        cm, sl = observed(x)
        want = exp.get(id(x))
        rec.eval()
        if want is None:
            rec.require(not cm, "an expansion that took no part reports matched text",
                        expansion=x.show(), text=cm, rules=w.show(), utterance=speech)
        else:
            a, b = char_slice(sp, *want)
            rec.require(cm and (sl.start, sl.stop) == (a, b),
                        "an expansion reports a position other than its part's",
                        expansion=x.show(), text=cm, position=str(sl), expected=[a, b],
                        rules=w.show(), utterance=speech)
    rec.event("unique readings compared exactly")
    # Rules that no matched reference led to report nothing.
    used = set()

    def go(d):
        if d.j > d.i:
            if d.n.kind == REF:
                used.add(d.n.text)
            for c in (d.reps or d.kids):
                go(c)
    go(d)
    for name, n in w.rules[:-1]:
        if name not in used and name in w.counts:
            for x in n.walk():
                rec.eval()
                rec.require(not observed(x)[0] and observed(x)[1] is None, "an unmatched "
                            "referenced rule reports matched text or a position", rule=name, expansion=x.show(),
                            rules=w.show(), utterance=speech)
            rec.event("unmatched referenced rules checked")


unmatched = {}


def abandoned(rng):
    """Rules that begin like something tried and abandoned before them."""
    words = vocab(rng, 3)
    a = tree(rng, words, Cfg(depth=rng.choice([0, 1, 2]), special=0))
    b = a.clone() if rng.random() < .7 else tree(rng, words, Cfg(depth=1))
    p, q = [Node(LIT, text=t) for t in rng.sample(["papa", "quebec", "romeo"], 2)]

    def ref(x):
        return Node(REF, text=x)
    attempt = Node(SEQ, [ref("a"), p])
    if rng.random() < .4:
        attempt.kids.insert(0, Node(OPT, [p.clone()]))
    first = Node(rng.choice([OPT, STAR, REP]), [attempt])
    if first.kind == REP or rng.random() < .3:
        first = Node(OPT, [first])
    kids = [first, ref("b"), q]
    if rng.random() < .3:
        kids.insert(1, Node(OPT, [Node(SEQ, [ref("c"), p.clone(), p.clone()])]))
    rules = [("a", a), ("b", b), ("c", a.clone()), ("d", Node(SEQ, kids))]
    return words, World(rules, rng.choice(STYLES))


def case(rec, rng, i):
    if rng.random() < .12:
        words, w = abandoned(rng)
        rec.event("rules with attempts that are abandoned")
    else:
        words, w = random_world(rng)
    unmatched.clear()
    for _, n in w.rules:
        unmatched_values(n, False, unmatched)
    if rng.random() < .15:
        w.other_grammar_case()
    if i < 3:
        rec.sample(w.show())
    if rng.random() < .25 and w.used_elsewhere(rng, words):
        rec.event("parts that were parts of other rules before")
    for ws in utterances(rng, w.lang, w.node, words, 10):
        speech = respell(rng, ws, cs_safe=w.cs)
        ws = speech.split()
        how = rng.randrange(4)
        if how == 0:
            rem = w.rule.expansion.matches(speech)
            if not w.rule.was_matched:
                rec.event("failures")
                continue
            k = len(ws) - len(rem.split())
            rec.require(" ".join(ws[k:]) == rem, "the remainder is not the rest of the "
                        "utterance", rules=w.show(), utterance=speech, remainder=rem)
            rec.event("expansions matched directly")
            check_data(rec, w, ws, k, speech)
        elif how == 1 and w.grammar is not None:
            if w.rule in w.grammar.find_matching_rules(speech):
                # Other rules were matched before it, none after it.
                check_data(rec, w, ws, len(ws), speech)
                rec.event("grammar-wide matches")
        elif w.rule.matches(speech):
            check_data(rec, w, ws, len(ws), speech)
        else:
            rec.event("failures")
