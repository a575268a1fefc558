"""Finding the part of an utterance that matches a rule."""
from ..world import random_world
from ..gen import utterances, respell, has_only_branch, nullable
from ..parse import Deriver, Verifier, Inconsistent, expected, spans, char_slice, observed

TECHNIQUE = "runtime monitor of part searches against a language oracle and derivations"
LEVEL = "exploration"
QUICK, THOROUGH = 3000, 30000
RULE = ("random rule sets searched for in utterances made of sentences, parts of sentences "
        "and other words; non-trivial = distinct (tree, utterance) whose found part is "
        "neither the whole utterance nor at its start")
ASSUMPTIONS = ["words consist of letters, digits, hyphens and apostrophes",
               "rules do not refer to themselves"]


def judge(rec, w, ws, speech, got):
    n = len(ws)
    ends = [w.lang.greedy(w.node, ws, i) for i in range(n + 1)]
    first = next((i for i in range(n) if ends[i] is not None and ends[i] > i), None)
    show = dict(rules=w.show(), utterance=speech, result=repr(got))
    rec.eval()
    if got is None:
        rec.require(first is None, "a part that matches was not found", at_word=first,
                    **show)
        rec.require(not w.rule.was_matched, "no part was found, but the rule reports a "
                    "match", **show)
        for x in w.all_nodes():
            rec.require(not observed(x)[0] and observed(x)[1] is None,
                        "no part was found, but match data is reported",
                        expansion=x.show(), **show)
        rec.event("nothing found")
        return
    rec.require(got == " ".join(got.split()) and got, "the part is not words separated by "
                "single spaces", **show)
    gw = got.split()
    k = len(gw)
    cands = [i for i in range(n - k + 1)
             if all(a == (b if w.cs else b.lower()) for a, b in zip(gw, ws[i:i + k]))]
    rec.require(cands, "the part is not a part of the utterance (in lower case unless the "
                "rule is case sensitive)", **show)
    cands = [i for i in cands if w.lang.member(w.node, ws[i:i + k])]
    rec.require(cands, "the part found is not a sentence of the rule", **show)
    if first is not None:
        # Earlier starts are possible only for readings that need backtracking.
        c = [i for i in cands if i <= first]
        rec.require(c, "the part found is not the first one", first_word=first, **show)
        if first in c:
            rec.require(first + k >= ends[first] or c[0] < first,
                        "the part found is not the longest reading",
                        expected_end=ends[first], **show)
    # Match data describes that part, within the whole utterance.
    sl = w.rule.expansion.matching_slice
    rec.require(isinstance(sl, slice), "a part was found, but the rule reports no match",
                **show)
    sp = spans(ws)
    starts = {a: x for x, (a, _) in enumerate(sp)}
    rec.require(sl.start in starts and starts[sl.start] in cands and
                sl.stop == sp[starts[sl.start] + k - 1][1],
                "the position reported is not that of the part found",
                position=str(sl), **show)
    i = starts[sl.start]
    if first is not None:
        rec.require(i <= first, "the position reported is not that of the first part",
                    position=str(sl), **show)
    v = Verifier(ws, w.env, w.once, nullable=lambda x: nullable(x, w.env))
    try:
        s = v.verify(w.node)
        if s != (i, i + k):
            raise Inconsistent("the whole match spans words %s, not %s" % (s, (i, i + k)))
    except Inconsistent as e:
        rec.fail("match data is not one reading of the part found", problem=str(e), **show)
    rec.eval(v.checked)
    rec.event("found")
    if i > 0:
        rec.nontrivial(w.node.key(), tuple(ws))
    der = Deriver(w.env)
    d = der.go(w.node, ws, i)
    if d is None or d.j != i + k or der.tie or has_only_branch(w.node):
        return
    exp = expected(d)
    for x in w.node.walk():
        cm, sl = observed(x)
        want = exp.get(id(x))
        rec.eval()
        if want is None:
            rec.require(not cm, "an expansion that took no part reports matched text",
                        expansion=x.show(), text=cm, **show)
        else:
            a, b = char_slice(sp, *want)
            rec.require(cm and (sl.start, sl.stop) == (a, b),
                        "an expansion reports a position other than its part's",
                        expansion=x.show(), text=cm, position=str(sl), expected=[a, b],
                        **show)
    rec.event("unique readings compared exactly")


def case(rec, rng, i):
    words, w = random_world(rng)
    if rng.random() < 0.15 and w.used_elsewhere(rng, words):
        rec.event("parts that were parts of other rules before")
    if rng.random() < .15:
        w.other_grammar_case()
    if i < 3:
        rec.sample(w.show())
    junk = words + ["zulu", "yankee", "it's", "the", "a-b"]
    for ws in utterances(rng, w.lang, w.node, words, 9):
        r = rng.random()
        if r < .75:
            ws = [rng.choice(junk).split()[0] for _ in range(rng.randint(0, 3))] + ws + \
                 [rng.choice(junk).split()[0] for _ in range(rng.randint(0, 3))]
        if rng.random() < .2:
            ws = ws + (w.lang.sample(w.node, rng) or [])[:8]
        speech = respell(rng, ws, cs_safe=w.cs and rng.random() < .7)
        ws = speech.split()
        got = w.rule.find_matching_part(speech)
        rec.require(got is None or hasattr(got, "upper"), "the result is neither text nor "
                    "nothing", rules=w.show(), utterance=speech, result=repr(got))
        judge(rec, w, ws, speech, got)
        if rng.random() < .1:
            w.rule.disable()
            rec.require(w.rule.find_matching_part(speech) is None,
                        "a disabled rule matched a part", rules=w.show(),
                        utterance=speech)
            rec.event("disabled")
            w.rule.enable()
