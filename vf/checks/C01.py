"""Rules accept exactly the sentences of their language."""
from ..world import World, random_world
from ..gen import utterances, respell, vocab, Cfg
from ..model import from_jsgf, build, Node, LIT
from .. import gen
from jsgf import Rule

TECHNIQUE = "runtime monitor of match calls against a word-level language oracle"
LEVEL = "exploration"
QUICK, THOROUGH = 4000, 40000
RULE = ("random acyclic rule sets (1-4 rules, depth<=4, weights, references, NULL/VOID, "
        "nullable and nested repetitions) matched against sentences, near-sentences and "
        "random utterances with varied spacing and case; a case is one rule set; "
        "non-trivial = distinct (tree, utterance) whose tree has at least 3 nodes")
ASSUMPTIONS = ["words consist of letters, digits, hyphens and apostrophes",
               "rules do not refer to themselves"]


def judge(rec, w, ws, speech, got, how):
    member = w.lang.member(w.node, ws)
    greedy = w.lang.greedy(w.node, ws) == len(ws)
    rec.eval()
    if w.node.size() >= 3:
        rec.nontrivial(w.node.key(), tuple(ws))
    rec.event("accepted" if got else "rejected")
    if member and not greedy:
        rec.event("sentence_needing_backtracking(unspecified)")
    rec.require(isinstance(got, bool), "the result of matching is not a bool",
                rules=w.show(), utterance=speech, result=repr(got))
    if got and not member:
        rec.fail("accepted an utterance that is not a sentence of the rule (%s)" % how,
                 rules=w.show(), utterance=speech)
    if not got and greedy:
        rec.fail("rejected a sentence of the rule (%s)" % how,
                 rules=w.show(), utterance=speech)


def respace(rng, rec, rules):
    """Change what does not count in literals: the white space between words."""
    for _, n in rules:
        for x in n.walk():
            if x.kind == LIT and rng.random() < .5:
                ws = x.text.split()
                x.obj.text = rng.choice(["", " ", "\t"]) + \
                    rng.choice(["  ", "\t", " \n "]).join(ws) + rng.choice(["", "  "])
                rec.event("literals with other white space")


def punctuated(rng, rec, w, utts):
    """Characters which are in no literal make another utterance."""
    for ws in utts[:4]:
        if not ws:
            continue
        p = rng.randrange(len(ws) + 1)
        c = rng.choice([".", ",", "!", "?", ";", ":", "...", "\"", "(", "#", "%"])
        how = rng.randrange(3)
        if how == 0 or p == len(ws):
            out = ws[:p] + [c] + ws[p:]
        elif how == 1:
            out = ws[:p] + [ws[p] + c] + ws[p + 1:]
        else:
            out = ws[:p] + [c + ws[p]] + ws[p + 1:]
        speech = " ".join(out)
        rec.eval()
        rec.event("utterances with punctuation")
        rec.require(w.rule.matches(speech) is False, "accepted an utterance with "
                    "characters that no literal has", rules=w.show(), utterance=speech)


def case(rec, rng, i):
    tiny = rng.random() < .1

    def tweak(rules):
        # Weights are used whatever their magnitude.
        for _, n in rules:
            for x in n.walk():
                if tiny and x.weights:
                    x.weights = [v * rng.choice([1, 1e-5, 1e-9, 1e9]) for v in x.weights]
    words, w = random_world(rng, tweak=tweak)
    if rng.random() < 0.15 and w.used_elsewhere(rng, words):
        rec.event("parts that were parts of other rules before")
    if rng.random() < .1:
        respace(rng, rec, w.rules)
    if rng.random() < .15:
        w.other_grammar_case()
    if i < 3:
        rec.sample(w.show())
    utts = utterances(rng, w.lang, w.node, words, 10)
    if i % 25 == 0:
        long = w.lang.sample(w.node, rng, 0.97) or []
        if 14 < len(long) < 120:
            rec.event("long utterances")
            utts += [long, long[:-1]]
    for ws in utts:
        speech = respell(rng, ws, cs_safe=w.cs and rng.random() < .7)
        ws = speech.split()
        how = rng.randrange(6)
        if how == 0 and w.grammar is not None:
            got = [r.name for r in w.grammar.find_matching_rules(speech)]
            for name, node in w.rules:
                mem = w.lang.member(node, ws)
                gre = w.lang.greedy(node, ws) == len(ws)
                rec.eval()
                rec.event("grammar-wide result")
                if name in w.hidden:
                    rec.require(name not in got, "find_matching_rules returned a hidden "
                                "rule", rules=w.show(), rule=name, utterance=speech)
                    continue
                if name in got and not mem:
                    rec.fail("find_matching_rules returned a rule that does not "
                             "describe the utterance", rules=w.show(), rule=name,
                             utterance=speech)
                if name not in got and gre:
                    rec.fail("find_matching_rules missed a rule that describes the "
                             "utterance", rules=w.show(), rule=name, utterance=speech)
            rec.require(got == [n for n, _ in w.rules if n in got],
                        "find_matching_rules repeats or reorders rules", got=got)
            continue
        if how == 1:
            # The expansion itself: accepted prefix and remainder.
            text = " ".join(ws)
            rem = w.rule.expansion.matches(speech)
            rec.eval()
            rec.event("expansion matched directly")
            rec.require(text.endswith(rem) and
                        (rem == text or not rem or text[:-len(rem)].endswith(" ")),
                        "the remainder is not an ending of the utterance in words",
                        rules=w.show(), utterance=speech, remainder=rem)
            k = len(ws) - len(rem.split())
            ok = w.rule.was_matched
            g = w.lang.greedy(w.node, ws)
            if ok:
                rec.require(w.lang.member(w.node, ws[:k]),
                            "the part matched by an expansion is not one of its "
                            "sentences", rules=w.show(), utterance=speech, remainder=rem)
            else:
                rec.require(rem == text, "nothing matched, but the remainder is not the "
                            "utterance", rules=w.show(), utterance=speech, remainder=rem)
            if g is not None:
                rec.require(ok and k >= g or (not ok and g == 0),
                            "an expansion did not match the longest reading",
                            rules=w.show(), utterance=speech, remainder=rem,
                            expected_words=g)
            continue
        got = w.rule.matches(speech)
        judge(rec, w, ws, speech, got, "Rule.matches")
        rec.require(w.rule.was_matched is got, "was_matched differs from the result of "
                    "matching", rules=w.show(), utterance=speech, result=got)
    punctuated(rng, rec, w, utts)
    if rng.random() < .15:
        if rng.random() < .5:
            # Also what was matched without any words is forgotten.
            speech = rng.choice(["", " ", speech])
            w.rule.matches(speech)
        w.rule.disable()
        rec.require(w.rule.matches(speech) is False and w.rule.was_matched is False and
                    w.rule.find_matching_part(speech) is None,
                    "a disabled rule matched", rules=w.show(), utterance=speech)
        rec.event("disabled rule")
        if w.grammar is not None:
            rec.require(w.rule not in w.grammar.find_matching_rules(speech),
                        "a disabled rule was found", rules=w.show())
        w.rule.enable()
        ws = speech.split()
        got = w.rule.matches(speech)
        judge(rec, w, ws, speech, got, "after disable and enable")


def fixed(rec):
    """Every tree up to a small size over two words, every utterance up to 3 words."""
    import itertools
    from ..model import LIT, SEQ, REQ, ALT, OPT, REP, STAR, NULL, VOID
    atoms = [Node(LIT, text="a"), Node(LIT, text="an"), Node(NULL), Node(VOID)]

    def grow(level):
        if level == 0:
            return atoms
        sub = grow(level - 1)
        out = list(atoms)
        for k in (OPT, REP, STAR):
            out += [Node(k, [c.clone()]) for c in sub]
        for k in (SEQ, ALT):
            for x, y in itertools.product(sub, sub):
                out.append(Node(k, [x.clone(), y.clone()]))
        return out
    trees = grow(2)
    utts = [list(u) for n in range(4) for u in itertools.product(["a", "an"], repeat=n)]
    step = 1 if rec.tier == "thorough" else 7
    for t in trees[rec.seed % step::step]:
        w = World([("r", t.clone())], "loose")
        for ws in utts:
            judge(rec, w, ws, " ".join(ws), w.rule.matches(" ".join(ws)), "small trees")
            rec.event("small-scope pairs")
