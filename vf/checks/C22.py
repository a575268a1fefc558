"""Weights of alternatives: setting, losing, compiling, parsing and using them."""
from jsgf import (AlternativeSet, Rule, Grammar, Literal, Sequence, RequiredGrouping,
                  OptionalGrouping, GrammarError, parse_expansion_string,
                  parse_grammar_string)
from ..gen import eqkey, vocab, tree, Cfg, respell
from ..model import Node, build, from_jsgf, LIT, SEQ, REQ, ALT, OPT, REP, STAR
from ..lang import Lang
from ..edit import weights_ok
from ..norm import items

TECHNIQUE = "runtime monitor of weight histories against a model of each alternative"
LEVEL = "exploration"
QUICK, THOROUGH = 1200, 25000
RULE = ("histories of 12 changes to weights (by alternative, index, compiled text, "
        "comparable expansion, dictionary, with wrong values) and alternatives (added, "
        "removed, reordered, modified), interleaved with compiling, parsing, generating and "
        "matching; non-trivial = distinct (alternatives, weights)")
ASSUMPTIONS = ["the alternatives of a set are pairwise different"]


def fresh(rng, words, taken):
    """An alternative unlike the others, often with the same sentences."""
    for _ in range(30):
        if rng.random() < .6:
            x = Node(LIT, text=rng.choice(words) if rng.random() < .7 else
                     words[0] + " " + words[-1])
            for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
                x = Node(rng.choice([SEQ, REQ, ALT]), [x])
        else:
            x = tree(rng, words, Cfg(depth=1, p_weight=0, special=0))
        for y in x.walk():
            if y.kind in (REP, STAR) and y.tag:
                y.tag = ""      # their text cannot be parsed
        if rng.random() < .2 and x.kind not in (REP, STAR):
            x.tag = "t"
        if eqkey(x) not in taken:
            return x
    return Node(LIT, text="w%d" % rng.randrange(10 ** 6))


class W(object):
    def __init__(self, rec, rng):
        self.rec, self.rng = rec, rng
        self.words = vocab(rng, rng.choice([1, 2, 3]))
        self.kids, self.w = [], []      # nodes and weights (None: not set)
        self.gone = []                  # removed alternatives, whose weights are kept
        n = rng.choice([1, 2, 2, 3, 4, 5])
        for _ in range(n):
            self.kids.append(fresh(rng, self.words, self.keys()))
        self.w = [None] * n
        self.how = rng.choice(["loose", "rule", "inner"])
        self.log = []
        for k in self.kids:
            build(k)
        if rng.random() < .3 and n > 1 and self.parses_apart():
            # Start with parsed weights.
            self.w = [self.value()[0] for _ in range(n)]
            t = "(%s)" % "|".join("/%s/ %s" % (("%.4f" % w) if rng.random() < .5 else
                                               repr(w), k.obj.compile())
                                  for w, k in zip(self.w, self.kids))
            self.alt = parse_expansion_string(t)
            if type(self.alt) is not AlternativeSet:
                self.alt = self.alt.children[0]
            self.learn()
        else:
            self.alt = AlternativeSet(*[k.obj for k in self.kids])
        self.rule = None
        if self.how == "rule":
            self.rule = Rule("r", True, self.alt)
        elif self.how == "inner":
            e = self.alt
            for _ in range(rng.choice([0, 0, 1, 3, 5])):
                e = rng.choice([Sequence, RequiredGrouping])(e)
            self.rule = Rule("r", True, Sequence("start", e))
        if self.rule is not None and rng.random() < .5:
            self.g = Grammar("g")
            self.g.add_rule(self.rule)

    def learn(self):
        """The alternatives were made by the parser."""
        kids = []
        for c in self.alt.children:
            n = from_jsgf(c)
            kids.append(n)
        self.kids = kids
        if not self.ok():
            self.rec.fail("parsed alternatives differ", got=str(self.alt))

    def ok(self):
        ks = self.keys()
        return len(set(ks)) == len(ks)

    def parses_apart(self):
        """Whether the alternatives are still pairwise different once parsed."""
        ps = [eqkey(from_jsgf(parse_expansion_string(k.obj.compile())))
              for k in self.kids]
        return len(set(ps)) == len(ps)

    def keys(self):
        return [eqkey(k) for k in self.kids] + self.gone

    def remove_(self, i):
        self.gone.append(eqkey(self.kids[i]))

    def value(self):
        v = self.rng.choice([0, 0, 1, 2, 3, 5, 0.5, 1.25, 10, 0.0001, 1000])
        return float(v), self.rng.choice([v, float(v), str(v)])

    def fail(self, what, **kw):
        self.rec.fail(what, alternatives=[k.show() for k in self.kids], weights=self.w,
                      history=self.log[-6:], **kw)

    def set_(self, i, v):
        self.w[i] = v

    def raises(self, err, fn):
        try:
            r = fn()
        except err:
            return None
        return r if r is not None else "nothing raised"

    def observe(self):
        rec, rng, alt = self.rec, self.rng, self.alt
        rec.eval()
        rec.nontrivial([k.show() for k in self.kids], self.w)
        d = alt.weights
        for k, w in zip(self.kids, self.w):
            got = [v for e, v in d.items() if e is k.obj or e == k.obj]
            if got != ([] if w is None else [w]):
                self.fail("wrong weight", alternative=k.show(), got=got, want=w)
        if d and self.kids and None in self.w:
            rule = self.rule
            for what, fn in [("compiling", alt.compile), ("generating", alt.generate),
                             ("matching", lambda: alt.matches("x")),
                             ("compiling without tags", lambda: alt.compile(True))] + (
                                 [] if rule is None else
                                 [("compiling the rule", rule.compile),
                                  ("generating from the rule", rule.generate),
                                  ("matching the rule", lambda: rule.matches("start x"))]):
                # Matchers do not depend on removed alternatives.
                r = self.raises(GrammarError, fn)
                if r is not None:
                    self.fail("%s works without all weights" % what, result=repr(r))
            rec.event("missing weights")
            return
        if not self.kids:
            return
        weighted = None not in self.w
        want = "(%s)" % "|".join(("/%.4f/ " % w if weighted else "") + k.obj.compile()
                                 for w, k in zip(self.w, self.kids))
        if alt.compile() != want:
            self.fail("wrong text", got=alt.compile(), want=want)
        if weighted and len(self.kids) > 1 and self.parses_apart():
            p = parse_expansion_string(want)
            n = Node(ALT, self.kids, weights=self.w)
            if items(from_jsgf(p)) != items(n):
                self.fail("parsed weights differ", text=want, got=from_jsgf(p).show())
            rec.event("parsed")
        live = [(k, w) for k, w in zip(self.kids, self.w) if w != 0]
        lang = Lang({})
        for _ in range(3):
            s = alt.generate()
            if live and not any(lang.member(k, s.split()) for k, _ in live) or \
                    not live and s:
                self.fail("an alternative of weight 0 was generated", generated=s)
        for _ in range(4):
            k = rng.choice(self.kids)
            ws = lang.sample(k, rng)
            if ws is None or not ws:
                continue
            if rng.random() < .3:
                ws = ws + [rng.choice(self.words).split()[0]]
            self.match(ws, live, weighted, lang)

    def match(self, ws, live, weighted, lang):
        rec, alt, rule = self.rec, self.alt, self.rule
        ws = [x for w in ws for x in w.split()]
        ends = [(lang.greedy(k, ws), k, w) for k, w in live]
        ends = [x for x in ends if x[0] is not None]
        best = max([x[0] for x in ends]) if ends else None
        s = respell(self.rng, ws)
        rec.eval()
        if rule is None or self.rng.random() < .4:
            # As written by itself (the whole rule is not matched).
            got = alt.matches(s)
            want = " ".join(s.split()[best or 0:])
            if got != want:
                self.fail("wrong rest of an utterance", utterance=s, got=got, want=want)
        else:
            lead = ["start"] if self.how == "inner" else []
            got = rule.matches(" ".join(lead) + " " + s)
            if got != (best == len(ws)):
                self.fail("wrong match result", utterance=s, got=got, longest=best)
            if not got:
                rec.event("no match")
                return
        if not best:
            return
        # The longest alternative is used, of those the one with the highest weight.
        cand = [(w, k) for e, k, w in ends if e == best]
        if weighted:
            top = max(w for w, _ in cand)
            cand = [(w, k) for w, k in cand if w == top]
        got = [k for k in self.kids if k.obj.current_match]
        if len(got) != 1 or not any(got[0] is k for _, k in cand):
            self.fail("another alternative than one of the longest with the highest weight "
                      "was used", utterance=s, used=[k.show() for k in got],
                      expected=[k.show() for _, k in cand])
        rec.event("ambiguous utterances" if len([1 for e, _, _ in ends if e == best]) > 1
                  else "unambiguous utterances")

    def step(self):
        rng, alt, n = self.rng, self.alt, len(self.kids)
        k = rng.choice(["child", "index", "text", "equal", "dict", "all", "bad", "add",
                        "remove", "replace", "reorder", "modify", "wrong", "all"])
        self.log.append(k)
        self.rec.event("step: " + k)
        i = rng.randrange(n) if n else None
        v, raw = self.value()
        if k in ("child", "index", "text", "equal") and n:
            c = self.kids[i]
            if k == "child":
                alt.set_weight(c.obj, raw)
            elif k == "index":
                alt.set_weight(rng.choice([i, i - n]), raw)
            elif k == "text":
                t = c.obj.compile()
                if [x.obj.compile() for x in self.kids].count(t) != 1:
                    return
                alt.set_weight(t, raw)
            else:
                alt.set_weight(build(c.clone()), raw)
            self.w[i] = v
            self.log[-1] += " %d: %r" % (i, raw)
        elif k in ("dict", "all") and n:
            vs = [self.value() for _ in self.kids]
            if k == "all":
                for j, (x, r) in enumerate(vs):
                    alt.set_weight(j, r)
            else:
                keys = [rng.choice([j, x.obj, x.obj, build(x.clone())])
                        for j, x in enumerate(self.kids)]
                pairs = list(zip(range(n), keys, [r for _, r in vs]))
                if rng.random() < .4:
                    # The weights of some: those of the others stay.
                    pairs = rng.sample(pairs, rng.randint(0, n))
                rng.shuffle(pairs)
                alt.weights = (dict if rng.random() < .7 else list)(
                    (key, r) for _, key, r in pairs)
                for j, _, _ in pairs:
                    self.w[j] = vs[j][0]
                self.log[-1] += " of %r" % [j for j, _, _ in pairs]
                if rng.random() < .2:
                    alt.weights = alt.weights
            if k == "all":
                self.w = [x for x, _ in vs]
        elif k == "bad" and n:
            bad, err = rng.choice([(-1, TypeError), (-0.5, TypeError), ("-2", TypeError),
                                   (-1e-9, TypeError), (-.0005, TypeError),
                                   ("-0.00001", TypeError),
                                   ("x", ValueError), (None, TypeError), ("", ValueError),
                                   (float("nan"), TypeError), (float("inf"), TypeError),
                                   ("nan", TypeError), ("inf", TypeError),
                                   ([], TypeError)])
            if self.raises(err, lambda: alt.set_weight(rng.choice([i, self.kids[i].obj]),
                                                       bad)) is not None:
                self.fail("a wrong weight was accepted", weight=repr(bad))
        elif k == "wrong" and n:
            if self.raises(IndexError, lambda: alt.set_weight(
                    rng.choice([n, -n - 1, n + 5]), 1)) is not None:
                self.fail("a weight was set for an index out of range")
        elif k == "add" and n < 6:
            c = fresh(rng, self.words, self.keys())
            j = rng.randint(0, n)
            alt.children.insert(j, build(c))
            self.kids.insert(j, c)
            self.w.insert(j, None)
        elif k == "remove" and n > 1:
            self.remove_(i)
            if rng.random() < .5:
                alt.children.pop(i)
            else:
                alt.children.remove(self.kids[i].obj)
            del self.kids[i], self.w[i]
        elif k == "replace" and n:
            c = fresh(rng, self.words, self.keys())
            alt.children[i] = build(c)
            self.remove_(i)
            self.kids[i], self.w[i] = c, None
        elif k == "reorder" and n:
            p = list(range(n))
            rng.shuffle(p)
            alt.children = [self.kids[j].obj for j in p]
            self.kids = [self.kids[j] for j in p]
            self.w = [self.w[j] for j in p]
        elif k == "modify" and n:
            c = self.kids[i]
            lits = [x for x in c.walk() if x.kind == LIT]
            if not lits:
                return
            x = rng.choice(lits)
            old = x.text
            x.text = rng.choice(self.words + ["new words"])
            if not self.ok():
                x.text = old
            else:
                x.obj.text = x.text


def case(rec, rng, i):
    w = W(rec, rng)
    w.observe()
    for _ in range(12):
        w.step()
        if not w.ok():
            return
        w.observe()
    if i < 3:
        rec.sample((w.log, [k.show() for k in w.kids], w.w))
