"""Dictation: what it takes of an utterance, looking ahead."""
import copy
from jsgf import JointTreeContext
from jsgf.ext import Dictation
from ..world import World, STYLES
from ..gen import grammar_nodes, vocab, tree, respell, Cfg, utterances, nullable, has_only_branch
from ..lang import Lang, DICT_WORDS, word_eq
from ..model import Node, build, LIT, SEQ, REQ, ALT, OPT, REP, STAR, REF, NULL, VOID, DICT
from ..parse import (Deriver, D, Verifier, Inconsistent, expected, spans, char_slice, observed)

TECHNIQUE = "runtime monitor of matching against a reading with computed next words"
LEVEL = "exploration"
QUICK, THOROUGH = 6000, 40000
RULE = ("random rule sets with dictation anywhere, matched against sentences with fresh and "
        "literal words dictated, near-sentences and random words, alone, through references, "
        "in joint trees and after changes of what follows; result and match data compared "
        "with a reading that knows all next words; non-trivial = distinct (tree, utterance) "
        "matched with words dictated")
ASSUMPTIONS = ["dictated words are made of letters, digits and ?,.-_!;:'",
               "after changing what follows, invalidate_matcher is called, as documented"]


class Next(object):
    """
    For each dictation, the words at which it stops, and whether another dictation can
    follow directly (it then takes one word).
    """
    def __init__(self, node, env, joint):
        self.env, self.joint = env, joint
        self.stops = {}
        trees = [node]
        seen = set()
        todo = [node]
        while todo:
            for x in todo.pop().walk():
                if x.kind == REF and x.text in env and x.text not in seen:
                    seen.add(x.text)
                    todo.append(env[x.text])
                    if not joint:
                        trees.append(env[x.text])
        for t in trees:
            self.down(t, [])

    def first(self, n, skip):
        """(things it can begin with, whether it can be nothing)"""
        k = n.kind
        if k == LIT:
            return {(n.text.split()[0], n.cs)}, False
        if k == DICT:
            return (set() if n is skip else {DICT}), False
        if k == REF:
            return self.first(self.env[n.text], skip)
        if k == NULL:
            return set(), True
        if k == VOID:
            return set(), False
        if k == ALT:
            out, e = set(), not n.kids
            for c in n.kids:
                f, ce = self.first(c, skip)
                out |= f
                e = e or ce
            return out, e
        out, e = set(), True
        for c in n.kids:
            f, e = self.first(c, skip)
            out |= f
            if not e:
                break
        return out, e or k in (OPT, STAR)

    def down(self, n, later):
        """later: list of (things that can come next) functions, closest first."""
        if n.kind == DICT:
            out = set()
            for group, rep in later:
                done = False
                for c in group:
                    f, e = self.first(c, n)
                    out |= f
                    if not e and not rep:
                        done = True
                        break
                if done:
                    break
            self.stops[id(n)] = out
        elif n.kind in (SEQ, REQ):
            for i, c in enumerate(n.kids):
                self.down(c, [(n.kids[i + 1:], False)] + later)
        elif n.kind in (REP, STAR):
            self.down(n.kids[0], [([n.kids[0]], True)] + later)
        elif n.kind == REF and self.joint and n.text in self.env:
            self.down(self.env[n.text], later)
        else:
            for c in n.kids:
                self.down(c, later)


class Reader(Deriver):
    def __init__(self, env, nxt):
        Deriver.__init__(self, env)
        self.next = nxt

    def go(self, n, words, i):
        if n.kind != DICT:
            return Deriver.go(self, n, words, i)
        stops = self.next.stops[id(n)]
        if i >= len(words):
            return None
        if DICT in stops:
            return D(n, i, i + 1)
        j = i
        while j < len(words) and not any(
                all(word_eq(a, b, cs) for a, b in zip([w], words[j:j + 1]))
                for w, cs in stops):
            j += 1
        return D(n, i, j) if j > i else None


def dictated(rng, lang, node, words):
    s = lang.sample(node, rng, .4)
    return None if s is None else [w for x in s for w in x.split()]


class Run(object):
    def __init__(self, rec, rng, w, words):
        self.rec, self.rng, self.w, self.words = rec, rng, w, words

    def check(self, reader, ws, speech, how):
        rec, w = self.rec, self.w
        rec.eval()
        d = reader.run(w.node, ws)
        want = d is not None and d.j == len(ws)
        got = w.rule.matches(speech)
        exact = self.exact()
        rec.event("%s, %s: %s" % (how, "exact" if exact else "sound only",
                                  "matched" if got else "not matched"))
        if exact and bool(got) != want:
            rec.fail("matching with dictation returned %r" % got, rules=w.show(),
                     utterance=speech, how=how)
        # Whatever matches is a sentence.
        if got and not w.lang.member(w.node, ws):
            rec.fail("an utterance that is no sentence matched", rules=w.show(),
                     utterance=speech)
        if not got:
            for x in w.all_nodes():
                cm = observed(x)[0]
                rec.require(not cm, "an expansion reports a match after a failure",
                            expansion=x.show(), match=cm, rules=w.show(), utterance=speech)
            return
        v = Verifier(ws, w.env, w.once, nullable=lambda n: nullable(n, w.env))
        try:
            s = v.verify(w.node)
            if s != ((0, len(ws)) if ws else None):
                raise Inconsistent("the whole match spans words %s" % (s,))
        except Inconsistent as e:
            rec.fail("match data is not one consistent derivation", problem=str(e),
                     rules=w.show(), utterance=speech)
        if not exact or not want or reader.tie:
            return
        exp, sp = expected(d), spans(ws)
        some = False
        for x in w.node.walk():
            cm, sl = observed(x)
            want = exp.get(id(x))
            if want is None:
                rec.require(not cm, "an expansion that took no part reports matched text",
                            expansion=x.show(), text=cm, rules=w.show(), utterance=speech)
                continue
            a, b = char_slice(sp, *want)
            rec.require(cm and (sl.start, sl.stop) == (a, b),
                        "an expansion reports another part of the utterance",
                        expansion=x.show(), text=cm, expected=" ".join(ws[want[0]:want[1]]),
                        rules=w.show(), utterance=speech)
            some = some or x.kind == DICT
            if x.kind == DICT:
                n = want[1] - want[0]
                rec.event("words taken by a dictation: %s" % (n if n < 4 else "4 or more"))
        if some:
            rec.nontrivial(w.node.key(), tuple(ws))

    def exact(self):
        """
        Whether what the tree matches is determined: how often the only part of a
        repetition is repeated is not, if it is a repetition.
        """
        return not any(has_only_branch(n) for n in [self.w.node] + list(self.w.env.values()))

    def round(self, how, joint=False, n=6):
        rng, w = self.rng, self.w
        reader = Reader(w.env, Next(w.node, w.env, joint))
        for ws in utterances(rng, w.lang, w.node, self.words, n, .4):
            if rng.random() < .3:
                # Literal words may be dictated, too.
                ws = [rng.choice(self.words).split()[0] if x in DICT_WORDS and
                      rng.random() < .4 else x for x in ws]
            if w.cs and rng.random() < .5:
                # Words that differ in case from literal words only are dictated.
                ws = [rng.choice([x.upper(), x.capitalize(), x.swapcase()])
                      if rng.random() < .3 and x.upper().lower() == x.lower() else x
                      for x in ws]
            s = respell(rng, ws, cs_safe=w.cs)
            self.check(reader, s.split(), s, how)

    def invalidate(self):
        for x in self.w.all_nodes():
            if x.kind == DICT:
                x.obj.invalidate_matcher()


class Bare(object):
    """An expansion outside of any rule, whose literals have their own case sensitivity."""
    once, style, grammar = set(), "bare", None

    def __init__(self, node):
        self.node, self.env, self.cs = node, {}, True
        self.lang = Lang({})
        self.expansion = build(node)
        self.rule = self

    def matches(self, speech):
        if self.expansion.matches(speech) == "" and self.expansion.matching_slice is not None:
            return True
        self.expansion.reset_for_new_match()
        return False

    def all_nodes(self):
        return list(self.node.walk())

    def show(self):
        return self.node.show()


def bare(rec, rng):
    words = vocab(rng)
    n = tree(rng, words, Cfg(dict=rng.choice([.2, .4]), special=.03, p_weight=.1,
                             zero_weight=0, maxkids=3, p_cs=.5, p_tag=.1))
    if not any(x.kind == DICT for x in n.walk()):
        return
    words = [w for w in words if w not in DICT_WORDS] or ["alpha"]
    Run(rec, rng, Bare(n), words).round("outside of rules", n=4)


def followed(rng, rules, words):
    """Let some dictation be followed by many optional words, further out by others."""
    if rng.random() < .8:
        return
    for _, n in rules:
        for p in list(n.walk()):
            if p.kind not in (SEQ, REQ) or rng.random() < .5:
                continue
            for k, c in enumerate(p.kids):
                if c.kind == DICT:
                    ws = rng.sample(words + ["kilo", "lima", "mike", "november"],
                                    rng.randint(2, 4))
                    p.kids[k] = Node(rng.choice([SEQ, REQ]), [c, Node(OPT, [Node(ALT, [
                        Node(LIT, text=x) for x in ws])])])
                    if rng.random() < .7:
                        p.kids.insert(k + 1, Node(LIT, text=rng.choice(words + ["oscar"])))
                    break


def case(rec, rng, i):
    bare(rec, rng)
    words, rules = grammar_nodes(rng, Cfg(dict=rng.choice([.2, .4]), special=.03,
                                          p_weight=.1, zero_weight=0,
                                          maxkids=3, p_tag=rng.choice([0, .2])))
    words = [w for w in words if w not in DICT_WORDS] or ["alpha"]
    followed(rng, rules, words)
    w = World(rules, rng.choice(STYLES), rng.random() < .2)
    if not any(x.kind == DICT for x in w.all_nodes()) or len(w.all_nodes()) > 60:
        rec.event("rules without dictation")
        return
    if i < 3:
        rec.sample(w.show())
    r = Run(rec, rng, w, words)
    r.round("alone")
    if w.grammar is not None and len(rules) > 1 and all(c == 1 for c in w.counts.values()) \
            and set(w.counts) == {n for n, _ in rules[:-1]}:
        with JointTreeContext(w.rule.expansion):
            r.round("in a joint tree", True)
        r.round("after a joint tree")
    lits = [x for x in w.all_nodes() if x.kind == LIT]
    if lits and rng.random() < .5:
        for x in rng.sample(lits, min(2, len(lits))):
            x.text = rng.choice(["golf", "hotel india", rng.choice(words)])
            x.obj.text = x.text
        r.words = words + ["golf", "hotel"]
        r.invalidate()
        r.round("after changed literals")
    if rng.random() < .2:
        w.cs = not w.cs
        for rule in w.by_name.values():
            rule.case_sensitive = w.cs
        for x in w.all_nodes():
            if x.kind == LIT:
                x.cs = w.cs
        r.invalidate()
        r.round("after changed case sensitivity")
    # Dictation itself.
    ds = [x for x in w.all_nodes() if x.kind == DICT]
    for x in ds[:3]:
        rec.eval()
        t = "<DICTATION>" + ("{ %s }" % x.tag if x.tag else "")
        got = x.obj.compile()
        rec.require(got.replace(" ", "") == t.replace(" ", ""),
                    "dictation compiles to %r" % got, tag=x.tag)
        rec.require(x.obj.compile(ignore_tags=True) == "<DICTATION>",
                    "dictation compiles to %r without tags" % x.obj.compile(True))
        c = rng.choice([copy.copy, copy.deepcopy, lambda e: e.copy()])(x.obj)
        rec.require(type(c) is Dictation and c is not x.obj and c.tag == x.obj.tag and
                    c.parent is None and c == x.obj, "a copy of dictation differs",
                    copy=str(c))
        s = " ".join(rng.choice(DICT_WORDS + words) for _ in range(rng.randint(1, 4)))
        d = Dictation()
        rec.require(d.matches(s) == "" and d.current_match == s,
                    "dictation alone did not match", utterance=s, match=d.current_match)
