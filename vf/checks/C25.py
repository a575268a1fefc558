"""Sequence rules: splitting at dictation and matching step by step."""
import copy
import pickle
from jsgf import Rule, GrammarError, parse_grammar_string
from jsgf.ext import (SequenceRule, PublicSequenceRule, PrivateSequenceRule, HiddenSequenceRule)
from jsgf.ext.expansions import expand_dictation_expansion, calculate_expansion_sequence
from ..gen import vocab, tree, Cfg, respell
from ..model import Node, build, from_jsgf, LIT, SEQ, ALT, REP, STAR, DICT, REQ, OPT, REF
from ..lang import Lang, DICT_WORDS
from ..norm import items
from .C24 import mark, sentences, has_dict, cost, flat, twins

TECHNIQUE = "runtime monitor of splitting and of step histories against a model of the protocol"
LEVEL = "exploration"
QUICK, THOROUGH = 2500, 60000
RULE = ("expanded expansions with dictation split into sequences, then histories of 14 "
        "operations on a sequence rule (attempts with sentences of this or another step, "
        "advancing, refusing, restarting, compiling), and once all steps in order; "
        "non-trivial = distinct expansions with at least two steps")
ASSUMPTIONS = ["references hold rule objects; dictation of a rule referenced twice is not "
               "followed into the original expansion",
               "no repetition but one of the whole rule contains dictation",
               "tags are not kept in the steps, only on the original expansion",
               "dictated words are not words of the rule's literals",
               "steps matched by no words at all have no match"]


def norm(s):
    return " ".join(s.split())


def same_text(a, b):
    return a is not None and norm(a).upper() == norm(b).upper()


def within_limits(n):
    return not any(x.kind in (REP, STAR) and has_dict(x) for x in n.walk())


def split(rec, node, env, seq):
    """Steps are dictation or free of it, and together say the same."""
    raw = [from_jsgf(x) for x in seq]
    show = [x.show() for x in raw]
    ns = [flat(x, env) for x in raw]
    node = flat(node, env)
    L = Lang({})
    for x in ns:
        kinds = {y.kind == DICT for y in x.walk() if not y.kids}
        rec.require(len(kinds) <= 1, "a step mixes dictation with other parts",
                    expansion=node.show(), steps=show, step=x.show())
        ds = sum(1 for y in x.walk() if y.kind == DICT)
        rec.require(ds <= 1, "a step has more than one dictation", expansion=node.show(),
                    steps=show)
    for x in raw:
        rec.require(x.obj.parent is None, "a step has a parent", steps=show)
    for a, b in zip(ns, ns[1:]):
        rec.require(has_dict(a) or has_dict(b), "neighbouring steps without dictation",
                    expansion=node.show(), steps=show)
    both, m = mark(Node(SEQ, ns)), mark(node)
    for s in sentences(m, {}):
        rec.event("sentences of expansions")
        rec.require(L.member(both, s), "a sentence was lost", sentence=" ".join(s),
                    expansion=node.show(), steps=show)
    for s in sentences(both, {}):
        rec.event("sentences of sequences")
        rec.require(L.member(m, s), "a sentence was gained", sentence=" ".join(s),
                    expansion=node.show(), steps=show)
    seen = set()
    for x in raw:
        for y in x.walk():
            rec.require(id(y.obj) not in seen, "steps share a part", steps=show)
            seen.add(id(y.obj))


def shared(node, env):
    """Whether a rule with dictation is referenced more than once."""
    n = [k for k in env if has_dict(flat(env[k], env))]

    def names(x):
        r = []
        for y in x.walk():
            if y.kind == REF and y.text in n:
                r += [y.text] + names(env[y.text])
        return r
    a = names(node)
    return len(set(a)) < len(a)


class Steps(object):
    def __init__(self, rec, rng, e, env, rules):
        self.rec, self.rng = rec, rng
        self.env, self.rules = env, rules
        self.before = {k: r.expansion for k, r in rules.items()}
        self.orig = e
        self.node = from_jsgf(e)
        self.tags = {x.tag for x in self.node.walk() if x.tag}
        cls = rng.choice([SequenceRule, SequenceRule, PublicSequenceRule,
                          PrivateSequenceRule, HiddenSequenceRule])
        self.visible = cls is PublicSequenceRule
        name = rng.choice(["seq", "seq", "seq_1", "s2", "S_9"])
        self.cs = rng.random() < .25
        if cls is SequenceRule:
            self.visible = rng.random() < .5
            self.rule = cls(name, self.visible, e, *([True] if self.cs else []))
        else:
            self.rule = cls(name, e, *([True] if self.cs else []))
        if self.cs:
            self.node = from_jsgf(e)
            self.env = {k: from_jsgf(r.expansion) for k, r in rules.items()}
        self.i, self.refuse = 0, False
        self.log = []

    def fail(self, what, **kw):
        self.rec.fail(what, expansion=self.node.show(),
                      steps=[x.show() for x in self.ns], history=self.log[-14:], **kw)

    def words(self, k):
        """A sentence of step k."""
        rng, n = self.rng, self.ns[k]
        if has_dict(n):
            return [rng.choice([w for w in DICT_WORDS if w not in self.vocab]) for _ in range(rng.choice([1, 1, 2, 3]))]
        return self.L.sample(n, rng, .4)

    def accepted(self, k, words):
        n = self.ns[k]
        if has_dict(n):
            return len(words) > 0
        j = self.L.greedy(n, words)
        return j == len(words)

    def observe(self):
        r, seq = self.rule, self.rule.expansion_sequence
        self.rec.eval()
        if len(seq) != len(self.ns) or any(a is not n.obj
                                           for a, n in zip(seq, self.raw)):
            self.fail("the steps changed")
        for k, q in self.rules.items():
            if q.expansion is not self.before[k] or \
                    from_jsgf(q.expansion).key() != self.env[k].key():
                self.fail("the referenced rule %s was changed" % k,
                          now=from_jsgf(q.expansion).show(), before=self.env[k].show())
        if r.case_sensitive is not self.cs or any(
                x.kind == LIT and x.obj.case_sensitive is not self.cs
                for n in [self.node] + self.raw for x in flat(n, self.env).walk()):
            self.fail("a part of the rule has another case sensitivity", expected=self.cs)
        if r.expansion is not self.raw[self.i].obj:
            self.fail("the rule is at another step", expected=self.i,
                      expansion_now=str(r.expansion))
        if r.original_expansion is not self.orig:
            self.fail("the original expansion was replaced")
        if from_jsgf(self.orig).key() != self.node.key():
            self.fail("the original expansion was changed", now=from_jsgf(self.orig).show())
        if bool(r.refuse_matches) != self.refuse:
            self.fail("refuse_matches is %r" % r.refuse_matches, expected=self.refuse)
        if bool(r.has_next_expansion) != (self.i + 1 < len(self.ns)):
            self.fail("has_next_expansion is %r" % r.has_next_expansion, step=self.i)
        d = has_dict(self.ns[self.i])
        if bool(r.current_is_dictation_only) != d:
            self.fail("current_is_dictation_only is %r" % r.current_is_dictation_only,
                      step=self.i)
        if bool(r.can_repeat) != self.rep:
            self.fail("can_repeat is %r" % r.can_repeat)
        if set(r.tags) != self.tags or not isinstance(r.tags, set):
            self.fail("tags are %r" % (r.tags,))
        if r.visible is not self.visible:
            self.fail("visibility is %r" % r.visible)
        got = [x.current_match for x in seq]
        for k, (g, want) in enumerate(zip(got, self.m)):
            if not want:        # not matched, or matched by nothing
                if g:
                    self.fail("step %d has the match %r" % (k, g), expected=None)
            elif not same_text(g, want):
                self.fail("step %d has the match %r" % (k, g), expected=want)
        em = r.entire_match
        if all(self.m):
            self.rec.event("entire matches observed")
            if not same_text(em, " ".join(self.m)):
                self.fail("entire_match is %r" % em, expected=" ".join(self.m))
        elif any(g is None for g in got):
            if em is not None:
                self.fail("entire_match is %r" % em, matches=got)
        self.text()

    def text(self):
        r = self.rule
        ignore = self.rng.random() < .5
        t = r.compile(ignore) if ignore or self.rng.random() < .5 else r.compile()
        if self.refuse or has_dict(self.ns[self.i]):
            self.rec.event("steps without text")
            if t != "":
                self.fail("a step that cannot be spoken compiles to %r" % t)
            return
        self.rec.event("steps with text")
        n = self.ns[self.i]
        g = parse_grammar_string("#JSGF V1.0; grammar g; %s" % t)
        p = g.get_rule(r.name) if g.rule_names == [r.name] else None
        if p is None or p.visible != self.visible:
            self.fail("a step compiles to %r" % t)
        n = self.raw[self.i]
        if items(from_jsgf(p.expansion)) != items(n, tags=not ignore):
            self.fail("a step compiles to %r" % t, step=n.show())

    def grafted(self):
        """The original expansion after all steps were matched."""
        self.rec.event("original expansions with all matches")
        full = " ".join(x for x in self.m if x)
        n = self.node
        if not shared(n, self.env) and not same_text(n.obj.current_match, full):
            self.fail("the original expansion has the match %r" % n.obj.current_match,
                      expected=full)
        if shared(n, self.env):
            self.rec.event("original expansions that share dictation")
            return
        ds = [x for x in flat(n, self.env).walk() if x.kind == DICT]
        if len(ds) > sum(x.kind == DICT for x in n.walk()):
            self.rec.event("original expansions with matches in referenced rules")
        want = [m for m, s in zip(self.m, self.ns) if has_dict(s)]
        got = [x.obj.current_match for x in ds]
        if len(got) != len(want) or any(not same_text(a, b) for a, b in zip(got, want)):
            self.fail("dictation of the original has the matches %r" % got, expected=want)
        leaves = [x for x in n.walk() if not x.kids]
        f = flat(n, self.env)
        if not any(x.kind in (REP, STAR) for x in f.walk()) or (
                self.rep and sum(1 for x in f.walk() if x.kind in (REP, STAR)) == 1):
            parts = [x.obj.current_match for x in leaves if x.obj.current_match]
            if not same_text(" ".join(parts), full):
                self.fail("parts of the original have the matches %r" % parts,
                          expected=full)
        for x in n.walk():
            if x.kind == SEQ or x.kind == REQ:
                m = x.obj.current_match
                sub = " ".join(k.obj.current_match or "" for k in x.kids)
                if m is not None and not same_text(m, sub):
                    self.fail("a sequence of the original has the match %r" % m,
                              parts=sub)

    def attempt(self, words, sure=False):
        r = self.rule
        s = " ".join(words)
        if not has_dict(self.ns[self.i]):
            s = respell(self.rng, words, self.cs and (sure or self.rng.random() < .7))
            words = s.split()
        self.log.append("matches(%r) at step %d" % (s, self.i))
        want = (not self.refuse) and self.accepted(self.i, words)
        got = r.matches(s)
        self.rec.event("attempts that %s" % ("match" if want else "are refused"
                                             if self.refuse else "fail"))
        if bool(got) != want:
            self.fail("an attempt returned %r" % got, utterance=s, refused=self.refuse)
        if not self.refuse:
            self.m[self.i] = " ".join(words) if want else None
        self.refuse = True
        return want

    def next(self):
        self.log.append("set_next()")
        self.rule.set_next()
        if self.i + 1 < len(self.ns):
            self.i += 1
            self.refuse = False

    def restart(self):
        self.log.append("restart_sequence()")
        self.rule.restart_sequence()
        self.i, self.refuse = 0, False
        self.m = [None] * len(self.ns)
        self.rec.event("restarts")
        for x in self.rule.expansion_sequence:
            if x.current_match or x.matching_slice is not None:
                self.fail("a step has a match after restarting", step=str(x),
                          match=x.current_match, slice=str(x.matching_slice))

    def read(self):
        self.node = from_jsgf(self.orig)
        self.env = {k: from_jsgf(r.expansion) for k, r in self.rules.items()}
        self.raw = [from_jsgf(x) for x in self.rule.expansion_sequence]
        self.ns = [flat(x, self.env) for x in self.raw]

    def another(self):
        """Go on with a copy of the rule, which is at the same step."""
        if self.rng.random() < .5:
            # Deep copies have no match data and share referenced rules.
            self.restart()
            self.log.append("deep copy")
            self.rule = copy.deepcopy(self.rule)
        else:
            self.log.append("pickle")
            self.rule, self.rules = pickle.loads(pickle.dumps((self.rule, self.rules)))
            self.before = {k: r.expansion for k, r in self.rules.items()}
        if self.rule.original_expansion is self.orig:
            self.fail("a copy has the expansion of the original")
        self.orig = self.rule.original_expansion
        self.read()
        self.rec.event("rules copied")

    def step(self):
        rng = self.rng
        op = rng.choice(["match"] * 6 + ["other", "random", "next", "next", "next",
                                         "restart", "refuse", "accept", "case", "copy"])
        if op in ("match", "other", "random"):
            k = self.i if op == "match" else rng.randrange(len(self.ns))
            w = self.words(k) if op != "random" else None
            if w is None:
                w = [rng.choice(self.vocab + ["zulu"]) for _ in range(rng.randrange(3))]
            self.attempt([y for x in w for y in x.split()])
        elif op == "next":
            self.next()
        elif op == "restart":
            self.restart()
        elif op == "copy":
            self.another()
        elif op == "case":
            self.cs = not self.cs
            self.log.append("case_sensitive = %s" % self.cs)
            self.rule.case_sensitive = self.cs
            self.read()
            self.rec.event("case sensitivity changed")
        else:
            v = op == "refuse"
            self.log.append("refuse_matches = %s" % v)
            self.rule.refuse_matches = self.refuse = v
        self.observe()

    def unaffected(self):
        """The original expansion and referenced rules match as if they were new."""
        rules = {}
        for k in sorted(self.env):
            rules[k] = Rule(k, True, build(self.env[k], rules, keep=False))
        for k in sorted(self.env, reverse=True):
            rules[k].case_sensitive = self.rules[k].case_sensitive
        for n in [self.node] + list(self.env.values()):
            for x in n.walk():
                if x.kind == DICT:
                    x.obj.invalidate_matcher()
        full = [w for m in self.m if m for w in m.split()]
        for _ in range(2):
            s = list(full)
            if s and self.rng.random() < .7:
                s[self.rng.randrange(len(s))] = self.rng.choice(self.vocab + DICT_WORDS)
            s = " ".join(s)
            new = build(self.node, rules, keep=False)
            pairs = [("the original expansion", self.orig, new)]
            k = self.rng.choice(sorted(rules)) if rules else None
            if k:
                pairs.append(("the rule %s" % k, self.rules[k].expansion,
                              rules[k].expansion))
            self.rng.shuffle(pairs)
            for what, a, b in pairs:
                x, y = a.matches(s).upper(), b.matches(s).upper()
                self.rec.event("originals matched on their own")
                m = a.current_match
                if x != y or (m is None) != (b.current_match is None) or (
                        m is not None and not same_text(m, b.current_match)):
                    self.fail("%s matched on its own leaves %r" % (what, x), utterance=s,
                              of_a_new_one=y, match=a.current_match,
                              match_of_new=b.current_match)

    def all_steps(self):
        self.restart()
        for k in range(len(self.ns)):
            w = None
            for _ in range(5):
                w = self.words(k)
                if w is not None and self.accepted(k, w):
                    break
            if w is None or not self.accepted(k, w):
                self.rec.event("steps without a sentence found")
                return
            self.attempt(w, True)
            self.observe()
            if k + 1 < len(self.ns):
                self.next()
        if all(self.m):
            self.grafted()

    def run(self, words):
        self.vocab = words
        self.L = Lang({})
        seq = self.rule.expansion_sequence
        self.rep = False
        base = self.node
        # A repetition of all leaves is skipped.
        x = base
        chain = []
        while True:
            if x.kind == REP:
                self.rep = True
                base = base.clone()
                y, parent = base, None
                for _ in chain:
                    parent, y = y, y.kids[0]
                if parent is None:
                    base = y.kids[0]
                else:
                    parent.kids[0] = y.kids[0]
                break
            if len(x.kids) != 1 or x.kind in (OPT, STAR):
                break
            chain.append(x)
            x = x.kids[0]
        self.raw = [from_jsgf(s) for s in seq]
        self.ns = [flat(x, self.env) for x in self.raw]
        self.m = [None] * len(self.ns)
        self.base = base
        split(self.rec, base, self.env, seq)
        self.observe()
        if len(self.ns) > 1:
            self.rec.nontrivial(self.node.key())
        self.rec.event("sequence rules with %s steps" % (
            len(self.ns) if len(self.ns) < 4 else "4 or more"))
        for _ in range(14 if self.rng.random() < .5 else 3):
            self.step()
        for _ in range(2):
            self.all_steps()
        self.unaffected()
        if self.rng.random() < .3:
            self.all_steps()


def unexpanded(rec, rng, n, env, rules):
    """Sequence rules take expansions with nothing to expand, and reject those with
    choices of dictation."""
    f = flat(n, env)
    needs = any((x.kind == OPT or x.kind == ALT and len(x.kids) > 1) and has_dict(x)
                for x in f.walk())
    plain = not any(x.kind in (ALT, OPT, STAR) for x in f.walk())
    e = build(n, rules)
    key = from_jsgf(e).key()
    cls = rng.choice([PublicSequenceRule, HiddenSequenceRule])
    try:
        cls("u", e)
    except GrammarError:
        rec.require(not plain, "an expanded expansion was rejected", expansion=n.show())
        rec.event("expansions rejected")
    else:
        rec.require(not needs, "an expansion that is not expanded was accepted",
                    expansion=n.show())
        rec.event("expansions accepted")
    rec.require(from_jsgf(e).key() == key, "trying to make a rule changed the expansion",
                expansion=n.show(), now=from_jsgf(e).show())
    for k in rules:
        rec.require(from_jsgf(rules[k].expansion).key() == env[k].key(),
                    "trying to make a rule changed a referenced rule", expansion=n.show(),
                    rule=k, now=from_jsgf(rules[k].expansion).show())


def case(rec, rng, i):
    words = vocab(rng, rng.choice([2, 3]))
    env, rules = {}, {}
    for j in range(rng.choice([0, 0, 0, 0, 1, 2])):
        n = tree(rng, words, Cfg(depth=rng.choice([1, 2]), special=.03, maxkids=3,
                                 dict=rng.choice([0, .5]), refs=tuple(env), p_weight=0,
                                 p_tag=rng.choice([0, .3]), zero_weight=0,
                                 reps=rng.random() < .3))
        if not within_limits(flat(n, env)):
            continue
        q = Rule("s%d" % j, rng.random() < .5, build(n, rules))
        env["s%d" % j], rules["s%d" % j] = from_jsgf(q.expansion), q
    for _ in range(40):
        n = tree(rng, words, Cfg(depth=rng.choice([1, 2, 2, 3]), dict=.45, special=.02,
                                 p_weight=rng.choice([0, 0, .5]), zero_weight=0,
                                 maxkids=4, p_tag=rng.choice([0, .3]), refs=tuple(env),
                                 reps=rng.random() < .5))
        f = flat(n, env)
        if within_limits(f) and not twins(n, env) and has_dict(f) and f.size() < 30 and cost(f) <= 60:
            break
    else:
        return
    for x in n.walk():
        if x.kind in (REP, STAR):
            x.tag = ""
    if rng.random() < .15:
        n = Node(REP, [n])
    e0 = build(n, rules)
    inner = n.kids[0] if n.kind == REP else n
    parts = expand_dictation_expansion(e0 if n.kind != REP else build(inner, rules))
    rng.shuffle(parts)
    unexpanded(rec, rng, n, env, rules)
    for e in parts[:4]:
        for k in rules:
            rules[k].case_sensitive = False
        if n.kind == REP:
            m = from_jsgf(e)
            e = build(Node(REP, [m]), rules)
        m = from_jsgf(e)
        if not has_dict(flat(m, env)):
            rec.event("parts without dictation")
        key = m.key()
        rec.eval()
        if n.kind != REP:
            seq = calculate_expansion_sequence(e)
            rec.require(from_jsgf(e).key() == key, "splitting changed the expansion",
                        expansion=m.show())
            for k in rules:
                rec.require(from_jsgf(rules[k].expansion).key() == env[k].key(),
                            "splitting changed a referenced rule", expansion=m.show(),
                            rule=k, now=from_jsgf(rules[k].expansion).show())
            split(rec, m, env, seq)
            rec.event("expansions split")
        if i < 3:
            rec.sample(m.show())
        Steps(rec, rng, e, env, rules).run(words)
