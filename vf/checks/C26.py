"""Dictation grammars: generated rules, matching step by step, compiling, removal."""
import copy
import pickle
from jsgf import Rule, GrammarError, Import, parse_grammar_string
from jsgf.ext import SequenceRule, DictationGrammar
from ..gen import vocab, tree, Cfg, respell
from ..model import (Node, build, from_jsgf, LIT, SEQ, REQ, NULL, REP, STAR, DICT)
from ..lang import Lang, DICT_WORDS
from ..norm import items
from .. import names
from .C24 import mark, sentences, has_dict, cost, flat
from .C25 import same_text, norm, shared

TECHNIQUE = "runtime monitor of grammar histories against a model of rules and steps"
LEVEL = "exploration"
QUICK, THOROUGH = 800, 20000
RULE = ("histories of 25 operations on a dictation grammar (adding and removing rules with "
        "and without dictation and ready sequence rules, matching utterances of current, "
        "other and later steps with and without advancing, resetting, compiling, enabling, "
        "disabling, changing case sensitivity, names, header, imports and rules, moving "
        "sequence rules by hand), all parts "
        "observed after each; non-trivial = distinct sets of rules and utterances matched")
ASSUMPTIONS = ["references hold rule objects",
               "no repetition contains dictation; dictated words are not literal words",
               "only rules without dictation are changed while in the grammar"]


def within_limits(n):
    return not any(x.kind in (REP, STAR) and has_dict(x) for x in n.walk())


class Part(object):
    def __init__(self, rule, env):
        self.rule, self.active, self.mixed = rule, True, False
        self.seq = isinstance(rule, SequenceRule)
        self.visible = rule.visible
        self.read(env)
        self.reset()

    def read(self, env):
        rule = self.rule
        if self.seq:
            self.raw = [from_jsgf(x) for x in rule.expansion_sequence]
        else:
            self.raw = [from_jsgf(rule.expansion)]
        self.steps = [flat(x, env) for x in self.raw]

    def reset(self):
        self.i, self.refuse, self.mixed = 0, False, False
        self.m = [None] * len(self.steps)

    @property
    def now(self):
        return self.steps[self.i]

    @property
    def now_raw(self):
        return self.raw[self.i]

    @property
    def dictation(self):
        return has_dict(self.now)


class Orig(object):
    def __init__(self, rule, node, env):
        self.rule, self.node = rule, node
        self.flat = flat(node, env)
        self.parts = []


class G(object):
    def __init__(self, rec, rng):
        self.rec, self.rng = rec, rng
        self.words = vocab(rng, rng.choice([2, 3]))
        self.dwords = [w for w in DICT_WORDS if w not in self.words]
        self.cs = rng.random() < .3
        self.g = DictationGrammar(case_sensitive=True) if self.cs else DictationGrammar()
        self.imports = []
        self.orig = []
        self.env, self.objs = {}, {}
        self.n = 0
        self.log = []

    def fail(self, what, **kw):
        self.rec.fail(what, rules=["%s%s=%s" % ("public " if o.rule.visible else "",
                                                o.rule.name, o.node.show())
                                   for o in self.orig], history=self.log[-12:], **kw)

    def parts(self):
        return [p for o in self.orig for p in o.parts]

    # -- operations --------------------------------------------------------------
    def node(self, dic):
        rng = self.rng
        for _ in range(30):
            n = tree(rng, self.words, Cfg(
                depth=rng.choice([1, 1, 2, 3]), special=.02, dict=.45 if dic else 0,
                p_weight=0, maxkids=3,
                reps=rng.random() < .4,
                refs=tuple(self.env)))
            if self.fits(n, dic):
                return n
        return None

    def fits(self, n, dic):
        f = flat(n, self.env)
        return within_limits(f) and has_dict(f) == dic and f.size() < 30 and cost(f) < 40

    def add(self):
        rng = self.rng
        dic = rng.random() < .65
        n = self.node(dic)
        if n is None:
            return
        name = "r%d%s" % (self.n, rng.choice(["", "", "_0", "_1", "_2", "_0_1", "_x"]))
        self.n += 1
        vis = rng.random() < .8
        e = build(n, self.objs)
        again = dic and rng.random() < .12 and all(
            x.kind in (LIT, SEQ, REQ, DICT, NULL) for x in n.walk())
        if again:
            # All of it can be repeated, by starting again.
            n = Node(REP, [n.clone()])
            e = build(n, self.objs)
            self.rec.event("rules that repeat")
            rule = Rule(name, vis, e, rng.random() < .3)
        elif dic and rng.random() < .2:
            # A sequence rule made before.
            from jsgf.ext.expansions import expand_dictation_expansion
            e = rng.choice(expand_dictation_expansion(e))
            n = from_jsgf(e)
            rule = SequenceRule(name, vis, e, rng.random() < .3)
        else:
            rule = Rule(name, vis, e, rng.random() < .3)
        self.log.append("add %s %s%s" % (type(rule).__name__, "public " if vis else "",
                                         n.show()))
        if len(self.log) == 1 and rng.random() < .5:
            self.g = DictationGrammar([rule], "default", self.cs)
        elif rng.random() < .7:
            self.g.add_rule(rule)
        else:
            self.g.add_rules(rule)
        if self.cs:
            self.reread()
            n = from_jsgf(rule.original_expansion if isinstance(rule, SequenceRule)
                          else rule.expansion)
        o = Orig(rule, n, self.env)
        gen = list(self.g.get_generated_rules(rule))
        if not gen:
            self.fail("no rules were generated", rule=name)
        o.parts = [Part(r, self.env) for r in sorted(gen, key=lambda r: (len(r.name), r.name))]
        self.orig.append(o)
        self.rec.event("rules generated for a rule: %s" % (
            len(gen) if len(gen) < 4 else "4 or more"))
        if any(r is rule for r in gen):
            if len(gen) > 1 or gen[0] is not rule:
                self.fail("a rule and others were generated from it", rule=name)
        elif not dic or isinstance(rule, SequenceRule):
            self.fail("a rule was replaced though it can be used as it is", rule=name)
        if from_jsgf(e).show().lower() != n.show().lower():
            self.fail("adding a rule changed its expansion", rule=name)
        names = sorted(p.rule.name for p in o.parts)
        want = [name] if len(gen) == 1 else sorted("%s_%d" % (name, i)
                                                   for i in range(len(gen)))
        if names != want:
            self.fail("generated rules are named %r" % names, expected=want)
        for p in o.parts:
            if p.visible != vis:
                self.fail("a generated rule has another visibility", rule=p.rule.name)
            if self.g.get_original_rule(p.rule) is not rule:
                self.fail("a generated rule has another original", rule=p.rule.name)
        if dic and not again:
            # The parts say what the rule says.
            L = Lang({})
            m = mark(o.flat)
            ms = [mark(flat(from_jsgf(p.rule.original_expansion if p.seq
                                      else p.rule.expansion), self.env))
                  for p in o.parts]
            if not has_dict(n):
                self.rec.event("rules with dictation in referenced rules only")
            for s in sentences(m, {}):
                if s and not any(L.member(x, s) for x in ms):
                    self.fail("no generated rule has the sentence", rule=name,
                              sentence=" ".join(s))
            for x in ms:
                for s in sentences(x, {}):
                    if not L.member(m, s):
                        self.fail("a generated rule has another sentence", rule=name,
                                  sentence=" ".join(s))
        if not dic or type(rule) is Rule:
            self.env[name], self.objs[name] = from_jsgf(rule.expansion), rule

    def add_taken(self):
        if not self.orig:
            return
        if self.rng.random() < .1:
            x = self.rng.choice(["public <z> = z;", None, self.g])
            self.log.append("add %r" % (x,))
            try:
                self.g.add_rule(x)
            except TypeError:
                return
            self.fail("something that is no rule was added")
        o = self.rng.choice(self.orig)
        if self.rng.random() < .5 and type(o.rule) is Rule:
            self.log.append("add a rule equal to %s" % o.rule.name)
            e = build(o.node, self.objs, keep=False)
            try:
                self.g.add_rule(Rule(o.rule.name, o.rule.visible, e, self.cs))
            except GrammarError:
                # Rules with dictation may be taken for different ones.
                if not has_dict(o.flat):
                    self.fail("adding an equal rule is an error")
        else:
            name = self.rng.choice([o.rule.name] + [p.rule.name for p in o.parts])
            self.log.append("add another rule named %s" % name)
            try:
                self.g.add_rule(Rule(name, True, "zulu zulu"))
            except GrammarError:
                self.rec.event("rejected rules")
                return
            self.fail("a second rule named %s was accepted" % name)

    def used(self, o, plain=False):
        return any(x.kind == "ref" and x.text == o.rule.name for q in self.orig
                   for x in q.node.walk() if not (plain and has_dict(q.flat)))

    def remove(self):
        if not self.orig:
            return
        o = self.rng.choice(self.orig)
        used = self.used(o)
        if used and not self.used(o, plain=True):
            return      # rules at dictation are not known to the inner grammar
        self.log.append("remove %s" % o.rule.name)
        arg = o.rule if self.rng.random() < .5 else o.rule.name
        try:
            self.g.remove_rule(arg)
        except GrammarError:
            if not used:
                raise
            self.rec.event("rules in use kept")
            return
        if used:
            self.fail("a rule in use was removed", rule=o.rule.name)
        self.rec.event("rules removed")
        self.orig.remove(o)
        self.env.pop(o.rule.name, None)
        if list(self.g.get_generated_rules(o.rule)):
            self.fail("a removed rule has generated rules", rule=o.rule.name)

    def pickled(self):
        """Go on with an unpickled or deep-copied grammar."""
        state = (self.g, [(o.rule, [p.rule for p in o.parts]) for o in self.orig], self.objs)
        old = self.g
        if self.rng.random() < .4:
            # Deep copies have no match data and share rules referenced by object.
            if any(x.kind == "ref" for o in self.orig for x in o.node.walk()):
                return
            self.reset()
            self.log.append("deep copy")
            state = copy.deepcopy((self.g, state[1], self.objs))
        else:
            self.log.append("pickle")
            state = pickle.loads(pickle.dumps(state))
        self.g, rules, self.objs = state
        if self.g is old or self.g.compile() != old.compile():
            self.fail("a copied grammar compiles to another text")
        for o, (r, ps) in zip(self.orig, rules):
            o.rule = r
            for p, x in zip(o.parts, ps):
                p.rule = x
        self.reread()
        self.rec.event("grammars copied")

    def unknown(self):
        """Rules that were not added cannot be removed, enabled or disabled."""
        name = self.rng.choice(["nosuch", "r0_", "r99", "R0"])
        if name in self.g.rule_names:
            return
        arg = name if self.rng.random() < .5 else Rule(name, True, "alpha")
        op = self.rng.choice(["remove_rule", "remove_rule", "enable_rule", "disable_rule"])
        self.log.append("%s %s" % (op, arg))
        try:
            getattr(self.g, op)(arg)
        except GrammarError:
            self.rec.event("unknown rules refused")
        else:
            self.fail("%s accepted a rule that was not added" % op)

    def sentence(self, n):
        if has_dict(n):
            return [self.rng.choice(self.dwords)
                    for _ in range(self.rng.choice([1, 1, 2, 3]))]
        return Lang({}).sample(n, self.rng, .4)

    def accepts(self, p, words):
        if p.refuse or not p.active:
            return False
        if p.dictation:
            return len(words) > 0
        return Lang({}).greedy(p.now, words) == len(words)

    def match(self):
        rng = self.rng
        ps = self.parts()
        w = None
        if ps:
            p = rng.choice(ps)
            r = rng.random()
            n = p.now if r < .75 else rng.choice(p.steps)
            w = self.sentence(n)
        if w is None or rng.random() < .05:
            w = [rng.choice(self.words + ["zulu"]) for _ in range(rng.randrange(3))]
        w = [y for x in w for y in x.split()]
        s = respell(rng, w, self.cs and rng.random() < .7) \
            if not any(x in DICT_WORDS for x in w) else " ".join(w)
        w = s.split()
        adv = rng.random() < .8
        self.log.append("match %r%s" % (s, "" if adv else " without advancing"))
        want = [p for p in ps if p.visible and self.accepts(p, w)]
        got = self.g.find_matching_rules(s, adv) if not adv or rng.random() < .5 \
            else self.g.find_matching_rules(s)
        self.rec.event("utterances that match %s" % (len(want) if len(want) < 3
                                                     else "3 or more"))
        if len(got) != len(want) or {id(r) for r in got} != {id(p.rule) for p in want}:
            self.fail("rules %r matched" % sorted(r.name for r in got), utterance=s,
                      expected=sorted(p.rule.name for p in want))
        if want:
            self.rec.nontrivial(s.lower(), tuple(sorted(p.now.show() for p in want)))
        text = " ".join(w)
        for p in ps:
            if not p.visible or not p.seq or p.refuse:
                continue
            p.refuse = True
            p.m[p.i] = text if p in want else None
            if p in want and adv and p.i + 1 < len(p.steps):
                p.i += 1
                p.refuse = False
        for o in self.orig:
            mine = [p for p in o.parts if p in want]
            if mine and len(o.parts) > 1 and not any(p.seq for p in mine) and \
                    not self.used(o):
                # The original is matched as it would be on its own.
                x = build(o.node, self.objs, keep=False)
                if o.rule.active and x.matches(s) == "":
                    self.rec.event("original rules with matches of generated rules")
                    if not same_text(o.rule.expansion.current_match or "", text):
                        self.fail("the original rule %s has the match %r" % (
                            o.rule.name, o.rule.expansion.current_match), utterance=s)
            if len(mine) != 1 or not text or len(o.parts) != 1 or self.used(o):
                continue
            p = mine[0]
            if p.mixed or not o.rule.active:
                continue
            if shared(o.node, self.env):
                continue        # dictation with more than one match
            ds = [x for x in flat(o.node, self.env).walk() if x.kind == DICT]
            dm = [m for m, n in zip(p.m, p.steps) if has_dict(n)]
            if len(ds) != len(dm):
                continue        # equal alternatives with dictation were joined
            if not p.seq:
                if same_text(o.rule.expansion.current_match, text):
                    self.rec.event("original rules with matches")
                else:
                    self.fail("the original rule %s has the match %r" % (
                        o.rule.name, o.rule.expansion.current_match), utterance=s)
            elif all(p.m) and all(w in self.dwords for m, n in zip(p.m, p.steps)
                                  if has_dict(n) for w in m.split()):
                full = norm(" ".join(p.m))
                self.rec.event("original rules with matches of all steps")
                if not same_text(o.rule.expansion.current_match if type(o.rule) is Rule
                                 else o.rule.original_expansion.current_match, full):
                    self.fail("the original rule %s has the match %r" % (
                        o.rule.name, o.rule.expansion.current_match), expected=full)
                if len(ds) > sum(x.kind == DICT for x in o.node.walk()):
                    continue        # referenced rules have matches of their own
                got = [x.obj.current_match for x in ds]
                if any(not same_text(a, b) for a, b in zip(got, dm)):
                    self.fail("dictation of the original rule %s has the matches %r" % (
                        o.rule.name, got), expected=dm)

    def reset(self):
        self.log.append("reset")
        self.g.reset_sequence_rules()
        for p in self.parts():
            p.reset()
        self.rec.event("resets")

    def manual(self):
        """Sequence rules moved by hand."""
        ps = [p for p in self.parts() if p.seq]
        if not ps:
            return
        p = self.rng.choice(ps)
        k = self.rng.randrange(4)
        self.log.append("%s of %s" % (["set_next", "restart_sequence", "refuse",
                                       "matches"][k], p.rule.name))
        if k == 0:
            p.rule.set_next()
            if p.i + 1 < len(p.steps):
                p.i += 1
                p.refuse = False
        elif k == 1:
            p.rule.restart_sequence()
            p.reset()
        elif k == 2:
            p.refuse = not p.refuse
            p.rule.refuse_matches = p.refuse
        else:
            w = [y for x in self.sentence(p.now) or ["zulu"] for y in x.split()]
            want = self.accepts(p, w)
            if p.rule.matches(" ".join(w)) is not want:
                self.fail("rule %s matched: %s" % (p.rule.name, not want),
                          utterance=" ".join(w))
            if not p.refuse:
                p.m[p.i] = " ".join(w) if want else None
                p.refuse = True
        if not p.visible:
            self.rec.event("sequence rules moved by hand that are not visible")
        self.rec.event("sequence rules moved by hand")

    def reread(self):
        """The case sensitivity of literals was changed."""
        for n in self.env:
            self.env[n] = from_jsgf(self.objs[n].expansion)
        for o in self.orig:
            o.node = from_jsgf(o.rule.original_expansion
                               if isinstance(o.rule, SequenceRule) else o.rule.expansion)
            o.flat = flat(o.node, self.env)
            for p in o.parts:
                p.read(self.env)

    def case(self):
        self.cs = not self.cs
        self.log.append("case_sensitive = %s" % self.cs)
        self.g.case_sensitive = self.cs
        self.reread()
        for p in self.parts():
            p.mixed = any(p.m)
        self.rec.event("case sensitivity changed")

    def switch(self):
        if not self.orig:
            return
        on = self.rng.random() < .6
        o = self.rng.choice(self.orig)
        p = self.rng.choice(o.parts)
        r = self.rng.choice([o.rule, o.rule, p.rule])
        self.log.append("%s %s" % ("enable" if on else "disable", r.name))
        (self.g.enable_rule if on else self.g.disable_rule)(
            r if self.rng.random() < .5 else r.name)
        for q in self.orig:
            for x in q.parts:
                if r.name in (x.rule.name, q.rule.name):
                    x.active = on
            if r.name == q.rule.name:
                q.on = on
            self.rec.require(q.rule.active is getattr(q, "on", True), "enabling or "
                             "disabling a rule did so for another", history=self.log[-8:],
                             rule=q.rule.name, active=q.rule.active)
        self.rec.event("rules enabled" if on else "rules disabled")

    def change(self):
        """Rules without dictation are used as they are, also if changed later."""
        rng = self.rng
        os = [o for o in self.orig if not has_dict(o.flat) and not self.used(o) and
              type(o.rule) is Rule and len(o.parts) == 1]
        if not os or rng.random() < .3:
            k = rng.randrange(3)
            if k == 0:
                self.g.name = names.grammar_name(rng)
            elif k == 1:
                self.g.jsgf_version, self.g.charset_name, self.g.language_name = \
                    names.header(rng)
            elif self.imports and rng.random() < .4:
                self.g.remove_import(Import(self.imports.pop()))
            else:
                i = names.import_name(rng)
                if i not in self.imports:
                    self.imports.append(i)
                self.g.add_import(Import(i))
            self.log.append("change the grammar")
            self.rec.event("grammars changed")
            return
        o = rng.choice(os)
        lits = [x for x in from_jsgf(o.rule.expansion).walk() if x.kind == LIT]
        if lits and rng.random() < .6:
            rng.choice(lits).obj.text = rng.choice(self.words)
        else:
            o.rule.visible = o.parts[0].visible = not o.rule.visible
        self.log.append("change %s" % o.rule.name)
        self.reread()
        self.rec.event("rules changed")

    # -- observations -------------------------------------------------------------
    def observe(self):
        g, ps = self.g, self.parts()
        self.rec.eval()
        got = g.match_rules
        want = [p.rule for p in ps if p.visible]
        if len(got) != len(want) or {id(r) for r in got} != {id(r) for r in want}:
            self.fail("rules to match are %r" % sorted(r.name for r in got),
                      expected=sorted(r.name for r in want))
        got = g.rules
        for r in [p.rule for p in ps] + [o.rule for o in self.orig]:
            if r not in got:
                self.fail("rule %s is not among the rules" % r.name)
        # They are listed in the order in which rules were added.
        for rs in ([p.rule for p in ps], [o.rule for o in self.orig]):
            at = [got.index(r) for r in rs]
            if at != sorted(at):
                self.fail("rules are in the order %r" % [r.name for r in got],
                          expected=[r.name for r in rs])
        for i, r in enumerate(got):
            if any(r is x for x in got[:i]):
                self.fail("rule %s is listed twice" % r.name)
            x = g.get_rule(r.name)
            if x is not next(y for y in got if y.name == r.name):
                self.fail("looking up %s finds %s" % (r.name, x))
        have = {p.rule.name for p in ps} | {o.rule.name for o in self.orig}
        if set(g.rule_names) != have:
            self.fail("names of rules are %r" % sorted(g.rule_names), expected=sorted(have))
        for o in self.orig:
            now = from_jsgf(o.rule.original_expansion if isinstance(o.rule, SequenceRule)
                            else o.rule.expansion)
            if now.show().lower() != o.node.show().lower():
                self.fail("the expansion of %s was changed" % o.rule.name,
                          now=now.show())
        for p in ps:
            r = p.rule
            if r.active is not p.active:
                self.fail("rule %s is enabled: %s" % (r.name, r.active))
            if r.case_sensitive is not self.cs or any(
                    x.kind == LIT and x.obj.case_sensitive is not self.cs
                    for y in p.raw for x in y.walk()):
                self.fail("rule %s or a part has another case sensitivity" % r.name)
            if p.seq and (r.expansion is not p.now_raw.obj or
                          bool(r.refuse_matches) != p.refuse):
                self.fail("rule %s is at another step" % r.name, expected=p.i,
                          refuses=r.refuse_matches)
            if p.seq:
                for k, (x, m) in enumerate(zip(r.expansion_sequence, p.m)):
                    c = x.current_match
                    if (not m and c) or (m and not same_text(c, m)):
                        self.fail("step %d of %s has the match %r" % (k, r.name, c),
                                  expected=m)
        if self.rng.random() < .25:
            self.text()

    def text(self):
        ps = self.parts()
        want = {p.rule.name: p for p in ps
                if p.active and not (p.seq and (p.refuse or p.dictation))}
        t = self.g.compile()
        if not want:
            u = self.g.compile_as_root_grammar()
            if t != "" or u != "":
                self.fail("a grammar without rules to be spoken compiles to %r" % t, root=u)
            self.rec.event("grammars without text")
            return
        self.rec.event("grammars with text")
        p = parse_grammar_string(t)
        if (p.name, p.jsgf_header, p.import_names) != (self.g.name, self.g.jsgf_header,
                                                       self.imports):
            self.fail("the text has another name, header or other imports", text=t,
                      name=self.g.name, header=self.g.jsgf_header, imports=self.imports)
        if self.cs:
            p.case_sensitive = True
        got = {r.name: r for r in p.rules}
        if set(got) != set(want) or len(p.rules) != len(got):
            self.fail("compiled rules are %r" % sorted(got), expected=sorted(want))
        for k, part in want.items():
            if got[k].visible != part.visible or \
                    items(from_jsgf(got[k].expansion), cs=self.cs) != \
                    items(part.now_raw, cs=self.cs):
                self.fail("rule %s compiles to another" % k, text=t)
        if not any(q.visible for q in want.values()):
            t = self.g.compile_as_root_grammar()
            if t and any(q.visible for q in parse_grammar_string(t).rules):
                self.fail("a root grammar without rules to be spoken is %r" % t)
            self.rec.event("root grammars without rules")
        else:
            t = self.g.compile_as_root_grammar()
            self.rec.event("root grammars")
            p = parse_grammar_string(t)
            if (p.name, p.jsgf_header, p.import_names) != (
                    self.g.name, self.g.jsgf_header, self.imports):
                self.fail("the text has another name, header or other imports", text=t)
            if [r.name for r in p.match_rules] != ["root"] or \
                    set(p.rule_names) != set(want) | {"root"}:
                self.fail("the root grammar has the rules %r" % p.rule_names, text=t)
            refs = {x.text for x in from_jsgf(p.get_rule("root").expansion).walk()
                    if x.kind == "ref"}
            vis = {k for k, q in want.items() if q.visible}
            if refs != vis:
                self.fail("the root rule refers to %r" % sorted(refs), expected=sorted(vis))

    def run(self):
        for _ in range(self.rng.choice([1, 2, 3])):
            self.add()
        self.observe()
        for _ in range(25):
            op = self.rng.choice(["match"] * 9 + ["add", "taken", "remove", "reset",
                                                  "reset", "case", "switch", "change",
                                                  "manual", "manual", "unknown", "pickled"])
            if op == "add" and len(self.orig) >= 5:
                op = "remove"
            {"match": self.match, "add": self.add, "taken": self.add_taken,
             "remove": self.remove, "reset": self.reset, "case": self.case,
             "switch": self.switch, "change": self.change, "manual": self.manual,
             "unknown": self.unknown, "pickled": self.pickled}[op]()
            self.observe()


def case(rec, rng, i):
    g = G(rec, rng)
    g.run()
    if i < 3:
        rec.sample("; ".join(g.log))
