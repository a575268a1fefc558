"""Edits to rules take effect at the next use."""
from jsgf import Grammar, Rule
from ..gen import utterances, respell, grammar_nodes, Cfg, has_only_branch
from ..model import build, Node, REF, LIT, ALT
from ..lang import Lang
from ..edit import Editor, weights_ok
from ..snap import rule_data, diff, closure

TECHNIQUE = "runtime monitor: edited rules against newly built twins and a language oracle"
LEVEL = "exploration"
QUICK, THOROUGH = 700, 12000
RULE = ("histories of 12 edits (child lists, texts, case, weights, tags, references, whole "
        "expansions, replaced and renamed rules) interleaved with matching, so that parsers "
        "are cached when the edit happens; after each edit the rule's results, match data "
        "and compiled text are compared with a newly built rule of the edited shape; "
        "non-trivial = distinct edited rules that were compared")
ASSUMPTIONS = ["weighted alternatives of a set are pairwise different",
               "rules do not refer to themselves"]


class Mirror(object):
    """A grammar that is edited in step with its nodes."""
    def __init__(self, rules, cs=False):
        self.cs = cs
        self.rules = [list(x) for x in rules]
        for _, n in rules:
            for x in n.walk():
                x.cs = cs if x.kind == LIT else False
        self.grammar = Grammar("g", case_sensitive=cs)
        self.rcs = {}
        for name, n in self.rules:
            r = Rule(name, True, build(n), case_sensitive=cs)
            self.grammar.add_rule(r)
            self.rcs[name] = cs

    @property
    def env(self):
        return dict((a, b) for a, b in self.rules)

    @property
    def by_name(self):
        return dict((r.name, r) for r in self.grammar.rules)

    def twin(self):
        """Newly built library objects of the same shape."""
        t = Mirror.__new__(Mirror)
        t.cs = self.cs
        t.rules = [[n, x.clone()] for n, x in self.rules]
        t.grammar = Grammar("g", case_sensitive=self.cs)
        t.rcs = dict(self.rcs)
        for name, n in t.rules:
            flags = [(x, x.cs) for x in n.walk()]
            t.grammar.add_rule(Rule(name, True, build(n)))
        # Referenced rules are earlier ones; the setting of a rule extends to them.
        for name, n in reversed(t.rules):
            t.grammar.get_rule(name).case_sensitive = self.rcs[name]
        for name, n in t.rules:
            for x in n.walk():
                if x.kind == LIT and x.obj.case_sensitive != x.cs:
                    x.obj.case_sensitive = x.cs
        return t

    def show(self):
        return "; ".join("%s=%s" % (n, x.show()) for n, x in self.rules)


def compare(rec, m, log, words, rng):
    t = m.twin()
    env = m.env
    lang = Lang(env)
    rec.nontrivial(*[(n, x.key()) for n, x in m.rules])
    ca, cb = m.grammar.compile(), t.grammar.compile()
    rec.eval()
    rec.event("compiled texts compared")
    if ca != cb:
        rec.fail("the compiled text does not reflect an edit", rules=m.show(),
                 edits=log[-5:], edited=ca, newly_built=cb)
    names = [n for n, _ in m.rules]
    for name in [names[-1], rng.choice(names)]:
        node = env[name]
        us = utterances(rng, lang, node, words, 3)
        if any(x.kind == ALT and x.weights for x in node.walk()):
            # Also what could be said with other weights.
            x = node.clone()
            for y in x.walk():
                y.weights = None
            us += [ws for ws in [lang.sample(x, rng, .5) for _ in range(2)]
                   if ws is not None and len(ws) < 20]
        for ws in us:
            speech = respell(rng, ws, cs_safe=rng.random() < .6)
            ws = speech.split()
            op = rng.choice(["matches", "matches", "part", "expansion"])
            a, b = m.by_name[name], t.by_name[name]
            if op == "part":
                ra, rb = a.find_matching_part(speech), b.find_matching_part(speech)
            elif op == "expansion":
                ra, rb = a.expansion.matches(speech), b.expansion.matches(speech)
            else:
                ra, rb = a.matches(speech), b.matches(speech)
            rec.eval()
            rec.event("matches after edits: %s" % ra if op == "matches" else
                      "other match operations after edits")
            if ra != rb:
                rec.fail("matching does not reflect an edit", rules=m.show(),
                         rule=name, edits=log[-5:], utterance=speech, operation=op,
                         edited=repr(ra), newly_built=repr(rb))
            if op == "matches":
                if ra and not lang.member(node, ws):
                    rec.fail("an edited rule accepts what is not a sentence",
                             rules=m.show(), rule=name, edits=log[-5:], utterance=speech)
                if not ra and lang.greedy(node, ws) == len(ws):
                    rec.fail("an edited rule rejects a sentence", rules=m.show(),
                             rule=name, edits=log[-5:], utterance=speech)
            da = rule_data(name, env, m.by_name)
            db = rule_data(name, t.env, t.by_name)
            if da != db:
                rec.fail("match data does not reflect an edit", rules=m.show(),
                         rule=name, edits=log[-5:], utterance=speech,
                         difference=diff(da, db))


def case(rec, rng, i):
    # Weights matter in few trees, so use more of these at times.
    focus = rng.random() < .2
    kw = dict(p_weight=.9, zero_weight=.35) if focus else {}
    words, rules = grammar_nodes(rng, nrules=rng.choice([1, 2, 2, 3]), p_tag=.1, **kw)
    m = Mirror(rules, cs=rng.random() < .3)
    if i < 3:
        rec.sample(m.show())
    log = []

    def refs(name):
        names = [n for n, _ in m.rules]
        return tuple(names[:names.index(name)])

    # Use everything once, so that whatever is cached is cached.
    for n, x in m.rules:
        for ws in utterances(rng, Lang(m.env), x, words, 2):
            m.by_name[n].matches(" ".join(ws))
    for step in range(12):
        what = None
        r = rng.random()
        names = [n for n, _ in m.rules]
        name = rng.choice(names)
        idx = names.index(name)
        if r < .75:
            ed = Editor(rng, words, m.env, refs, p_cs=.05)
            ed.weighted = focus and rng.random() < .7
            what = ed.edit(name)
            # Editing a referenced rule can make weighted alternatives equal no more
            # often than editing the rule itself, so nothing else to check.
        elif r < .82:
            n = Editor(rng, words, m.env, refs).fresh(name, 2)
            if weights_ok(n):
                e = build(n)
                if n.kind == LIT and rng.random() < .5 and not n.tag:
                    m.by_name[name].expansion = n.text
                    n.obj = m.by_name[name].expansion
                else:
                    m.by_name[name].expansion = e
                m.rules[idx][1] = n
                what = "expansion of %s = %s" % (name, n.show())
        elif r < .88:
            n = Editor(rng, words, m.env, refs).fresh(name, 2)
            if weights_ok(n):
                m.grammar.remove_rule(name, ignore_dependent=True)
                e = build(n)
                m.grammar.add_rule(Rule(name, True, e))
                m.rules.pop(idx)
                m.rules.append([name, n])
                # Keep the rules ordered so that references point backwards.
                for nm in names[idx + 1:]:
                    j = [a for a, _ in m.rules].index(nm)
                    m.rules.append(m.rules.pop(j))
                    o = m.by_name[nm]
                    m.grammar.remove_rule(o, ignore_dependent=True)
                    m.grammar.add_rule(o)
                sync_case(m, [name] + names[idx + 1:])
                if not all(weights_ok(x) for _, x in m.rules):
                    return
                what = "replace rule %s by %s" % (name, n.show())
        elif r < .92:
            v = rng.random() < .5
            m.by_name[name].case_sensitive = v
            set_case(m, name, v)
            if all(weights_ok(x) for _, x in m.rules):
                what = "case of rule %s = %s" % (name, v)
            else:
                return
        elif r < .95:
            v = rng.random() < .5
            m.grammar.case_sensitive = v
            m.cs = v
            for nm in names:
                set_case(m, nm, v)
            if not all(weights_ok(x) for _, x in m.rules):
                return
            what = "case of grammar = %s" % v
        else:
            new = "n%d" % step
            m.by_name[name].name = new
            m.rules[idx][0] = new
            m.rcs[new] = m.rcs.pop(name)
            for _, x in m.rules:
                for y in x.walk():
                    if y.kind == REF and y.text == name:
                        y.text = new
                        y.obj.name = new
            what = "rename %s to %s" % (name, new)
        if what is None:
            continue
        log.append(what)
        rec.event("edits: " + ("slice" if what[0] == "[" else what.split()[0]))
        if rng.random() < .75:
            compare(rec, m, log, words, rng)
    compare(rec, m, log, words, rng)


def set_case(m, name, v):
    """The documented effect of setting a rule's case sensitivity."""
    for nm in closure(name, m.env):
        m.rcs[nm] = v
        for x in m.env[nm].walk():
            if x.kind == LIT:
                x.cs = v


def sync_case(m, names):
    """Rules added to a grammar take its case sensitivity."""
    for nm in names:
        m.rcs[nm] = m.cs
        for x in m.env[nm].walk():
            if x.kind == LIT:
                x.cs = m.cs
