"""Disabled rules take no part; enabling restores them; hiding only hides."""
from jsgf import Grammar, RootGrammar, Rule, GrammarError, parse_grammar_string
from ..gen import Cfg, grammar_nodes, utterances, respell
from ..model import build, REF
from ..lang import Lang
from ..snap import rule_data, diff
from ..state import state, explain
from ..world import World

TECHNIQUE = "runtime monitor of enable/disable/hide histories against an unchanged twin"
LEVEL = "exploration"
QUICK, THOROUGH = 1500, 25000
RULE = ("histories of enabling, disabling and hiding (by method, name, object, comparable "
        "object; repeated; unknown rules), interleaved with matching and compiling; every "
        "rule is compared with a twin that was never disabled; non-trivial = distinct "
        "(rules, enabled set, visible set)")
ASSUMPTIONS = ["rules do not refer to themselves"]


def case(rec, rng, i):
    words, rules = grammar_nodes(rng, Cfg(p_tag=.2), nrules=rng.choice([1, 2, 3, 3, 4]))
    w = World(rules, rng.choice(["grammar", "mixed"]), rng.random() < .2,
              [n for n, _ in rules if rng.random() < .3])
    t = World([(n, x.clone()) for n, x in rules], w.style, w.cs, w.hidden)
    g = w.grammar
    if rng.random() < .3:
        g2 = RootGrammar([], "g", w.cs)
        objs = g.rules
        for r in objs:
            g.remove_rule(r, True)
        g2.add_rules(*objs)
        g = g2
    w.grammar = g
    env = w.env
    names = [n for n, _ in rules]
    active = dict((n, True) for n in names)
    visible = dict((n, n not in w.hidden) for n in names)
    log = []
    if i < 3:
        rec.sample(w.show())
    rec.require(all(r.active is True for r in g.rules), "new rules are not enabled")

    def fail(what, **kw):
        rec.fail(what, rules=w.show(), history=log[-8:], enabled=active, visible=visible,
                 **kw)

    def look():
        rec.eval()
        rec.nontrivial(w.show(), sorted(active.items()), sorted(visible.items()))
        for r in g.rules:
            if r.active is not active[r.name] or r.visible is not visible[r.name]:
                fail("a rule is wrongly enabled, disabled, shown or hidden", rule=r.name)
        if [r.name for r in g.rules] != names or \
                [r.name for r in g.visible_rules] != [n for n in names if visible[n]]:
            fail("the grammar lists other rules")
        if type(g) is Grammar:
            text = g.compile()
            have = [l for l in text.split("\n")[2:] if l]
            want = [("public " if visible[n] else "") + "<%s> = " % n + "%s;" %
                    t.by_name[n].expansion.compile() for n in names if active[n]]
            if have != want:
                fail("the text does not consist of the enabled rules", text=text,
                     expected=want)
        for n in names:
            r = w.by_name[n]
            one = r.compile()
            if bool(one) != active[n] or not active[n] and (
                    one != "" or r.compile(ignore_tags=True) != ""):
                fail("wrong text of a rule", rule=n, text=one)
            if not active[n] and r.generate() != "":
                fail("a disabled rule generates something", rule=n)

    def match():
        n = rng.choice(names)
        lang = Lang(env)
        for ws in utterances(rng, lang, env[n], words, 2):
            s = respell(rng, ws)
            r, tr = w.by_name[n], t.by_name[n]
            k = rng.randrange(4)
            rec.eval()
            if k == 0:
                got = g.find_matching_rules(s)
                want = [m for m in names if active[m] and visible[m] and
                        t.by_name[m].matches(s)]
                if not isinstance(got, list) or [x.name for x in got] != want or \
                        not all(x is w.by_name[x.name] for x in got):
                    fail("wrong matching rules", utterance=s, got=[x.name for x in got],
                         want=want)
                for m in names:
                    # Each visible rule has the result of its own last match.
                    if visible[m] and not active[m] and (
                            w.by_name[m].was_matched and not any(
                                m in refs(x) for x in names if active[x] and visible[x])):
                        fail("a disabled rule was matched", rule=m, utterance=s)
                rec.event("found matching rules: %d" % min(3, len(want)))
            elif k == 1:
                got = r.find_matching_part("x " + s)
                want = tr.find_matching_part("x " + s) if active[n] else None
                if got != want:
                    fail("wrong matching part", rule=n, utterance="x " + s, got=got,
                         want=want)
                rec.event("parts: %s" % (want is not None))
            else:
                if k == 2:
                    got = r.matches(s)
                    tags = []
                else:
                    tags = r.get_tags_matching(s)
                    got = r.was_matched
                if not active[n]:
                    if got is not False or tags != [] or r.was_matched:
                        fail("a disabled rule matched", rule=n, utterance=s)
                    rec.event("disabled rules do not match")
                    continue
                want = tr.matches(s)
                if got is not want:
                    fail("wrong match result of an enabled rule", rule=n, utterance=s,
                         got=got, want=want)
                a, b = rule_data(n, env, w.by_name), rule_data(n, t.env, t.by_name)
                if a != b:
                    fail("wrong match data of an enabled rule", rule=n, utterance=s,
                         difference=diff(a, b))
                rec.event("enabled rules match: %s" % want)

    def refs(n):
        out, todo = set(), [n]
        while todo:
            for x in env[todo.pop()].walk():
                if x.kind == REF and x.text not in out:
                    out.add(x.text)
                    todo.append(x.text)
        return out

    look()
    for _ in range(rng.choice([5, 10])):
        n = rng.choice(names)
        r = w.by_name[n]
        on = rng.random() < .5
        k = rng.randrange(10)
        if k < 2:
            (r.enable if on else r.disable)()
            how = "method"
        elif k == 2:
            (g.enable_rule if on else g.disable_rule)(n)
            how = "name"
        elif k == 3:
            (g.enable_rule if on else g.disable_rule)(r)
            how = "object"
        elif k == 4:
            o = Rule(n, visible[n], build(env[n].clone()), w.cs)
            (g.enable_rule if on else g.disable_rule)(o)
            if o.active is not on:
                fail("the rule given was not %s" % ("enabled" if on else "disabled"))
            how = "comparable"
        elif k == 5:
            before = state(g, g.rules)
            bad = rng.choice(["missing", "", Rule("missing", True, "a")])
            try:
                (g.enable_rule if on else g.disable_rule)(bad)
            except GrammarError:
                rec.event("unknown rules rejected")
            else:
                fail("an unknown rule was accepted", rule=str(bad))
            if state(g, g.rules) != before:
                fail("a rejected operation changed something",
                     difference=explain(before, state(g, g.rules)))
            how = None
        elif k >= 8:
            # Other changes leave it alone.
            what = rng.randrange(7)
            if what < 2:
                r.expansion = build(env[n], w.by_name if w.style == "mixed" else None)
            elif what == 2:
                r.case_sensitive = w.cs
            elif what == 3:
                r.name = n
            elif what == 4:
                g.case_sensitive = w.cs
            elif what == 5:
                g.name = rng.choice(["g", "h"])
            else:
                o = Rule("zzz", True, "zzz")
                g.add_rule(o)
                g.remove_rule(o)
            log.append("other change %d of %s" % (what, n))
            how = None
        else:
            visible[n] = r.visible = not visible[n]
            log.append("show %s: %s" % (n, visible[n]))
            how = None
        if how:
            active[n] = on
            log.append("%s %s by %s" % ("enable" if on else "disable", n, how))
        look()
        match()
    # Everything is back when everything is enabled again.
    for n in names:
        g.enable_rule(n)
        active[n] = True
    log.append("enable everything")
    look()
    match()
    if rng.random() < .2:
        p = parse_grammar_string("#JSGF V1.0;\ngrammar p;\npublic <a> = x;\n<b> = y;\n")
        rec.require(all(r.active for r in p.rules), "parsed rules are not enabled")
