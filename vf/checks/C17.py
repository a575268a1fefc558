"""Case sensitivity: which literals a setting reaches, and what it does to them."""
from jsgf import (Import, Grammar, RootGrammar, Rule, Literal, parse_grammar_string,
                  parse_rule_string)
from jsgf.expansions import RuleRef
from ..gen import Cfg, grammar_nodes, utterances, tree, MIXED, UNI
from ..model import Node, build, from_jsgf, LIT, REF
from ..lang import Lang
from ..world import World
from .C01 import judge

TECHNIQUE = "runtime monitor of case-sensitivity histories against a model of each literal"
LEVEL = "exploration"
QUICK, THOROUGH = 2400, 40000
RULE = ("histories of setting case sensitivity on grammars, rules and literals, changing "
        "texts and expansions and adding rules; after each step every literal's setting, "
        "text, compiled text and matching is compared with a model; non-trivial = distinct "
        "(rules, settings)")
ASSUMPTIONS = ["rules do not refer to themselves",
               "lower case is that of str.lower; words have upper case letters of the same "
               "number"]
WORDS = MIXED + ["alpha", "x-Ray", "Don't", u"\u00c9t\u00e9", u"\u041f\u0440\u0438\u0432\u0435\u0442", "A", "USB"]


def mangle(rng, words):
    out = []
    for w in words:
        r = rng.random()
        v = w.upper() if r < .15 else w.lower() if r < .35 else w.swapcase() \
            if r < .45 else w
        out.append(v if len(v) == len(w) else w)
    return out


# References to no rule or file.
LOST = ("nowhere", "no.such.rule", "g.hidden")


class W(object):
    """What judge() needs."""
    def __init__(self, name, env, text):
        self.name, self.node, self.lang, self.text = name, env[name], Lang(env), text

    def show(self):
        return self.text


def case(rec, rng, i):
    words = rng.sample(WORDS, rng.choice([1, 2, 3]))
    n = rng.choice([1, 2, 3, 4])
    nodes, gcs = [], rng.random() < .4
    style = rng.choice(["grammar", "mixed", "loose"])
    cfg = Cfg(p_cs=.4, p_tag=.1, p_weight=.15)
    lost = rng.random() < .25
    if lost:
        rec.event("grammars with references that mean nothing")
    for k in range(n):
        cfg.refs = tuple(x for x, _ in nodes)
        if lost and style == "grammar":
            cfg.refs += LOST
        cfg.depth = rng.choice([0, 1, 2, 2])
        nodes.append(("r%d" % k, tree(rng, words, cfg)))
    env = dict(nodes)
    objs, rcs, added = {}, {}, []
    log = []
    g = rng.choice([Grammar, RootGrammar])(name="g", case_sensitive=gcs)
    if lost and rng.random() < .5:
        g.add_import(Import(rng.choice(["no.file.*", "nofile.rule"])))
    if style == "loose":
        g = None

    def resolvable(name, x):
        """Whether reference x in rule `name` can be resolved."""
        return isinstance(x.obj, RuleRef) or (
            g is not None and objs[name].grammar is g and x.text in added)

    def reach(name, v):
        rcs[name] = v
        for x in env[name].walk():
            if x.kind == LIT:
                x.cs = v
            elif x.kind == REF and resolvable(name, x):
                reach(x.text, v)

    def show():
        return "; ".join("%s=%s" % (a, env[a].show()) for a in objs) + " (%s)" % style

    def fail(what, **kw):
        rec.fail(what, rules=show(), history=log[-8:], **kw)

    def look():
        rec.eval()
        rec.nontrivial(show(), gcs, sorted(rcs.items()))
        if g is not None and g.case_sensitive is not gcs:
            fail("the grammar's setting is wrong")
        for a in objs:
            if objs[a].case_sensitive is not rcs[a]:
                fail("a rule's setting is wrong", rule=a, got=objs[a].case_sensitive,
                     want=rcs[a])
            for x in env[a].walk():
                if x.kind != LIT:
                    continue
                want = x.text if x.cs else x.text.lower()
                if x.obj.case_sensitive is not x.cs:
                    fail("a literal's setting is wrong", rule=a, literal=x.text,
                         want=x.cs)
                tag = x.obj.compiled_tag if x.obj.tag else ""
                if x.obj.text != want or x.obj.compile() != want + tag or \
                        x.obj.compile(ignore_tags=True) != want or \
                        x.obj.generate() != want:
                    fail("the text of a literal is wrong", rule=a, literal=x.text,
                         case_sensitive=x.cs, got=x.obj.text)
                if x.obj != x.obj or (x.obj == Literal(x.text, True)) is not x.cs:
                    fail("equality of literals ignores their setting", literal=x.text)

    def match():
        a = rng.choice(list(objs))
        if g is not None and any(x.kind == REF and not all(
                resolvable(m, y) for m in [a] + list(env)
                if m in objs for y in env[m].walk() if y.kind == REF)
                for x in env[a].walk()):
            return
        lang = Lang(env)
        for ws in utterances(rng, lang, env[a], words, 3):
            ws = mangle(rng, ws)
            s = " ".join(ws)
            got = objs[a].matches(s)
            judge(rec, W(a, env, show()), ws, s, got, "Rule.matches")
            if got and rng.random() < .5:
                part = objs[a].find_matching_part(s)
                if part is not None:
                    rec.require(part.lower() in s.lower() and
                                (part in s if rcs[a] else part == part.lower()),
                                "a found part is not in lower case, or of a case "
                                "sensitive rule is", utterance=s, part=part)
            if got:
                # Match values keep the spelling of the utterance for case sensitive
                # literals and the literals' own otherwise.
                rec.event("matched")

    def add(name):
        r = Rule(name, True, build(env[name], objs if style != "grammar" else None),
                 case_sensitive=False)
        objs[name] = r
        # The rule's setting overrides those of its literals.
        rcs[name] = False
        v = rng.random() < .3
        if v:
            r = Rule(name, True, build(env[name], dict(
                (k, o) for k, o in objs.items() if k != name)
                if style != "grammar" else None), case_sensitive=True)
            objs[name] = r
        reach(name, v)
        if g is not None:
            ls = [x for x in env[name].walk() if x.kind == LIT]
            if ls and rng.random() < .4:
                # Adding it to a grammar sets this one, too.
                rng.choice(ls).obj.case_sensitive = rng.random() < .5
                rec.event("literals set before their rule is added")
            # Names cannot be resolved before the rule is in the grammar.
            reach(name, gcs)
            g.add_rule(r)
            added.append(name)

    todo = [a for a, _ in nodes]
    add(todo.pop(0))
    log.append("add " + nodes[0][0])
    for _ in range(rng.choice([6, 12])):
        k = rng.randrange(8)
        a = rng.choice(list(objs))
        lits = [x for x in env[a].walk() if x.kind == LIT]
        v = rng.random() < .5
        raw = rng.choice([v, v, int(v), "yes" if v else ""])
        if todo and k < 3:
            a = todo.pop(0)
            log.append("add %s" % a)
            add(a)
        elif k == 3 and g is not None:
            g.case_sensitive = raw
            gcs = v
            log.append("grammar: %s" % v)
            for b in added:
                reach(b, v)
        elif k == 4:
            log.append("%s: %s" % (a, v))
            objs[a].case_sensitive = raw
            reach(a, v)
        elif k == 5 and lits:
            x = rng.choice(lits)
            x.obj.case_sensitive = raw
            x.cs = v
            log.append("literal %s of %s: %s" % (x.text, a, v))
        elif k == 6 and lits:
            x = rng.choice(lits)
            if not any(y.weights for y in env[a].walk()):
                x.text = " ".join(rng.choice(words) for _ in range(rng.choice([1, 2])))
                x.obj.text = x.text
                log.append("text of %s" % a)
        elif k == 7 and rng.random() < .5:
            cfg.refs = tuple(m for m in objs if m < a)
            if lost and style == "grammar":
                cfg.refs += LOST
            e = tree(rng, words, cfg)
            env[a] = e
            objs[a].expansion = build(e, objs if style != "grammar" else None)
            log.append("expansion of %s" % a)
        look()
        match()
    if i < 3:
        rec.sample(show() + " " + repr(log))

    # Text is never lost, also parsed text.
    lines = "".join("public <%s> = %s;\n" % (nm, rng.choice([
        " ".join(ws), "(%s)+ | [%s]" % (ws[0], " ".join(ws)), "%s {T} (%s)" % (
            ws[0], ws[-1])])) for nm, ws in (("p%d" % k, [
                rng.choice(words) for _ in range(3)]) for k in range(2)))
    p = parse_grammar_string("#JSGF V1.0;\ngrammar g;\n" + lines)
    low = p.compile()
    p.case_sensitive = True
    high = p.compile()
    for r in p.rules:
        r.case_sensitive = False
    low2 = p.compile()
    p.case_sensitive = True
    rec.eval()
    rec.require(low == low2 and p.compile() == high, "text is lost when the setting "
                "changes", text=lines)
    q = [x.text.split() for r in p.rules for x in from_jsgf(r.expansion).walk()
         if x.kind == LIT]
    rec.require(all(w in words for t in q for w in t), "the spelling of parsed text is "
                "lost", text=lines, got=q)
    rec.event("parsed grammars")
