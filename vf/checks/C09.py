"""Compiled text parses back to the same rules."""
import os
from jsgf import (Grammar, Rule, Import, parse_grammar_string, parse_rule_string,
                  parse_expansion_string, parse_grammar_file, valid_grammar, Literal,
                  Repeat, PublicRule, AlternativeSet, GrammarError)
from pyparsing import ParseException
from ..gen import Cfg, grammar_nodes, utterances, respell
from ..model import build, from_jsgf, Node, REF, REP, STAR, ALT, LIT
from ..lang import Lang
from ..norm import items
from .. import names

TECHNIQUE = "runtime monitor of compile/parse round trips with normal-form and match oracle"
LEVEL = "exploration"
QUICK, THOROUGH = 500, 8000
RULE = ("random grammars (names with special and Unicode characters, header values, "
        "imports, visibility, tags, weights, NULL/VOID, references, operators without "
        "children) compiled and parsed as strings and files, rule by rule and expansion by "
        "expansion, and matched before and after; also with references to any rules; non-trivial = distinct compiled texts of "
        "at least two rules")
ASSUMPTIONS = ["literal and tag text consists of the characters the parser accepts",
               "names do not begin with // or /*; 2-letter character sets are not used "
               "without a language", "repetitions have no tags of their own (the parser "
               "rejects those, by specification)",
               "weights are used with at least two alternatives, which are "
               "pairwise different"]


def shape(rng, rules):
    """Edit generated nodes to shapes that have a text."""
    for _, n in rules:
        for x in n.walk():
            if x.kind in (REP, STAR):
                x.tag = ""
            elif x.tag:
                x.tag = names.tag_text(rng)
            if x.kind == ALT and len(x.kids) < 2:
                x.weights = None
            if x.kind == ALT and x.weights is not None:
                x.weights = [rng.choice([0, 1, 0.5, 3.25, 10, 100, 0.3333, 12.3456, 1e-3])
                             for _ in x.kids]
            if x.kind == LIT and rng.random() < .1:
                x.text = rng.choice([u"gr\u00fcezi", "don't", "x-ray", "_a_", "public",
                                     "import", "grammar", "42", "-", "'"])

    # Comparable alternatives of a set share their weight.
    for _, n in rules:
        for x in n.walk():
            if x.weights is not None and len(set(items(c, False) for c in x.kids)) \
                    < len(x.kids):
                x.weights = None


def compare(rec, what, node, e, text, tags=True, cs=False):
    rec.eval()
    got = items(from_jsgf(e), True, cs)
    want = items(node, tags, cs)
    rec.require(got == want, "%s: the parsed expansion differs from the compiled one" % what,
                text=text, expected=repr(want), got=repr(got))


def case(rec, rng, i):
    cfg = Cfg(p_tag=rng.choice([0, .2, .5]), childless=rng.choice([0, .1]), special=.12)
    words, rules = grammar_nodes(rng, cfg, nrules=rng.choice([1, 2, 2, 3, 4]))
    shape(rng, rules)
    # Give the rules other names.
    new = {}
    for name, _ in rules:
        while True:
            s = names.base_name(rng)
            if s not in new.values():
                new[name] = s
                break
    for _, n in rules:
        for x in n.walk():
            if x.kind == REF:
                x.text = new[x.text]
    rules = [(new[a], n) for a, n in rules]
    cs = rng.random() < .25
    g = Grammar(names.grammar_name(rng), case_sensitive=cs)
    g.jsgf_version, g.charset_name, g.language_name = names.header(rng)
    vis, objs, known = {}, [], {}
    by_object = rng.random() < .3
    for name, n in rules:
        for x in n.walk():
            if x.kind == LIT:
                x.cs = cs
        vis[name] = rng.random() < .7
        # Rules can be referenced by name or as objects, and be renamed afterwards.
        tmp = name
        if by_object and rng.random() < .6:
            tmp = "tmp%d" % len(objs)
        objs.append(Rule(tmp, vis[name], build(n, known if by_object else {})))
        known[name] = objs[-1]
    early = rng.random() < .5
    if not early:
        g.add_rules(*objs)
        if by_object and rng.random() < .5:
            g.compile()
    for name, r in known.items():
        if r.name != name:
            r.name = name
            rec.event("referenced rules renamed")
    if early:
        g.add_rules(*objs)
    imps = []
    for _ in range(rng.choice([0, 0, 1, 3])):
        s = names.import_name(rng)
        if s not in imps:
            imps.append(s)
    g.add_imports(*[Import(s) for s in imps])
    text = g.compile()
    if i < 3:
        rec.sample(text)
    if len(rules) > 1:
        rec.nontrivial(text)

    rec.require(valid_grammar(text) is True, "compiled text is not a valid grammar",
                text=text)
    how = rng.randrange(2)
    if how:
        g2 = parse_grammar_string(text)
        rec.event("grammar strings")
    else:
        path = "f%d.jsgf" % i
        g.compile_to_file(path)
        g2 = parse_grammar_file(path)
        os.remove(path)
        rec.event("grammar files")
    rec.eval()
    head = (g2.name, g2.jsgf_version, g2.charset_name, g2.language_name,
            list(g2.import_names), [(r.name, r.visible) for r in g2.rules])
    want = (g.name, g.jsgf_version, g.charset_name, g.language_name, imps,
            [(n, vis[n]) for n, _ in rules])
    rec.require(head == want, "name, header, imports or rules differ after parsing",
                text=text, expected=repr(want), got=repr(head))
    g2.case_sensitive = cs
    for (name, n), r, r2 in zip(rules, objs, g2.rules):
        compare(rec, "grammar", n, r2.expansion, text, cs=cs)
        rec.require(r2.grammar is g2 and r2.active, "a parsed rule is not an active rule of "
                    "its grammar", text=text)
    if rng.random() < .2:
        # The header can be given too.
        head = [rng.choice(["1.0", "2.0"]), rng.choice(["UTF-8", "ISO8859-5"]),
                rng.choice(["en", "de"])]
        k = rng.randrange(4)
        t = [lambda: g2.compile_grammar(head[1], head[2], head[0]),
             lambda: g2.compile_grammar(jsgf_version=head[0], charset_name=head[1],
                                        language_name=head[2]),
             lambda: g2.compile_grammar(language_name=head[2]),
             lambda: g2.compile_grammar()][k]()
        if k > 1:
            head[:2] = ["1.0", "UTF-8"]
        if k > 2:
            head[2] = "en"
        g3 = parse_grammar_string(t)
        rec.event("grammars compiled with another header")
        for g4 in (g2, g3):
            got = [g4.jsgf_version, g4.charset_name, g4.language_name]
            rec.require(got == head, "a grammar compiled with a given header has another",
                        text=t, expected=head, got=got)
        rec.require([(r.name, r.visible) for r in g3.rules] ==
                    [(n, vis[n]) for n, _ in rules] and g3.name == g.name and
                    list(g3.import_names) == imps,
                    "a grammar compiled with a given header has other contents", text=t)
    text2 = g2.compile()
    for (name, n), r3 in zip(rules, parse_back(g2, cs).rules):
        compare(rec, "second round trip", n, r3.expansion, text2, cs=cs)

    for (name, n), r in zip(rules, objs):
        t = r.compile()
        for tags in (True, False):
            t = r.compile() if tags else r.compile(ignore_tags=True)
            r2 = parse_rule_string(t)
            rec.require((r2.name, r2.visible) == (name, vis[name]),
                        "name or visibility differ after parsing a rule", text=t)
            r2.case_sensitive = cs
            compare(rec, "rule", n, r2.expansion, t, tags, cs)
            et = r.expansion.compile(ignore_tags=not tags)
            e2 = parse_expansion_string(et)
            for x in from_jsgf(e2).walk():
                if x.kind == LIT:
                    x.obj.case_sensitive = cs
            compare(rec, "expansion", n, e2, et, tags, cs)
            rec.event("rules and expansions")

    # Both grammars match the same utterances and report the same tags.
    env = dict(rules)
    lang = Lang(env)
    for name, n in rules[-2:]:
        a, b = g.get_rule(name), g2.get_rule(name)
        for ws in utterances(rng, lang, n, words, 4):
            s = respell(rng, ws, cs_safe=cs)
            ra, rb = a.matches(s), b.matches(s)
            rec.eval()
            rec.require(ra == rb, "the parsed grammar matches other utterances", text=text,
                        rule=name, utterance=s, before=ra, after=rb)
            rec.event("matched before and after: %s" % ra)

    if rng.random() < .4:
        loops(rec, rng)

    # Disabled rules are left out of the text.
    if len(rules) > 1 and rng.random() < .3:
        off = rng.choice(rules)[0]
        g.disable_rule(off)
        t = g.compile()
        left = [r.name for r in parse_grammar_string(t).rules]
        rec.require(left == [a for a, _ in rules if a != off],
                    "disabled rules are not left out of compiled text", text=t,
                    disabled=off)
        rec.require(g.get_rule(off).compile() == "", "a disabled rule compiles to text",
                    text=t)
        rec.event("disabled rules")


def loops(rec, rng):
    """References to any rules: itself, later, qualified, of others or to none at all."""
    words, rules = grammar_nodes(rng, Cfg(p_tag=.2), nrules=rng.choice([1, 2, 3]))
    shape(rng, rules)
    own = []
    while len(own) < len(rules):
        s = names.base_name(rng)
        if s not in own:
            own.append(s)
    g = Grammar(names.grammar_name(rng))
    near = own + ["%s.%s" % (g.name.split(".")[-1], own[0]), "%s.%s" % (g.name, own[-1]),
                  names.base_name(rng), names.base_name(rng) + "." + names.base_name(rng)]
    n = 0
    for _, node in rules:
        for x in node.walk():
            if x.kind == REF:
                x.text = rng.choice(near)
            elif x.kind == LIT and rng.random() < .3:
                x.kind, x.text = REF, rng.choice(near)
            n += x.kind == REF
    rules = [(a, node) for a, (_, node) in zip(own, rules)]
    for _, node in rules:
        for x in node.walk():
            if x.weights is not None and len(set(items(c, False) for c in x.kids)) \
                    < len(x.kids):
                x.weights = None
    vis = {a: rng.random() < .7 for a in own}
    g.add_rules(*[Rule(a, vis[a], build(node)) for a, node in rules])
    text = g.compile()
    g2 = parse_grammar_string(text)
    rec.require(valid_grammar(text) is True, "text with references to any rules is not "
                "valid", text=text)
    text2 = g2.compile()
    again = parse_grammar_string(text2)
    rec.require([(r.name, r.visible) for r in g2.rules] == [(a, vis[a]) for a in own],
                "rules with references to any rules differ after parsing", text=text)
    for (a, node), r, r2, r3 in zip(rules, g.rules, g2.rules, again.rules):
        compare(rec, "references to any rules", node, r2.expansion, text)
        compare(rec, "references to any rules, again", node, r3.expansion, text2)
        rec.require(r.expansion.copy().compile() == r.expansion.compile(),
                    "a rule with references to any rules compiles to another text",
                    text=text, rule=a)
    if "root" not in own and any(vis.values()):
        text = g.compile_as_root_grammar()
        p = parse_grammar_string(text)
        rec.require([(r.name, r.visible) for r in p.rules] ==
                    [("root", True)] + [(a, False) for a in own],
                    "the root grammar with references to any rules differs", text=text)
        for (a, node), r in zip(rules, p.rules[1:]):
            compare(rec, "root grammar with references to any rules", node, r.expansion,
                    text)
    if n:
        rec.event("grammars with references to any rules")


def parse_back(g, cs):
    g2 = parse_grammar_string(g.compile())
    g2.case_sensitive = cs
    return g2


def fixed(rec):
    # Findings recorded in known_findings.txt.
    e = Repeat(Literal("a"))
    e.tag = "t"
    rec.eval()
    try:
        parse_expansion_string(e.compile())
    except (GrammarError, ParseException) as err:
        rec.known["tagged-repetition"] = "%r: %s" % (e.compile(), err)
    g = Grammar("g")
    g.add_rule(PublicRule("//x", "a"))
    rec.eval()
    try:
        ok = [r.name for r in parse_grammar_string(g.compile()).rules] == ["//x"]
    except (GrammarError, ParseException):
        ok = False
    if not ok:
        rec.known["comment-name"] = repr(g.compile())
    a = AlternativeSet("a")
    a.set_weight(0, 1)
    rec.eval()
    try:
        parse_expansion_string(a.compile())
    except (GrammarError, ParseException) as err:
        rec.known["single-weight"] = "%r: %s" % (a.compile(), err)
