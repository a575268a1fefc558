"""Root grammars: one public rule choosing between the visible rules."""
import os
from jsgf import (Grammar, RootGrammar, Rule, Import, GrammarError, CompilationError,
                  parse_grammar_string, valid_grammar, AlternativeSet)
from ..gen import Cfg, grammar_nodes, utterances, respell
from ..model import build, from_jsgf, Node, REF, REP, STAR, ALT, LIT
from ..lang import Lang
from ..norm import items
from ..rename import rename
from ..state import state, explain
from .C09 import shape
from .. import names

TECHNIQUE = "runtime monitor of root grammar text, parsed, matched and against the state"
LEVEL = "exploration"
QUICK, THOROUGH = 450, 12000
RULE = ("random grammars with hidden, disabled and failing rules and rules named 'root', as "
        "Grammar and RootGrammar, over histories of enabling, hiding, adding and removing; "
        "non-trivial = distinct texts with a root rule choosing between at least two rules")
ASSUMPTIONS = ["names do not begin with // or /*; repetitions have no tags of their own",
               "utterances are compared where active rules reference active rules only"]


def name(rng):
    return "root" if rng.random() < .06 else names.base_name(rng)


def check(rec, rng, g, rules, words):
    """Compare the root text of g with its rules."""
    is_root = isinstance(g, RootGrammar)
    way = rng.choice(["root", "file", "file"] + ["compile"] * 2 * is_root)
    objs = g.rules
    before = state(g, objs)

    def text():
        if way == "compile":
            return g.compile()
        if way == "root":
            return g.compile_as_root_grammar()
        if rng.random() < .5:
            with open("root.jsgf", "w") as f:
                f.write("what was in the file before " * rng.choice([1, 300]))
        if is_root and rng.random() < .5:
            g.compile_to_file("root.jsgf")
        elif rng.random() < .5:
            g.compile_to_file("root.jsgf", True)
        else:
            g.compile_to_file("root.jsgf", compile_as_root_grammar=True)
        with open("root.jsgf") as f:
            s = f.read()
        os.remove("root.jsgf")
        return s
    env = dict(rules)
    active = [r.name for r in objs if r.active]
    shown = [r.name for r in objs if r.active and r.visible]
    broken = [r for r in objs if r.active and any(
        x.kind == LIT and not x.obj.text for x in env[r.name].walk())]
    show = dict(rules=[(r.name, r.visible, r.active, env[r.name].show()) for r in objs],
                grammar=type(g).__name__, way=way)
    err = None
    try:
        t = text()
    except (GrammarError, CompilationError) as e:
        err = e
    after = state(g, objs)
    rec.eval()
    rec.require(before == after, "compiling as a root grammar changed the grammar",
                difference=explain(before, after), error=err, **show)
    if shown and "root" in active or shown and broken:
        rec.require(err is not None, "no error for a rule named 'root' or without text",
                    text=err is None and t, **show)
        rec.event("errors: " + type(err).__name__)
        if not broken:
            rec.require(isinstance(err, GrammarError), "wrong error", error=repr(err), **show)
        return
    rec.require(err is None, "compiling as a root grammar failed", error=repr(err), **show)
    head = g.jsgf_header + "grammar %s;\n" % g.name + "".join(
        "import <%s>;\n" % x for x in g.import_names)
    rec.require(t.startswith(head), "wrong header, name or imports", text=t, **show)
    if not shown:
        rec.require(t == head, "there are rules in a root grammar without visible active "
                    "rules", text=t, **show)
        rec.event("without rules")
        return
    rec.require(valid_grammar(t), "the text is not a valid grammar", text=t, **show)
    p = parse_grammar_string(t)
    got = [(r.name, r.visible) for r in p.rules]
    rec.require(got == [("root", True)] + [(n, False) for n in active],
                "wrong rules or visibility in the root grammar", text=t, got=got, **show)
    root = from_jsgf(p.rules[0].expansion)
    want = [("ref", n) for n in shown]
    have = items(root)
    if len(want) > 1:
        want = [("alt", tuple((None, (x,)) for x in want))]
    rec.require(have == tuple(want), "the root rule is not the choice between the visible "
                "active rules in their order", text=t, **show)
    for r in p.rules[1:]:
        for x in from_jsgf(r.expansion).walk():
            if x.kind == LIT:
                x.obj.case_sensitive = g.case_sensitive
        rec.require(items(from_jsgf(r.expansion), True, g.case_sensitive) ==
                    items(env[r.name], True, g.case_sensitive),
                    "a rule is compiled to something else", text=t, rule=r.name, **show)
    rec.event("root rules with %s choices" % min(len(shown), 4))
    if len(shown) > 1:
        rec.nontrivial(t)
    # Rules can be called root if they are disabled, so they could not be referenced.
    if all(x.text in active for n in active for x in env[n].walk() if x.kind == REF):
        lang = Lang(env)
        p.remove_imports(*p.imports)
        p.case_sensitive = g.case_sensitive
        rec.require([r for r in p.rules if r.name != "root" and not r.case_sensitive ==
                     g.case_sensitive] == [], "wrong case sensitivity", text=t)
        for n in shown[-2:]:
            for ws in utterances(rng, lang, env[n], words, 3):
                s = respell(rng, ws, cs_safe=g.case_sensitive)
                a = p.find_matching_rules(s)
                b = [r for r in objs if r.active and r.visible and r.matches(s)]
                rec.eval()
                rec.require(bool(a) == bool(b), "the root rule does not match what some "
                            "visible rule matches", utterance=s, root=bool(a),
                            rules_matching=[r.name for r in b], text=t)
                rec.event("root matches: %s" % bool(a))


def case(rec, rng, i):
    words, rules = grammar_nodes(rng, Cfg(p_tag=.15, childless=.05),
                                 nrules=rng.choice([1, 2, 3, 4, 5]))
    shape(rng, rules)
    cs = rng.random() < .2
    is_root = rng.random() < .5
    rules = rename(rng, rules, names.base_name if is_root else name)
    for _, n in rules:
        for x in n.walk():
            if x.kind == LIT:
                x.cs = cs
    objs = [Rule(a, rng.random() < .7, build(n)) for a, n in rules]
    gname = names.grammar_name(rng)
    if is_root:
        r = rng.random()
        if r < .3:
            g = RootGrammar(objs, gname, cs)
        elif r < .6:
            g = RootGrammar(rules=objs, name=gname, case_sensitive=cs)
        else:
            g = RootGrammar(case_sensitive=cs)
            g.add_rules(*objs)
        rec.require(g.name == (gname if r < .6 else "root") and g.rules == objs,
                    "wrong name or rules of a root grammar", name=g.name)
    else:
        g = Grammar(gname, case_sensitive=cs)
        g.add_rules(*objs)
    g.jsgf_version, g.charset_name, g.language_name = names.header(rng)
    for _ in range(rng.choice([0, 0, 1, 2])):
        g.add_import(Import(names.import_name(rng)))
    if i < 3:
        rec.sample(g.compile_as_root_grammar() if not any(
            a == "root" for a, _ in rules) else [n.show() for _, n in rules])
    if rng.random() < .8:
        check(rec, rng, g, rules, words)
    for _ in range(rng.choice([1, 2, 4])):
        o = rng.choice(objs)
        k = rng.randrange(7)
        if k == 0:
            o.disable() if rng.random() < .5 else g.disable_rule(o.name)
        elif k == 1:
            o.enable() if rng.random() < .5 else g.enable_rule(o.name)
        elif k == 2:
            o.visible = not o.visible
        elif k == 3 and len(objs) > 1 and o in g.rules:
            if not o.dependent_rules:
                g.remove_rule(o)
                objs = [x for x in objs if x is not o]
        elif k == 4 and is_root:
            x = Rule("root", rng.random() < .5, "a")
            was = state(g, objs)
            try:
                g.add_rule(x)
            except GrammarError:
                rec.event("rules named 'root' rejected")
            else:
                rec.fail("a root grammar accepted a rule named 'root'")
            rec.require(state(g, objs) == was and x.grammar is None,
                        "a rejected rule changed the grammar")
        elif k == 5:
            for y in objs:
                y.visible = False
        elif k == 6 and rng.random() < .4:
            ls = [x for _, n in rules for x in n.walk() if x.kind == LIT]
            if ls:
                x = rng.choice(ls)
                x.obj.text = ""
                x.text = ""
        check(rec, rng, g, rules, words)
