"""Parsed expansions follow the operator precedence of the JSGF specification."""
from jsgf import parse_expansion_string, parse_rule_string, parse_grammar_string
from ..gen import vocab
from ..model import from_jsgf, ALT
from ..norm import items
from ..refparse import RefParser, tokens, text, partly_weighted
from .. import names

TECHNIQUE = "runtime monitor of the parser against a reference parser"
LEVEL = "exploration"
QUICK, THOROUGH = 5000, 60000
RULE = ("random well-formed token sequences (words, references, groups, optionals, unary "
        "operators, tags, alternatives, weights) written with varied white space and parsed "
        "as expansions, rules and grammars; non-trivial = distinct texts using at least two "
        "kinds of operators")
ASSUMPTIONS = ["consecutive words form one literal, as documented",
               "weighted alternatives of a set are pairwise different",
               "nesting depth at most 4"]


def no_equal_weighted(n):
    """Comparable alternatives of a weighted set share their weight; avoid them."""
    for x in n.walk():
        if x.kind == ALT and x.weights is not None:
            if len(set(items(c, False) for c in x.kids)) < len(x.kids):
                return False
    return True


def gen(rng):
    words = vocab(rng)
    refs = [names.base_name(rng), "r.s", "com.example.rule", "a"]
    while True:
        toks = tokens(rng, words, refs, rng.choice([1, 2, 2, 3]),
                      tag=lambda: names.tag_text(rng))
        if len(toks) > 60:
            continue
        n = RefParser(toks).parse()
        if not partly_weighted(n) and no_equal_weighted(n):
            return words, refs, toks, n


def case(rec, rng, i):
    words, refs, toks, n = gen(rng)
    s = text(rng, toks)
    if i < 3:
        rec.sample(s)
    how = rng.randrange(3)
    name = names.base_name(rng)
    if how == 0:
        e = parse_expansion_string(s)
    elif how == 1:
        r = parse_rule_string("<%s> = %s;" % (name, s))
        rec.require(r.name == name and r.visible is False, "wrong name or visibility",
                    text=s)
        e = r.expansion
    else:
        g = parse_grammar_string("#JSGF V1.0;\ngrammar g;\npublic <%s> = %s;" % (name, s))
        r = g.rules[0]
        rec.require(len(g.rules) == 1 and r.name == name and r.visible is True,
                    "wrong name or visibility", text=s)
        e = r.expansion
    rec.event(("expansions", "rules", "grammars")[how])
    got, want = items(from_jsgf(e), cs=False), items(n, cs=False)
    rec.eval()
    rec.require(got == want, "the text was parsed with another structure", text=s,
                expected=repr(want), got=repr(got), reference=n.show(),
                parsed=from_jsgf(e).show())
    # Every part knows its place.
    for x in from_jsgf(e).walk():
        for c in x.kids:
            rec.require(c.obj.parent is x.obj, "a parsed expansion has a wrong parent",
                        text=s, expansion=c.show())
    rec.require(e.parent is None, "the parsed expansion has a parent", text=s)
    if how:
        for x in from_jsgf(e).walk():
            rec.require(x.obj.rule is r, "a parsed expansion does not belong to its rule",
                        text=s, expansion=x.show())
    if len(set(t[0] for t in toks) - {"w"}) >= 2:
        rec.nontrivial(tuple(toks))
