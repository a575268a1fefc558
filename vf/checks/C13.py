"""Layout, comments and line ends do not change the meaning of grammar text."""
from jsgf import parse_grammar_string, parse_rule_string, parse_expansion_string, \
    valid_grammar, parse_grammar_file
from ..gen import vocab
from ..model import from_jsgf
from ..norm import items
from ..refparse import (RefParser, tokens, text, tok_text, partly_weighted, sp, COMMENTS)
from .C11 import no_equal_weighted
from .. import names

TECHNIQUE = "runtime monitor of parses of differently laid out equal texts"
LEVEL = "exploration"
QUICK, THOROUGH = 600, 16000
RULE = ("random documents written compactly and in variants with extra white space, line "
        "breaks inside rules, empty lines, comments with misleading content, ';' or "
        "newlines as line ends and other letter case of keywords; non-trivial = distinct "
        "variants with a comment and a line ended by a newline")
ASSUMPTIONS = ["comments are separated from words and names by white space and are not "
               "used before or inside the header",
               "a rule ended by a newline does not end with the word 'public', and comments "
               "after it are followed by a line break"]


def gen_doc(rng):
    words = [w for w in vocab(rng) if w.lower() != "public"]
    nms = []
    while len(nms) < rng.choice([1, 2, 2, 3, 4]):
        n = names.base_name(rng)
        if n not in nms:
            nms.append(n)
    rules = []
    for n in nms:
        while True:
            toks = tokens(rng, words, nms + ["x.y"], rng.choice([0, 1, 1, 2]),
                          tag=lambda: names.tag_text(rng))
            node = RefParser(toks).parse()
            if len(toks) < 40 and not partly_weighted(node) and no_equal_weighted(node):
                break
        rules.append((n, rng.random() < .6, toks, node))
    imps = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        s = names.import_name(rng)
        if s not in imps:
            imps.append(s)
    return names.header(rng), names.grammar_name(rng), imps, rules


def keyword(rng, s):
    if rng.random() < .3:
        return "".join(c.upper() if rng.random() < .5 else c.lower() for c in s)
    return rng.choice([s, s, s.upper(), s.title()])


def line_end(rng, last, state):
    """(text, ended by a newline only)"""
    r = rng.random()
    if r < .5:
        return rng.choice([";", " ;", ";\n", ";;\n", " \n ;\n", ";\n\n\n", "; // c\n",
                           " /* x */ ;\n", "; /* y */ ", ";\r\n", "\n;"])
    state["nl"] = True
    out = rng.choice(["\n", "\n\n", " \n\n \n", "\r\n", " // c ; <a> = b\n", "\n// d\n",
                      " /* e */\n", "\n/* f\n g */\n\n"])
    state["comment"] = state.get("comment") or "/" in out
    return out


def variant(rng, doc, comments):
    (v, cs, lang), name, imps, rules = doc
    state = {}
    s = rng.choice(["", "", "\n", "  "])
    s += rng.choice(["#JSGF", keyword(rng, "#JSGF")])
    s += rng.choice([" ", "  ", "\t"]) + rng.choice("Vv") + v
    for x in (cs, lang):
        if x:
            s += rng.choice([" ", "  ", "\t"]) + x
    s += line_end(rng, False, state)

    def gap(need=True):
        g = sp(rng, need, comments)
        if "/" in g:
            state["comment"] = True
            # Names contain '/', so separate comments from them.
            g = " " + g + " "
        return g

    s += gap(False) if s.rstrip(" ").endswith((";", "\n")) and not state.get("nl") else ""
    s += "grammar" + gap() + name + " " + line_end(rng, False, state)
    for i in imps:
        s += keyword(rng, "import") + gap(False) + "<" + rng.choice(["", " "]) + i + \
            rng.choice(["", " "]) + ">" + gap(False) + line_end(rng, False, state)
    for k, (n, vis, toks, node) in enumerate(rules):
        if vis:
            s += keyword(rng, "public") + gap(False)
        s += "<" + rng.choice(["", " "]) + n + rng.choice(["", " "]) + ">" + gap(False) + \
            "=" + gap(False)
        for j, t in enumerate(toks):
            if j:
                s += gap(toks[j - 1][0] == "w" and t[0] == "w")
            s += tok_text(t)
        end = line_end(rng, k == len(rules) - 1, state)
        s += " " + end
    if comments and rng.random() < .3:
        s += rng.choice(["// end", "/* end */", "\n\n// <x> = y;", " /* a */ // b\n"])
        if ";" not in end.split("//")[0]:
            s += "\n"
        state["comment"] = True
    return s, state


def content(g):
    return (g.name, g.jsgf_version, g.charset_name, g.language_name, list(g.import_names),
            [(r.name, r.visible, items(from_jsgf(r.expansion), cs=False))
             for r in g.rules])


def case(rec, rng, i):
    doc = gen_doc(rng)
    (v, cs, lang), name, imps, rules = doc
    want = (name, v, cs, lang, imps,
            [(n, vis, items(node)) for n, vis, _, node in rules])
    first = None
    for k in range(5):
        s, state = variant(rng, doc, comments=k > 0)
        if i < 2 and k == 3:
            rec.sample(s)
        if k == 4:
            with open("layout.jsgf", "w", newline="") as f:
                f.write(s)
            g = parse_grammar_file("layout.jsgf")
            rec.event("files")
        else:
            g = parse_grammar_string(s)
        rec.eval()
        got = content(g)
        rec.require(got == want, "the text has another meaning in this layout", text=s,
                    expected=repr(want), got=repr(got))
        c = g.compile()
        first = first or c
        rec.require(c == first, "the compiled text depends on the layout", text=s,
                    compiled=c, other=first)
        rec.require(valid_grammar(s) is True, "a valid layout is not valid", text=s)
        if state.get("nl") and state.get("comment"):
            rec.nontrivial(s)
        rec.event("layouts")
    # Single rules and expansions.
    n, vis, toks, node = rng.choice(rules)
    for _ in range(3):
        body = text(rng, toks, comments=True, wild=.5)
        s = "%s<%s>%s=%s%s ;" % (keyword(rng, "public") + " " if vis else "", n,
                                 sp(rng, 0, True), sp(rng, 0, True), body)
        r = parse_rule_string(s)
        rec.eval()
        rec.require((r.name, r.visible) == (n, vis) and
                    items(from_jsgf(r.expansion)) == items(node),
                    "the rule has another meaning in this layout", text=s)
        s = text(rng, toks, comments=False, wild=.5)
        e = parse_expansion_string(rng.choice(["", " ", "\n"]) + s +
                                   rng.choice(["", " ", "\n"]))
        rec.require(items(from_jsgf(e)) == items(node),
                    "the expansion has another meaning in this layout", text=s)
        rec.event("rules and expansions")
