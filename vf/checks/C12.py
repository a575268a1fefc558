"""Malformed text is rejected, with the documented errors; valid text is accepted."""
from pyparsing import ParseException
from jsgf import (parse_expansion_string, parse_rule_string, parse_grammar_string,
                  parse_grammar_file, valid_grammar, GrammarError, Grammar, Rule, Expansion)
from ..gen import vocab
from ..model import from_jsgf, ALT
from ..norm import items
from ..refparse import RefParser, Bad, tokens, mutate, text, partly_weighted
from .C11 import no_equal_weighted
from .. import names

TECHNIQUE = "runtime monitor of parse errors against a reference acceptor and mutated text"
LEVEL = "exploration"
QUICK, THOROUGH = 1500, 25000
RULE = ("well-formed texts with tokens removed, inserted, replaced or swapped, documents "
        "with parts in wrong places or missing, and random character noise; non-trivial = "
        "distinct texts that are rejected")
ASSUMPTIONS = ["nesting depth at most 5"]
OK = (ParseException, GrammarError)


def attempt(rec, fn, s, extra=()):
    """(result, None) or (None, error); anything but documented errors is a violation."""
    try:
        return fn(s), None
    except OK + tuple(extra) as e:
        return None, e
    except RecursionError:
        rec.fail("parsing failed with RecursionError", text=s)
    except Exception as e:
        rec.fail("malformed text is not reported by a ParseException or GrammarError",
                 text=s, error=repr(e))


def doc(rng, rules, imports):
    """A document as a list of parts."""
    v, cs, lang = names.header(rng)
    name = names.grammar_name(rng)
    if rng.random() < .06:
        name = rng.choice(BAD_GRAMMARS)
    if imports and rng.random() < .15:
        imports[rng.randrange(len(imports))] = rng.choice(BAD_IMPORTS)
    parts = [("header", "#JSGF V%s%s%s" % (v, cs and " " + cs, lang and " " + lang)),
             ("name", "grammar %s" % name)]
    parts += [("import", "import <%s>" % x) for x in imports]
    parts += [("rule", x) for x in rules]
    return parts


BAD_GRAMMARS = ["NULL", "VOID", "a..b", ".a", "a.", "a b", "a;b", "a<b", "", u"\u20ac", "*"]
BAD_IMPORTS = ["NULL", "a.NULL", "a.b.VOID", "a", "a.*.b", "*", "a.", ".a", "a b.c", "a..b",
               "a.b c", "a.**", "a.{b}", u"a.\u20ac", ""]
BAD_PARTS = set("grammar " + x for x in BAD_GRAMMARS) | \
    set("import <%s>" % x for x in BAD_IMPORTS)


def doc_valid(parts, rule_ok):
    """Whether parts (kind, text) form a document."""
    kinds = [k for k, _ in parts]
    n = kinds.count("import")
    want = ["header", "name"] + ["import"] * n
    rest = kinds[2 + n:]
    return (kinds[:2 + n] == want and not any(t in BAD_PARTS for _, t in parts) and len(rest) > 0 and set(rest) == {"rule"} and
            all(rule_ok.get(t, False) for k, t in parts if k == "rule"))


def case(rec, rng, i):
    words = vocab(rng)
    refs = ["a", "b", "com.x.y"]
    # Token mutations of expansions.
    for _ in range(3):
        toks = tokens(rng, words, refs, rng.choice([0, 1, 2]))
        if len(toks) > 40:
            continue
        toks = mutate(rng, toks, words, refs)
        if any(x[0] == "wt" and y[0] == "wt" for x, y in zip(toks, toks[1:])):
            continue      # '/1//2/' begins a comment
        try:
            n = RefParser(toks).parse()
        except Bad as e:
            n, why = None, str(e)
        s = text(rng, toks)
        if "//" in s or "/*" in s:
            continue
        e, err = attempt(rec, parse_expansion_string, s)
        rec.eval()
        if i < 3:
            rec.sample(s)
        if n is None:
            rec.require(err is not None, "malformed expansion text was accepted", text=s,
                        reason=why, parsed=e)
            rec.nontrivial(s)
            rec.event("malformed expansions")
        else:
            rec.require(err is None, "well-formed expansion text was rejected", text=s,
                        error=err)
            rec.event("well-formed expansions")
            if not partly_weighted(n) and no_equal_weighted(n):
                rec.require(items(from_jsgf(e)) == items(n), "the text was parsed with "
                            "another structure", text=s)
        full = "<r> = %s;" % s
        r, err2 = attempt(rec, parse_rule_string, full)
        rec.require((err is None) == (err2 is None), "a rule and its expansion are not "
                    "both accepted or rejected", text=full, error=err2)
        g = "#JSGF V1.0;\ngrammar g;\npublic %s\n" % full
        rec.require(valid_grammar(g) is (err is None), "valid_grammar disagrees with "
                    "the validity of a rule", text=g)

    # Documents.
    rule_ok, rules = {}, []
    for k in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        ok = True
        nm = rng.choice(["a", "b", "c", "d", "null"]) + str(k)
        e = text(rng, tokens(rng, words, refs, 1), wild=0)
        if r < .06:
            nm, ok = rng.choice(["NULL", "VOID", "x y", "", "x.y", "a<b", u"\u20ac"]), False
        elif r < .1:
            e, ok = rng.choice(["", "(", "a |", "<x", "a {t", "{t}", "|"]), False
        t = "%s<%s> = %s" % (rng.choice(["", "public ", "PUBLIC "]), nm, e)
        rules.append(t)
        rule_ok[t] = ok
    parts = doc(rng, rules, [names.import_name(rng) for _ in range(rng.choice([0, 0, 1]))])
    if rng.random() < .5:
        op = rng.randrange(3)
        p = rng.randrange(len(parts))
        if op == 0:
            del parts[p]
        elif op == 1:
            q = rng.randrange(len(parts))
            parts[p], parts[q] = parts[q], parts[p]
        else:
            parts.insert(rng.randrange(len(parts) + 1), parts[p])
    ts = [t for k, t in parts if k == "rule"]
    defs = [t.split("<", 1)[1].split(">")[0] for t in ts]
    want = doc_valid(parts, rule_ok)
    # The same name twice is only allowed for comparable rules; left open here.
    if len(set(defs)) == len(defs):
        s = ";\n".join(t for _, t in parts) + ";\n"
        g, err = attempt(rec, parse_grammar_string, s)
        rec.eval()
        rec.require((err is None) == want, "a document was wrongly %s" %
                    ("accepted" if err is None else "rejected"), text=s, error=err)
        rec.require(valid_grammar(s) is want, "valid_grammar is wrong about a document",
                    text=s)
        rec.event("documents: %s" % want)
        if not want:
            rec.nontrivial(s)
    elif len(set(ts)) == len(ts) and want:
        s = ";\n".join(t for _, t in parts) + ";\n"
        g, err = attempt(rec, parse_grammar_string, s)
        looks = {}
        for t, d in zip(ts, defs):
            r = parse_rule_string(t + ";")
            looks.setdefault(d, set()).add((r.visible, r.compile()))
        if any(len(set(v for v, _ in x)) > 1 for x in looks.values()):
            rec.require(err is not None, "rules of the same name but other visibility were "
                        "accepted", text=s)
            rec.event("different rules of the same name")

    # Character noise: only totality and agreement.
    base = ";\n".join(t for _, t in parts) + ";\n"
    chars = u"()[]{}<>|+*/;=.#\\ \n\tab\u00fc0'-\"\u20ac\x1a\x00" + "".join(words)[:6]
    for _ in range(4):
        s = list(base)
        for _ in range(rng.choice([1, 1, 2, 4, 12])):
            p = rng.randrange(len(s) + 1)
            op = rng.randrange(3)
            if op == 0 and p < len(s):
                del s[p]
            elif op == 1:
                s.insert(p, rng.choice(chars))
            elif p < len(s):
                s[p] = rng.choice(chars)
        s = "".join(s)
        if rng.random() < .1:
            s = "".join(rng.choice(chars) for _ in range(rng.randint(0, 30)))
        # A negative weight is reported by a TypeError.
        g, err = attempt(rec, parse_grammar_string, s, (TypeError,) if "-" in s else ())
        v = valid_grammar(s)
        rec.eval()
        rec.event("noise: %s" % ("accepted" if err is None else "rejected"))
        rec.require(v is (err is None), "valid_grammar disagrees with parsing", text=s,
                    valid=v, error=err)
        if rng.random() < .1:
            with open("noise.jsgf", "w", newline="") as f:
                f.write(s)
            g2, err2 = attempt(rec, parse_grammar_file, "noise.jsgf",
                               (TypeError,) if "-" in s else ())
            rec.event("noise in files")
            if "\r" not in s:
                rec.require((err is None) == (err2 is None) and (g2 is None or g2 == g),
                            "parsing a file differs from parsing its text", text=s)
        for fn, typ in ((parse_rule_string, Rule), (parse_expansion_string, Expansion)):
            part = rng.choice(s.split("\n")) if rng.random() < .8 else s
            x, err = attempt(rec, fn, part, (TypeError,) if "-" in part else ())
            rec.require(err is not None or isinstance(x, typ), "the result has a wrong "
                        "type", text=part, result=repr(x))
        if g is not None:
            rec.require(isinstance(g, Grammar), "the result has a wrong type", text=s)


def fixed(rec):
    for s in ("/-1/ a | /2/ b", "/1/ a | /-0.5/ b"):
        g = "#JSGF V1.0;\ngrammar g;\n<a> = %s;\n" % s
        rec.eval()
        rec.require(valid_grammar(g) is False, "a negative weight is valid", text=g)
        for fn, t in ((parse_grammar_string, g), (parse_expansion_string, s)):
            x, err = attempt(rec, fn, t, (TypeError,))
            rec.require(err is not None, "a negative weight was accepted", text=t)
    for s in ("", " ", "\n", ";", "#JSGF V1.0;", "#JSGF V1.0;\ngrammar g;\n"):
        rec.require(valid_grammar(s) is False, "a document without rules is valid",
                    text=repr(s))
