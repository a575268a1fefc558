"""Names, tags and other values: accepted as documented or rejected without effect."""
from jsgf import (Grammar, Rule, PublicRule, PrivateRule, Import, NamedRuleRef, NullRef,
                  VoidRef, GrammarError, Literal, Sequence, RequiredGrouping,
                  AlternativeSet, OptionalGrouping, Repeat, KleeneStar, parse_grammar_string)
from ..names import SPECIAL, base_name, grammar_name, import_name, qualified, tag_text
from ..gen import vocab, TAGS
from ..state import state, explain

TECHNIQUE = "runtime monitor of every way to set a value against its documented format"
LEVEL = "exploration"
QUICK, THOROUGH = 8000, 60000
RULE = ("valid names of every kind and the same with characters changed, added or left out, "
        "and values of other types, by constructors and by attributes; tags, texts, "
        "children, parents, match data of any type; non-trivial = distinct (kind, value)")
ASSUMPTIONS = []

ODD = [" ", "\t", "\n", "*", ".", "..", "<", ">", "{", "}", "'", '"', "?", "`", u"\u2028",
       u"\u00a0", u"\u2019", u"\u00bd", u"\u0661", u"\u4e00", u"e\u0301", "\x00", u"\U0001f600",
       u"\u20ac", u"\u00aa", "\\", ";", "-", "_"]
RESERVED = ("NULL", "VOID")


def is_word(c):
    return c.isalnum() or c == "_" or c in SPECIAL


def base(s):
    return bool(s) and all(is_word(c) for c in s)


def valid(kind, s):
    """The documented formats."""
    if not isinstance(s, str):
        return False
    if kind == "rule":
        return base(s) and s not in RESERVED
    parts = s.split(".")
    if kind == "reference":
        return all(base(p) for p in parts)
    if kind == "grammar":
        # Names end at semicolons in text.
        return all(base(p) and ";" not in p for p in parts) and s not in RESERVED
    # import
    return (len(parts) > 1 and all(base(p) for p in parts[:-1]) and
            (parts[-1] == "*" or base(parts[-1])) and parts[-1] not in RESERVED)


def names(rng, kind):
    r = rng.random()
    if r < .12:
        return rng.choice([None, 1, 0, 2.5, True, b"rule", ["r"], ("r",), object(), "", " ",
                           ".", "*", ".*", "a.", ".a", "a..b", "a.*.b", "*.a", "a*", "a .b",
                           "a. b", "NULL", "VOID", "null", "void", "NULL ", " VOID", "a.NULL",
                           "a.VOID", "NULL.a", "VOID.*", "NULLa", "aVOID", "NULL.VOID", "Null",
                           "a.*", "a.b.*", "a.**", "a.b*", "a.b.", "rule\n", "\trule", "<a>",
                           "a;b", "a;", ";", "a.b;c.d", "a;.b.c", "//", "/*"])
    s = {"rule": lambda: base_name(rng, comment_safe=False),
         "grammar": lambda: grammar_name(rng),
         "import": lambda: import_name(rng),
         "reference": lambda: qualified(rng, 1, 3, comment_safe=False)}[
             kind if rng.random() < .7 else
             rng.choice(["rule", "grammar", "import", "reference"])]()
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        p = rng.randint(0, len(s))
        k = rng.randrange(4)
        c = rng.choice(ODD) if rng.random() < .7 else chr(rng.choice(
            [rng.randrange(128), rng.randrange(0x500), rng.randrange(0xd800)]))
        if k < 2:
            s = s[:p] + c + s[p:]
        elif k == 2:
            s = s[:p] + c + s[p + 1:]
        else:
            s = s[:p] + s[p + 1:]
    return s


def maker(rng, kind):
    """(description, constructor, valid name)"""
    if kind == "rule":
        return rng.choice([("Rule", lambda n: Rule(n, rng.random() < .5, "a")),
                           ("PublicRule", lambda n: PublicRule(n, "a")),
                           ("PrivateRule", lambda n: PrivateRule(n, "a"))]) + ("r1",)
    if kind == "grammar":
        return "Grammar", Grammar, "g1"
    if kind == "import":
        return "Import", Import, "g.r1"
    return "NamedRuleRef", NamedRuleRef, "r1"


def check_name(rec, rng):
    kind = rng.choice(["rule", "grammar", "import", "reference"])
    what, make, old = maker(rng, kind)
    s = names(rng, kind)
    ok = valid(kind, s)
    rec.eval()
    rec.nontrivial(kind, repr(s))
    rec.event("%s names %s" % (kind, "accepted" if ok else "rejected"))

    def attempt(fn, how):
        try:
            r = fn()
        except GrammarError:
            if ok:
                rec.fail("a valid name was rejected", kind=what, by=how, name=repr(s))
            return None
        if not ok:
            rec.fail("an invalid name was accepted", kind=what, by=how, name=repr(s))
        return r

    def named(x):
        if x.name != s:
            rec.fail("another name", kind=what, name=repr(s), got=repr(x.name))
        if kind == "import":
            g, r = s.rsplit(".", 1)
            if (x.grammar_name, x.rule_name, x.wildcard_import) != (g, r, r == "*"):
                rec.fail("the parts of an import name differ", name=repr(s),
                         got=repr((x.grammar_name, x.rule_name, x.wildcard_import)))
            if x.compile() != "import <%s>;" % s:
                rec.fail("the text of an import differs", name=repr(s), got=x.compile())
        if kind == "reference" and x.compile() != "<%s>" % s:
            rec.fail("the text of a reference differs", name=repr(s), got=x.compile())
        if kind == "grammar" and x.compile() != "#JSGF V1.0;\ngrammar %s;\n" % s:
            rec.fail("the text of a grammar differs", name=repr(s), got=x.compile())

    x = attempt(lambda: make(s), "constructor")
    if x is not None:
        named(x)
    y = make(old)
    g = None
    if kind == "rule" and rng.random() < .5:
        g = Grammar(rng.choice(["g", "a.b.c", ".".join(rng.choice(["a", "b", "c1"])
                                                       for _ in range(rng.randint(1, 6)))]))
        g.add_rule(y)

    def rename():
        y.name = s
        return y
    if attempt(rename, "attribute") is None:
        if y.name != old:
            rec.fail("a rejected name was set", kind=what, name=repr(s), got=repr(y.name))
    else:
        named(y)
    if kind == "rule":
        full = g.name + "." if g else ""
        last = full.split(".")[-2] + "." if full else ""
        got = (y.qualified_name, y.fully_qualified_name)
        if got != (last + y.name, full + y.name):
            rec.fail("qualified names differ", name=y.name, got=repr(got),
                     grammar=g.name if g else None)
        if g:
            g.name = rng.choice(["x.y", "y", "z.z.x.x.y"])
            got = (y.qualified_name, y.fully_qualified_name)
            if got != ("y." + y.name, g.name + "." + y.name):
                rec.fail("qualified names differ after the grammar was renamed",
                         got=repr(got))
            g.remove_rule(y)
            if (y.qualified_name, y.fully_qualified_name) != (y.name, y.name):
                rec.fail("a removed rule has qualified names", got=repr(got))
            try:
                g.get_rule(y.name)
            except GrammarError:
                pass
            else:
                rec.fail("a removed rule is found", name=y.name)
    for cls in (Rule, Grammar, Import, NamedRuleRef):
        k = {Rule: "rule", Grammar: "grammar", Import: "import",
             NamedRuleRef: "reference"}[cls]
        if bool(cls.valid(s)) is not valid(k, s):
            rec.fail("valid() differs", kind=cls.__name__, name=repr(s))
    for cls, n in ((NullRef, "NULL"), (VoidRef, "VOID")):
        if bool(cls.valid(s)) is not (s == n):
            rec.fail("valid() differs", kind=cls.__name__, name=repr(s))
        z = cls()
        try:
            z.name = s
        except GrammarError:
            if s == n:
                rec.fail("a valid name was rejected", kind=cls.__name__)
        else:
            if s != n:
                rec.fail("a special reference was renamed", kind=cls.__name__, name=repr(s))
        if z.name != n or z.compile() != "<%s>" % n:
            rec.fail("a special reference has another name", got=repr(z.name))


def an_expansion(rng):
    return rng.choice([lambda: Literal("a"), lambda: Sequence("a", "b"), NullRef,
                       lambda: RequiredGrouping("a"), lambda: AlternativeSet("a", "b"),
                       lambda: OptionalGrouping("a"), lambda: Repeat("a"),
                       lambda: KleeneStar("a"), lambda: NamedRuleRef("a")])()


WRONG = [1, 2.5, b"a", ["a"], ("a",), {"a": 1}, object(), True, Ellipsis]


def check_tag(rec, rng):
    e = an_expansion(rng)
    for _ in range(rng.choice([1, 1, 2, 5])):
        set_tag(rec, rng, e)


def set_tag(rec, rng, e):
    old = e.tag = rng.choice(["", "t"])
    if rng.random() < .25:
        v = rng.choice(WRONG)
        ok, want = False, old
    elif rng.random() < .2:
        v = rng.choice([None, "", " ", "\n\t "])
        ok, want = True, ""
    else:
        s = tag_text(rng)
        if rng.random() < .2:
            s = s.replace(" ", rng.choice(["  ", "\t"]))
        v = rng.choice(["", " ", "\n", "\t  "]) + s + rng.choice(["", " ", "\n", "\t  "])
        ok, want = True, s
    rec.eval()
    rec.nontrivial("tag", repr(v))
    try:
        e.tag = v
    except TypeError:
        if ok:
            rec.fail("a tag was rejected", tag=repr(v))
    else:
        if not ok:
            rec.fail("a tag of a wrong type was accepted", tag=repr(v))
    if e.tag != want:
        rec.fail("another tag", set_to=repr(v), got=repr(e.tag), want=repr(want))
    esc = "".join("\\" + c if c in "\\{}" else c for c in want)
    t = " { %s }" % esc if want else ""
    bare = e.compile(True)
    if e.compiled_tag != t or e.compile() not in (bare + t, "(%s)%s" % (bare, t)):
        rec.fail("the text of a tag differs", tag=repr(want), got=repr(e.compiled_tag),
                 text=e.compile())
    rec.event("tags")


def check_text(rec, rng):
    words = vocab(rng)
    s = rng.choice(["", " ", "a", "A b", " ".join(rng.choice(words) for _ in range(3)),
                    " a  b ", "\ta\n"])
    v, ok = (s, True) if rng.random() < .6 else (rng.choice(WRONG + [None]), False)
    cs = rng.random() < .4
    rec.eval()
    rec.nontrivial("text", repr(v))

    def attempt(fn):
        try:
            r = fn()
        except TypeError:
            if ok:
                rec.fail("a text was rejected", text=repr(v))
            return None
        if not ok:
            rec.fail("a text of a wrong type was accepted", text=repr(v))
        return r
    x = attempt(lambda: Literal(v, cs))
    y = Literal("Old", cs)

    def assign():
        y.text = v
        return y
    if attempt(assign) is None and y.text != ("Old" if cs else "old"):
        rec.fail("a rejected text was set", text=repr(v), got=y.text)
    for z in (x, y):
        if ok and z.text != (v if cs else v.lower()):
            rec.fail("another text", text=repr(v), got=repr(z.text), case_sensitive=cs)
    rec.event("texts")


def check_match(rec, rng):
    """Matches set are words with single spaces; without any, the expansion did not match."""
    e = an_expansion(rng)
    opt = isinstance(e, (OptionalGrouping, KleeneStar, NullRef))
    for _ in range(rng.choice([0, 0, 1, 2])):
        w = rng.choice([Sequence, OptionalGrouping, RequiredGrouping])
        opt = opt or w is OptionalGrouping
        Rule("r", True, w(e)) if rng.random() < .3 and e.parent is None else w(
            e if e.parent is None else e.root_expansion)
    if isinstance(e, NullRef):
        return
    ws = [rng.choice(["a", "b", "Lorem", u"\u00fc", "0"]) for _ in range(rng.randrange(4))]
    space = [" ", "  ", "\t", "\n", " \t ", "\r\n", u"\u3000"]
    v = rng.choice(["", "", " ", "\t"]) + rng.choice(space).join(ws) + \
        rng.choice(["", "", " ", "\n"])
    if rng.random() < .1:
        v, ws = None, []
    e.current_match = v
    want = " ".join(ws) or ("" if opt else None)
    rec.eval()
    rec.nontrivial("match", str(e), repr(v))
    if e.current_match != want:
        rec.fail("another match", expansion=str(e.root_expansion), set_to=repr(v),
                 got=repr(e.current_match), want=repr(want))
    rec.event("matches set")


def check_other(rec, rng):
    """Children, parents, rules and match data of wrong types."""
    e = an_expansion(rng)
    top = Sequence("x", e)
    r = Rule("r", True, top)
    g = Grammar("g")
    g.add_rules(r, Rule("a", False, "a"))
    us = ["x a", "x a b", "x", "x a a"]
    want = [r.matches(u) for u in us]
    r.matches("x a")
    before = state(g, [])
    v = rng.choice(WRONG + ["s"])
    tries = [("children", lambda: setattr(e, "children", v)
              if not isinstance(v, (list, tuple)) else setattr(e, "children", [1])),
             ("child type", lambda: setattr(e, "children", ["a", rng.choice([1, None])])),
             ("parent", lambda: setattr(e, "parent", v)),
             ("matching_slice", lambda: setattr(e, "matching_slice", v)),
             ("constructor", lambda: rng.choice([Sequence, RequiredGrouping, AlternativeSet,
                                                 OptionalGrouping, Repeat, KleeneStar])(
                                                     rng.choice([1, None, b"a", ["a"]]))),
             ("rule expansion", lambda: setattr(r, "expansion", 5)),
             ("rule", lambda: Rule("r", True, rng.choice([None, 1, ["a"]])))]
    if not isinstance(v, str) and not isinstance(e, NullRef):
        tries.append(("current_match", lambda: setattr(e, "current_match", v)))
    what, fn = rng.choice(tries)
    rec.eval()
    rec.nontrivial(what, repr(v), str(e))
    try:
        fn()
    except TypeError:
        pass
    else:
        rec.fail("a value of a wrong type was accepted", what=what, value=repr(v),
                 expansion=str(e))
    after = state(g, [])
    if after != before:
        rec.fail("a rejected value changed something", what=what, value=repr(v),
                 difference=explain(before, after))
    got = [r.matches(u) for u in us]
    if r.expansion is not top or got != want:
        rec.fail("a rejected value has an effect on matching", what=what, expansion=str(e))
    rec.event("values of wrong types")


def case(rec, rng, i):
    for _ in range(6):
        check_name(rec, rng)
    check_tag(rec, rng)
    check_tag(rec, rng)
    check_text(rec, rng)
    check_match(rec, rng)
    check_other(rec, rng)
    if i < 3:
        rec.sample([names(rng, "import") for _ in range(5)])
