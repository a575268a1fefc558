"""Names of rules, grammars and imports; header values; tags."""
SPECIAL = "+-:;,=|/\\()[]@#%!^&~$"
ALNUM = u"abcdefgzABZ0189_\u00fc\u00df\u65e5\u043f\u03c3\u00e9"


def base_name(rng, semicolon=True, comment_safe=True):
    while True:
        r = rng.random()
        if r < .3:
            s = rng.choice(["rule", "Rule", "r1", "test_1", "null", "void", "NULLx", "public",
                            "grammar", "import", "x", "1+2=3", "$100", "hello",
                            u"Z\u00fcrich", "VOID1", "aNULL"])
        else:
            n = rng.choice([1, 2, 3, 5, 9])
            s = "".join(rng.choice(ALNUM if rng.random() < .6 else SPECIAL)
                        for _ in range(n))
        if not semicolon and ";" in s:
            continue
        if comment_safe and (s.startswith("//") or s.startswith("/*")):
            continue
        if s in ("NULL", "VOID"):
            continue
        return s


def qualified(rng, lo=2, hi=4, **kw):
    return ".".join(base_name(rng, **kw) for _ in range(rng.randint(lo, hi)))


def grammar_name(rng):
    r = rng.random()
    if r < .4:
        return rng.choice(["g", "test", "com.example.grammar", "default", "a.b"])
    return ".".join(base_name(rng, semicolon=False) for _ in range(rng.choice([1, 1, 2, 3])))


def import_name(rng):
    g = qualified(rng, 1, 3)
    last = "*" if rng.random() < .4 else base_name(rng)
    return "%s.%s" % (g, last)


def header(rng):
    v = rng.choice(["1.0", "1.0", "1.0", "2.0", "1", "0.9", "10.25"])
    cs, lang = rng.choice([("", ""), ("", "en"), ("UTF-8", "en"), ("UTF-8", ""),
                           ("ISO-8859-1", "de"), ("UTF-8", "en-US"), ("utf8", "eng"),
                           ("windows-1252", "ja"), ("utf-8", ""), ("latin1", ""),
                           ("utf-8", "fr"), ("en", "en"), ("x", "x")])
    return v, cs, lang


TAG_WORDS = ["t", "tag", "a-b", "it's", "{", "}", "\\", "{x}", "\\{", "}{", "x\\", "\\\\",
             u"\u00fc\u65e5", "123", "0", "None", "False", "T", "'", "-", "_", "{{", "a\\}b"]


def tag_text(rng):
    return " ".join(rng.choice(TAG_WORDS) for _ in range(rng.choice([1, 1, 1, 2, 3])))
