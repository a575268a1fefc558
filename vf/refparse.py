"""
Reference parser for expansions, working on token lists:
  ("w", word) ("ref", name) ("(") (")") ("[") ("]") ("|") ("+") ("*") ("tag", text)
  ("wt", number)
Follows the precedence rules of the JSGF specification, section 4.7, with the documented
extension that consecutive words are one literal.
"""
from .model import Node, LIT, SEQ, REQ, ALT, OPT, REP, STAR, REF, NULL, VOID


class Bad(Exception):
    pass


class RefParser(object):
    def __init__(self, toks):
        self.t = toks
        self.p = 0

    def peek(self):
        return self.t[self.p] if self.p < len(self.t) else ("end",)

    def next(self):
        x = self.peek()
        self.p += 1
        return x

    def parse(self):
        n = self.alts()
        if self.peek()[0] != "end":
            raise Bad("trailing %r" % (self.peek(),))
        return n

    def alts(self):
        parts = [self.wseq()]
        while self.peek()[0] == "|":
            self.next()
            parts.append(self.wseq())
        if len(parts) == 1:
            if parts[0][0] is not None:
                raise Bad("weight outside of alternatives")
            return parts[0][1]
        n = Node(ALT, [b for _, b in parts])
        ws = [a for a, _ in parts]
        if any(w is not None for w in ws):
            n.weights = ws            # may contain None: partly weighted
        return n

    def wseq(self):
        w = None
        if self.peek()[0] == "wt":
            w = self.next()[1]
        items = [self.item()]
        while self.peek()[0] in ("w", "ref", "(", "["):
            items.append(self.item())
        if self.peek()[0] == "wt":
            raise Bad("weight inside a sequence")
        return w, (items[0] if len(items) == 1 else Node(SEQ, items))

    def item(self):
        k = self.peek()[0]
        if k == "w":
            ws = []
            while self.peek()[0] == "w":
                ws.append(self.next()[1])
            n = Node(LIT, text=" ".join(ws))
        elif k == "ref":
            name = self.next()[1]
            n = Node(NULL) if name == "NULL" else Node(VOID) if name == "VOID" else \
                Node(REF, text=name)
        elif k in ("(", "["):
            self.next()
            n = Node(REQ if k == "(" else OPT, [self.alts()])
            if self.next()[0] != {"(": ")", "[": "]"}[k]:
                raise Bad("unbalanced")
        else:
            raise Bad("expected an expansion, found %r" % k)
        rep = False
        while True:
            k = self.peek()[0]
            if k in "+*":
                self.next()
                n = Node(REP if k == "+" else STAR, [n])
                rep = True
            elif k == "tag":
                if rep:
                    raise Bad("tagged repeat")
                t = self.next()[1]
                if n.tag:
                    n = Node(REQ, [n])
                n.tag = t
            else:
                return n


def partly_weighted(n):
    return any(x.weights is not None and any(w is None for w in x.weights)
               for x in n.walk())


# -- token generation ------------------------------------------------------------
def tokens(rng, words, refs, depth, weights=True, tag=None):
    """Random well-formed tokens of an expansion."""
    tag = tag or (lambda: "t%d" % rng.randrange(9))

    def alts(d, top=False):
        n = rng.choice([1, 1, 1, 2, 2, 3, 4])
        out = []
        wt = n > 1 and weights and rng.random() < .35
        for i in range(n):
            if i:
                out.append(("|",))
            if wt:
                out.append(("wt", rng.choice([0, 1, 2, 10, 0.5, 3.25, 100, 1e-3, 7])))
            for _ in range(rng.choice([1, 1, 2, 3])):
                out += item(d)
        return out

    def item(d):
        r = rng.random()
        if d <= 0 or r < .4:
            out = [("w", rng.choice(words)) for _ in range(rng.choice([1, 1, 2]))]
        elif r < .55:
            out = [("ref", rng.choice(refs + ["NULL", "VOID", "NULL"]))]
        elif r < .8:
            out = [("(",)] + alts(d - 1) + [(")",)]
        else:
            out = [("[",)] + alts(d - 1) + [("]",)]
        r = rng.random()
        if r < .15:
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                out.append(("tag", tag()))
        if rng.random() < .2:
            out.append((rng.choice("+*"),))
            if rng.random() < .1:
                out.append((rng.choice("+*"),))
        return out
    return alts(depth, True)


def mutate(rng, toks, words, refs):
    toks = list(toks)
    for _ in range(rng.choice([1, 1, 2])):
        op = rng.randrange(4)
        p = rng.randrange(len(toks)) if toks else 0
        any_tok = rng.choice([("(",), (")",), ("[",), ("]",), ("|",), ("+",), ("*",),
                              ("tag", "t1"), ("wt", rng.choice([5, 1, 1, 0, 2.5])), ("w", rng.choice(words)),
                              ("ref", "NULL")])
        if op == 0 and toks:
            del toks[p]
        elif op == 1:
            toks.insert(p, any_tok)
        elif op == 2 and toks:
            toks[p] = any_tok
        elif toks:
            q = rng.randrange(len(toks))
            toks[p], toks[q] = toks[q], toks[p]
    if toks and rng.random() < .12:
        # An odd number of slashes is never well-formed.
        wts = [i for i, t in enumerate(toks) if t[0] == "wt"]
        if wts and rng.random() < .7:
            p = rng.choice(wts)
            toks[p] = ("bad", rng.choice([tok_text(toks[p])[1:], tok_text(toks[p])[:-1]]))
        else:
            toks.insert(rng.randrange(len(toks) + 1),
                        ("bad", rng.choice(["/", "/5", "5/", "/1", "1/"])))
    return toks


# -- text ------------------------------------------------------------------------
SPACES = [" ", "  ", "\t", "\n", " \n ", "\r\n"]
COMMENTS = ["/* c */", "// c\n", "/* a\n b; <x> = | { ( */", "/**/", "/* // */",
            "// /* public <x> = y;\n", "/*** ***/", "// \n"]


def sp(rng, need, comments, newlines=True, wild=.25):
    """White space (and comments) between tokens."""
    if rng.random() > wild:
        return " " if need or rng.random() < .5 else ""
    out = ""
    for _ in range(rng.choice([1, 1, 2])):
        s = rng.choice(SPACES)
        if not newlines:
            s = rng.choice([" ", "  ", "\t"])
        out += s
        if comments and rng.random() < .4:
            c = rng.choice(COMMENTS)
            if not newlines:
                c = rng.choice(["/* c */", "/**/"])
            out += c
    if need and not out.strip(" \t\r\n"):
        return out or " "
    return out if out or not need else " "


def tok_text(t):
    k = t[0]
    if k == "w":
        return t[1]
    if k == "ref":
        return "<%s>" % t[1]
    if k == "tag":
        return "{ %s }" % t[1].replace("\\", "\\\\").replace("{", "\\{").replace(
            "}", "\\}")
    if k == "bad":
        return t[1]
    if k == "wt":
        w = t[1]
        return "/%s/" % (("%d" % w) if w == int(w) and w < 1000 else repr(w))
    return k


def text(rng, toks, comments=False, wild=.25):
    out = ""
    for i, t in enumerate(toks):
        prev = toks[i - 1][0] if i else None
        if i:
            out += sp(rng, prev == "w" and t[0] == "w", comments, wild=wild)
        out += tok_text(t)
    return out
