"""Random nodes, rules and utterances."""
import random

from .model import (Node, LIT, SEQ, REQ, ALT, OPT, REP, STAR, REF, NULL, VOID, DICT)

PLAIN = ["alpha", "bravo", "charlie", "delta", "echo"]
TRICKY = ["the", "theatre", "other", "he", "don't", "don", "x-ray", "x", "ray", "100",
          "10", "a", "an", "and", "stop", "top"]
UNI = [u"z\u00fcrich", u"na\u00efve", u"\u65e5\u672c", u"\u043f\u0440\u0438\u0432\u0435\u0442",
       u"stra\u00dfe", u"\u00e9t\u00e9", u"\u03c3\u03bf\u03c6\u03cc"]
MIXED = ["Alpha", "BRAVO", "McCoy", "iPhone", u"Z\u00fcrich"]
# Names of rules: neither their lengths nor their order mean anything.
NAMES = ["r0", "r10", "q", "Zeta", "a_longer_name", "b-2", "zz", "move", "x1x", "OPT"]
TAGS = ["t%d" % i for i in range(60)]


def vocab(rng, n=None, kinds=None):
    n = n or rng.choice([1, 2, 2, 3, 3, 4])
    pool = list(rng.choice(kinds or [PLAIN, PLAIN, TRICKY, TRICKY, UNI, MIXED,
                                     PLAIN + TRICKY, PLAIN + UNI + MIXED]))
    rng.shuffle(pool)
    return pool[:n]


class Cfg(object):
    """What a generated tree may contain."""
    def __init__(self, **kw):
        self.depth = 3
        self.refs = ()          # names usable as references
        self.p_tag = 0.0
        self.p_weight = 0.25
        self.p_cs = 0.0
        self.p_multi = 0.2      # multi-word literals
        self.special = 0.06     # NULL / VOID
        self.nullable_reps = True
        self.only_branch = True  # repeat of nothing but a repeat
        self.reps = True
        self.opts = True
        self.dict = 0.0
        self.zero_weight = 0.15
        self.maxkids = 4
        self.tagset = None
        self.uniq_tags = False
        self.childless = 0.0
        self.round_trip = False  # only shapes with a textual form
        self.__dict__.update(kw)
        self.tag_i = 0

    def tag(self, rng):
        if rng.random() >= self.p_tag:
            return ""
        if self.uniq_tags:
            self.tag_i += 1
            return "u%d" % self.tag_i
        return rng.choice(self.tagset or TAGS)


def eqkey(n):
    """Key under which the library may consider two expansions equal."""
    if n.kind == ALT:
        ws = n.weights or [None] * len(n.kids)
        return ("alt", frozenset((eqkey(k), w) for k, w in zip(n.kids, ws)))
    t = n.text
    if n.kind == LIT and not n.cs:
        t = t.lower()
    return (n.kind, t, n.cs, tuple(eqkey(k) for k in n.kids))


def nullable(n, env=None):
    k = n.kind
    if k in (OPT, STAR, NULL):
        return True
    if k in (SEQ, REQ):
        return all(nullable(c, env) for c in n.kids)
    if k == ALT:
        return not n.kids or any(nullable(c, env) for c in n.kids)
    if k == REP:
        return not n.kids or nullable(n.kids[0], env)
    if k == REF:
        return env is None or n.text not in env or nullable(env[n.text], env)
    return False


def literal(rng, words, cfg):
    n = 1
    if rng.random() < cfg.p_multi:
        n = rng.choice([2, 2, 3])
    return Node(LIT, text=" ".join(rng.choice(words) for _ in range(n)),
                cs=rng.random() < cfg.p_cs, tag=cfg.tag(rng))


def tree(rng, words, cfg, depth=None, top=True):
    d = cfg.depth if depth is None else depth
    r = rng.random()
    if d <= 0 or (not top and r < 0.22):
        r2 = rng.random()
        if r2 < cfg.special:
            return Node(rng.choice([NULL, NULL, VOID]), tag=cfg.tag(rng))
        if cfg.refs and r2 < cfg.special + 0.22:
            return Node(REF, text=rng.choice(cfg.refs), tag=cfg.tag(rng))
        if r2 > 1 - cfg.dict:
            return Node(DICT, tag=cfg.tag(rng))
        return literal(rng, words, cfg)
    kinds = [SEQ] * 5 + [ALT] * 5 + [REQ] * 2
    if cfg.opts:
        kinds += [OPT] * 3
    if cfg.reps:
        kinds += [REP] * 3 + [STAR] * 2
    k = rng.choice(kinds)
    tag = cfg.tag(rng)
    if cfg.childless and rng.random() < cfg.childless and k in (SEQ, REQ, ALT):
        return Node(k, [], tag=tag)
    if k in (SEQ, REQ, ALT):
        lo = 2 if k == ALT else 1
        n = rng.randint(lo, max(lo, cfg.maxkids))
        kids = [tree(rng, words, cfg, d - 1, False) for _ in range(n)]
        w = None
        if k == ALT and rng.random() < cfg.p_weight:
            seen, uniq = set(), []
            for c in kids:
                kk = eqkey(c)
                if kk not in seen:
                    seen.add(kk)
                    uniq.append(c)
            kids = uniq
            w = [0.0 if rng.random() < cfg.zero_weight else
                 float(rng.choice([1, 2, 3, 5, 10, 0.5, 0.25, 100])) for _ in kids]
        return Node(k, kids, tag=tag, weights=w)
    c = tree(rng, words, cfg, d - 1, False)
    if k in (REP, STAR):
        for _ in range(6):
            bad = (not cfg.nullable_reps and nullable(c)) or \
                (not cfg.only_branch and only_branch_rep(c))
            if not bad:
                break
            c = tree(rng, words, cfg, d - 1, False)
        else:
            c = literal(rng, words, cfg)
    return Node(k, [c], tag=tag)


def only_branch_rep(c):
    """Whether a repetition of c would have a repetition as its only branch."""
    while True:
        if c.kind in (REP, STAR):
            return True
        if len(c.kids) != 1:
            return False
        c = c.kids[0]


def has_only_branch(n, inside=False):
    for x in n.walk():
        if x.kind in (REP, STAR) and x.kids and only_branch_rep(x.kids[0]):
            return True
    return False


def grammar_nodes(rng, cfg=None, nrules=None, **kw):
    """
    An acyclic set of rules: list of (name, node), later ones referencing earlier ones.
    """
    n = nrules if nrules is not None else rng.choice([1, 1, 1, 2, 2, 3, 4])
    words = vocab(rng)
    out = []
    if cfg is None:
        kw.setdefault("p_tag", rng.choice([0, .1, .3]))
        cfg = Cfg(**kw)
    names = ["r%d" % i for i in range(n)]
    if rng.random() < .5:
        names = rng.sample(NAMES, n)
    for i in range(n):
        cfg.refs = tuple(x for x, _ in out)
        cfg.depth = rng.choice([1, 2, 2, 3, 3, 4]) if i == n - 1 else rng.choice([1, 1, 2])
        t = tree(rng, words, cfg)
        if out and rng.random() < .12:
            t = rng.choice(out)[1].clone()  # several rules can say the same
        out.append((names[i], t))
    return words, out


def respell(rng, words, cs_safe=False):
    """Turn words into an utterance, varying spacing and (unless cs_safe) case."""
    out = []
    for w in words:
        if not cs_safe:
            r = rng.random()
            if r < .1:
                w2 = w.upper()
            elif r < .2:
                w2 = w.title()
            elif r < .3:
                w2 = "".join(c.upper() if rng.random() < .5 else c for c in w)
            else:
                w2 = w
            if len(w2) == len(w):
                w = w2
        out.append(w)
    if rng.random() < .75:
        return " ".join(out)
    s = rng.choice(["", " ", "\t", "  "])
    for i, w in enumerate(out):
        if i:
            s += rng.choice([" ", "  ", " \t ", "\n", "   "])
        s += w
    return s + rng.choice(["", " ", "\n", "  "])


def utterances(rng, lang, node, words, n=8, more=0.55):
    """Word lists: sentences, near-sentences and random ones."""
    out = []
    for _ in range(n):
        r = rng.random()
        s = lang.sample(node, rng, more) if r < .8 else None
        if s is None:
            s = [rng.choice(words).split()[0] for _ in range(rng.randint(0, 4))]
        s = list(s)
        if len(s) > 14:
            s = s[:14]
        r = rng.random()
        if r < .35 and s:
            op = rng.randrange(5)
            p = rng.randrange(len(s))
            if op == 0:
                del s[p]
            elif op == 1:
                s.insert(p, rng.choice(words))
            elif op == 2:
                s[p] = rng.choice(words)
            elif op == 3:
                q = rng.randrange(len(s))
                s[p], s[q] = s[q], s[p]
            else:
                s.append(rng.choice(words + ["zulu"]))
        elif r < .4:
            s = s[:rng.randint(0, len(s))]
        elif r < .43 and s:
            p = rng.randrange(len(s))
            s[p] = s[p] + rng.choice(["s", "x", "-y", "'s"])
        out.append([w for x in s for w in x.split()])
    if rng.random() < .3:
        out.append([])
    return out


def rng_for(*parts):
    return random.Random(":".join(str(p) for p in parts))
