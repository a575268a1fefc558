"""
Normal form of expansions: what their text means, ignoring redundant grouping.

items(n) is a tuple of sequence items; two expansions with equal items describe the same
sentences and attach the same tags to the same parts of them.
"""
from .model import LIT, SEQ, REQ, ALT, OPT, REP, STAR, REF, NULL, VOID, DICT


def begins_with_word(it):
    while it[0] == "tag" and it[2]:
        it = it[2][0]
    return it[0] == "w"


def fold(seq):
    """'a b {t}' attaches t to 'a b', so words before a tagged word belong to it."""
    out = []
    for it in seq:
        if it[0] == "tag" and begins_with_word(it):
            pre = []
            while out and out[-1][0] == "w":
                pre.insert(0, out.pop())
            if pre:
                it = ("tag", it[1], fold(tuple(pre) + it[2]))
        out.append(it)
    return tuple(out)


def weight(w):
    return float("%.4f" % w)


def items(n, tags=True, cs=False):
    k = n.kind
    if k == LIT:
        t = n.text if cs else n.text.lower()
        out = tuple(("w", x) for x in t.split())
    elif k in (SEQ, REQ):
        seq = []
        for c in n.kids:
            seq += items(c, tags, cs)
        out = fold(seq) if n.kids else (("null",),)
    elif k == ALT:
        if not n.kids:
            out = (("null",),)
        elif len(n.kids) == 1 and n.weights is None:
            out = items(n.kids[0], tags, cs)
        else:
            alts = []
            for i, c in enumerate(n.kids):
                it = items(c, tags, cs)
                if n.weights is not None:
                    alts.append((weight(n.weights[i]), it))
                elif len(it) == 1 and it[0][0] == "alt" and \
                        all(x[0] is None for x in it[0][1]):
                    alts += list(it[0][1])
                else:
                    alts.append((None, it))
            out = (("alt", tuple(alts)),)
    elif k in (OPT, REP, STAR):
        out = ((k, items(n.kids[0], tags, cs) if n.kids else (("null",),)),)
    elif k == REF:
        out = (("ref", n.text),)
    elif k == NULL:
        out = (("null",),)
    elif k == VOID:
        out = (("void",),)
    else:
        raise ValueError(k)
    if n.tag and tags:
        out = (("tag", n.tag, out),)
    return out
