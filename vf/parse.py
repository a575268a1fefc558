"""
Expected and observed match data.

`derive` computes the documented greedy reading as an explicit derivation; `verify`
checks that the data the library reports is *a* consistent derivation, whatever it is.
"""
from .model import (LIT, SEQ, REQ, ALT, OPT, REP, STAR, REF, NULL, VOID, DICT,
                    kids_or_null)
from .lang import word_eq


class D(object):
    """One node's part in a derivation: words [i, j)."""
    __slots__ = ("n", "i", "j", "kids", "reps")

    def __init__(self, n, i, j, kids=(), reps=None):
        self.n, self.i, self.j = n, i, j
        self.kids = list(kids)      # D's of children that took part
        self.reps = reps            # list of D's of the child, for repetitions


class Deriver(object):
    def __init__(self, env=None):
        self.env = env or {}
        self.tie = False            # the reading depended on an unspecified choice

    def run(self, node, words):
        self.tie = False
        d = self.go(node, words, 0)
        return d

    def go(self, n, words, i):
        k = n.kind
        if k == LIT:
            lw = n.text.split()
            if (i + len(lw) <= len(words) and
                    all(word_eq(a, b, n.cs) for a, b in zip(lw, words[i:]))):
                return D(n, i, i + len(lw))
            return None
        if k in (SEQ, REQ):
            kids = []
            j = i
            for c in n.kids:
                d = self.go(c, words, j)
                if d is None:
                    return None
                kids.append(d)
                j = d.j
            return D(n, i, j, kids)
        if k == ALT:
            if not n.kids:
                return D(n, i, i)
            best = []
            for idx, c in enumerate(n.kids):
                w = n.weights[idx] if n.weights is not None else 1.0
                if not w > 0:
                    continue
                save = self.tie
                self.tie = False
                d = self.go(c, words, i)
                t, self.tie = self.tie, save
                if d is not None:
                    best.append((d.j, w, t, d))
            if not best:
                return None
            top = max(b[0] for b in best)
            best = [b for b in best if b[0] == top]
            # Which of equally long alternatives is chosen is not specified.
            if len(best) > 1 and top > i:
                self.tie = True
            if best[0][2]:
                self.tie = True
            return D(n, i, top, [best[0][3]])
        if k == OPT:
            d = self.go(n.kids[0], words, i) if n.kids else None
            return D(n, i, d.j, [d]) if d else D(n, i, i)
        if k in (REP, STAR):
            reps = []
            j = i
            while n.kids:
                d = self.go(n.kids[0], words, j)
                if d is None:
                    break
                if d.j == j:
                    if k == REP and not reps:
                        return D(n, i, i, [d], [])
                    break
                reps.append(d)
                j = d.j
            if not reps and k == REP and n.kids:
                return None
            return D(n, i, j, reps[-1:], reps)
        if k == REF:
            d = self.go(self.env[n.text], words, i)
            return D(n, i, d.j, [d]) if d else None
        if k == NULL:
            return D(n, i, i)
        return None


def spans(words):
    """Character span of each word in the single-spaced utterance."""
    out, p = [], 0
    for w in words:
        out.append((p, p + len(w)))
        p += len(w) + 1
    return out


def char_slice(sp, i, j):
    return (sp[i][0], sp[j - 1][1])


def expected(deriv, out=None):
    """
    node id -> (i, j) for local nodes that matched words, using the last repetition.
    References are not followed.
    """
    out = {} if out is None else out
    if deriv.j > deriv.i:
        out[id(deriv.n)] = (deriv.i, deriv.j)
        if deriv.n.kind == REF:
            return out
        for d in deriv.kids:
            expected(d, out)
    return out


def observed(n):
    o = n.obj
    return o.current_match, o.matching_slice


class Inconsistent(Exception):
    pass


def need(cond, msg, *args):
    if not cond:
        raise Inconsistent(msg % args)


class Verifier(object):
    """Check reported data against the words of the utterance."""
    def __init__(self, words, env_nodes=None, follow=(), get=observed, nullable=None):
        self.words = words
        self.text = " ".join(words)
        sp = spans(words)
        self.start = {a: i for i, (a, _) in enumerate(sp)}
        self.stop = {b: i + 1 for i, (_, b) in enumerate(sp)}
        self.env = env_nodes or {}
        self.follow = set(follow)   # names of rules referenced exactly once
        self.get = get
        self.nullable = nullable
        self.checked = 0

    def span(self, n):
        """(i, j) words, or None if nothing was matched."""
        cm, sl = self.get(n)
        need(cm is None or hasattr(cm, "upper"), "%s: matched text is %r", n.show(), cm)
        if not cm:
            need(sl is None or sl.start == sl.stop,
                 "%s: no matched text, but its position is %r", n.show(), sl)
            return None
        need(isinstance(sl, slice) and sl.step is None,
             "%s: matched %r at %r", n.show(), cm, sl)
        need(sl.start in self.start and sl.stop in self.stop,
             "%s: position %r is not on word boundaries of %r", n.show(), sl, self.text)
        part = self.text[sl]
        need(part.upper() == cm.upper(),
             "%s: reports %r at %r, where the utterance has %r", n.show(), cm, sl, part)
        self.checked += 1
        return self.start[sl.start], self.stop[sl.stop]

    def silent(self, n):
        """n and everything below reports no matched text."""
        for x in n.walk():
            cm, sl = self.get(x)
            need(not cm, "%s took no part in the match, but reports %r", x.show(), cm)
            # Only something that matched no words itself may have an empty position.
            need(x is n or sl is None, "%s took no part in the match, but reports "
                 "position %r", x.show(), sl)
            if x.kind in (REP, STAR) and self.get is observed:
                need(x.obj.repetitions_matched == 0,
                     "%s took no part in the match, but reports %d repetitions",
                     x.show(), x.obj.repetitions_matched)
        self.checked += 1

    def empty_ok(self, n):
        if self.nullable is not None:
            need(self.nullable(n), "%s matched nothing, but it needs words", n.show())

    def verify(self, n):
        s = self.span(n)
        if s is None:
            self.silent(n)
            return None
        i, j = s
        k = n.kind
        if k == LIT:
            lw = n.text.split()
            need(len(lw) == j - i and all(
                word_eq(a, b, n.cs) for a, b in zip(lw, self.words[i:j])),
                "%s matched %r", n.show(), self.words[i:j])
        elif k in (SEQ, REQ):
            p = i
            for c in n.kids:
                cs = self.verify(c)
                if cs is None:
                    self.empty_ok(c)
                else:
                    need(cs[0] == p, "%s: parts are not consecutive (part %s at word %d, "
                         "previous ended at %d)", n.show(), c.show(), cs[0], p)
                    p = cs[1]
            need(p == j, "%s: parts end at word %d, not %d", n.show(), p, j)
        elif k == ALT:
            got = []
            for idx, c in enumerate(n.kids):
                cs = self.verify(c)
                if cs is not None:
                    need(n.weights is None or n.weights[idx] > 0,
                         "%s: alternative %s has no weight", n.show(), c.show())
                    got.append((c, cs))
            need(len(got) == 1, "%s: %d alternatives matched", n.show(), len(got))
            need(got[0][1] == s, "%s: spans %s but its alternative spans %s",
                 n.show(), s, got[0][1])
        elif k == OPT:
            cs = self.verify(n.kids[0])
            need(cs == s, "%s: spans %s but its part spans %s", n.show(), s, cs)
        elif k in (REP, STAR):
            cs = self.verify(n.kids[0])
            need(cs is not None and i <= cs[0] and cs[1] == j,
                 "%s: spans %s but its last repetition spans %s", n.show(), s, cs)
            if self.get is observed:
                r = n.obj.repetitions_matched
                need(1 <= r <= j - i, "%s: %d repetitions for %d words", n.show(), r,
                     j - i)
        elif k == REF:
            if n.text in self.follow and n.text in self.env:
                cs = self.verify(self.env[n.text])
                need(cs == s, "%s: spans %s but the referenced rule spans %s",
                     n.show(), s, cs)
        elif k in (NULL, VOID):
            need(False, "%s matched words", n.show())
        elif k == DICT:
            pass
        return s


def unmatched_values(n, optional=False, out=None):
    """Documented values of current_match when unmatched: '' if optional, else None."""
    out = {} if out is None else out
    optional = optional or n.kind in (OPT, STAR)
    if n.kind == NULL:
        out[id(n)] = ""
    elif n.kind == VOID:
        out[id(n)] = None
    else:
        out[id(n)] = "" if optional else None
    for c in n.kids:
        unmatched_values(c, optional, out)
    return out


def ref_counts(node, env):
    """How often each rule is referenced in the tree of node with rules inlined."""
    counts, under_rep = {}, set()

    def go(n, rep):
        rep = rep or n.kind in (REP, STAR)
        if n.kind == REF and n.text in env:
            counts[n.text] = counts.get(n.text, 0) + 1
            if rep:
                under_rep.add(n.text)
            go(env[n.text], rep)
        for c in n.kids:
            go(c, rep)
    go(node, False)
    return counts, under_rep
