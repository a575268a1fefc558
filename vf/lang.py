"""
Independent meaning of expansions at the level of words.

`Lang(env)`: env maps rule names to nodes.  `member` is full (backtracking) membership;
`greedy` is the documented reading: the longest alternative, optional parts and
repetitions taken whenever they can be, never reconsidered.
"""
from .model import (LIT, SEQ, REQ, ALT, OPT, REP, STAR, REF, NULL, VOID, DICT,
                    kids_or_null)


def word_eq(a, b, cs):
    return a == b if cs else a.upper() == b.upper()


class Lang(object):
    def __init__(self, env=None, disabled=()):
        self.env = env or {}

    # -- full membership ---------------------------------------------------------
    def member(self, node, words):
        return len(words) in self.ends(node, tuple(words), 0, {})

    def ends(self, n, words, i, memo):
        key = (id(n), i)
        if key in memo:
            return memo[key]
        k = n.kind
        if k == LIT:
            lw = n.text.split()
            ok = (i + len(lw) <= len(words) and
                  all(word_eq(a, b, n.cs) for a, b in zip(lw, words[i:])))
            r = frozenset([i + len(lw)]) if ok else frozenset()
        elif k in (SEQ, REQ):
            cur = {i}
            for c in n.kids:
                nxt = set()
                for j in cur:
                    nxt |= self.ends(c, words, j, memo)
                cur = nxt
                if not cur:
                    break
            r = frozenset(cur)
        elif k == ALT:
            out = set()
            for idx, c in enumerate(kids_or_null(n)):
                if n.weights is not None and n.kids and not n.weights[idx] > 0:
                    continue
                out |= self.ends(c, words, i, memo)
            r = frozenset(out)
        elif k == OPT:
            r = frozenset({i} | set(self._kid(n, words, i, memo)))
        elif k in (REP, STAR):
            seen = set()
            front = set(self._kid(n, words, i, memo))
            while front:
                seen |= front
                nxt = set()
                for j in front:
                    nxt |= self._kid(n, words, j, memo)
                front = nxt - seen
            if k == STAR:
                seen.add(i)
            r = frozenset(seen)
        elif k == REF:
            r = self.ends(self.env[n.text], words, i, memo)
        elif k == NULL:
            r = frozenset([i])
        elif k == VOID:
            r = frozenset()
        elif k == DICT:
            r = frozenset(range(i + 1, len(words) + 1))
        else:
            raise ValueError(k)
        memo[key] = r
        return r

    def _kid(self, n, words, i, memo):
        if not n.kids:
            return frozenset([i])
        return self.ends(n.kids[0], words, i, memo)

    # -- greedy reading ----------------------------------------------------------
    def greedy(self, n, words, i=0):
        """End position of the greedy reading from i, or None."""
        k = n.kind
        if k == LIT:
            lw = n.text.split()
            ok = (i + len(lw) <= len(words) and
                  all(word_eq(a, b, n.cs) for a, b in zip(lw, words[i:])))
            return i + len(lw) if ok else None
        if k in (SEQ, REQ):
            for c in n.kids:
                i = self.greedy(c, words, i)
                if i is None:
                    return None
            return i
        if k == ALT:
            best = None
            for idx, c in enumerate(kids_or_null(n)):
                if n.weights is not None and n.kids and not n.weights[idx] > 0:
                    continue
                j = self.greedy(c, words, i)
                if j is not None and (best is None or j > best):
                    best = j
            return best
        if k == OPT:
            j = self._gkid(n, words, i)
            return i if j is None else j
        if k in (REP, STAR):
            j = self._gkid(n, words, i)
            if j is None:
                return i if k == STAR else None
            while True:
                m = self._gkid(n, words, j)
                if m is None or m == j:
                    return j
                j = m
        if k == REF:
            return self.greedy(self.env[n.text], words, i)
        if k == NULL:
            return i
        if k == VOID:
            return None
        raise ValueError(k)

    def _gkid(self, n, words, i):
        if not n.kids:
            return i
        return self.greedy(n.kids[0], words, i)

    # -- sampling ----------------------------------------------------------------
    def sample(self, n, rng, more=0.55, budget=None, greedy_bias=0.0):
        """A random sentence (list of words) or None if nothing could be derived."""
        k = n.kind
        if k == LIT:
            return n.text.split()
        if k in (SEQ, REQ):
            out = []
            for c in n.kids:
                s = self.sample(c, rng, more)
                if s is None:
                    return None
                out += s
            return out
        if k == ALT:
            kids = [c for i, c in enumerate(kids_or_null(n))
                    if n.weights is None or not n.kids or n.weights[i] > 0]
            rng.shuffle(kids)
            for c in kids:
                s = self.sample(c, rng, more)
                if s is not None:
                    return s
            return None
        if k == OPT:
            s = self.sample(kids_or_null(n)[0], rng, more) if rng.random() < .6 else []
            return s or []
        if k in (REP, STAR):
            out = []
            if k == STAR and rng.random() < .3:
                return out
            for j in range(4 if more < .9 else 30):
                s = self.sample(kids_or_null(n)[0], rng, more)
                if s is None:
                    return None if (k == REP and j == 0) else out
                out += s
                if rng.random() > more:
                    break
            return out
        if k == REF:
            return self.sample(self.env[n.text], rng, more)
        if k == NULL:
            return []
        if k == VOID:
            return None
        if k == DICT:
            return [rng.choice(DICT_WORDS) for _ in range(rng.randint(1, 3))]
        raise ValueError(k)

    def has_ref_cycle(self, n, seen=()):
        for x in n.walk():
            if x.kind == REF and x.text in self.env:
                if x.text in seen or self.has_ref_cycle(self.env[x.text],
                                                        seen + (x.text,)):
                    return True
        return False


DICT_WORDS = ["lorem", "ipsum", "dolor", "sit", "amet", "Über", "don't", "x-1", "42"]
