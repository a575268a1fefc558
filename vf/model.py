"""
Neutral description of rule expansions ("nodes") used by every oracle.  It shares no
code with the library: nodes are built from the library's objects only through public
attributes, and the library's objects are built from nodes only through public
constructors.
"""
from . import paths  # noqa
from jsgf import (Literal, Sequence, RequiredGrouping, AlternativeSet,
                  OptionalGrouping, Repeat, KleeneStar, NamedRuleRef, NullRef, VoidRef)
from jsgf.expansions import RuleRef
from jsgf.ext import Dictation

LIT, SEQ, REQ, ALT, OPT, REP, STAR, REF, NULL, VOID, DICT = (
    "lit", "seq", "req", "alt", "opt", "rep", "star", "ref", "null", "void", "dict")


class Node(object):
    __slots__ = ("kind", "kids", "text", "tag", "weights", "cs", "obj")

    def __init__(self, kind, kids=(), text=None, tag="", weights=None, cs=False):
        self.kind = kind
        self.kids = list(kids)
        self.text = text          # literal text / reference name
        self.tag = tag
        self.weights = weights    # list of floats parallel to kids, or None
        self.cs = cs
        self.obj = None           # library object this node was built as/from

    def clone(self):
        n = Node(self.kind, [k.clone() for k in self.kids], self.text, self.tag,
                 list(self.weights) if self.weights is not None else None, self.cs)
        return n

    def walk(self):
        yield self
        for k in self.kids:
            for x in k.walk():
                yield x

    def size(self):
        return sum(1 for _ in self.walk())

    def key(self, tags=True):
        """Hashable structural identity."""
        return (self.kind, self.text, self.tag if tags else "",
                tuple(self.weights) if self.weights is not None else None, self.cs,
                tuple(k.key(tags) for k in self.kids))

    def show(self):
        k = self.kind
        if k == LIT:
            s = "%r" % self.text + ("!" if self.cs else "")
        elif k == REF:
            s = "<%s>" % self.text
        elif k in (NULL, VOID, DICT):
            s = k.upper()
        elif k == ALT and self.weights is not None:
            s = "alt(%s)" % ", ".join("/%g/ %s" % (w, c.show())
                                      for w, c in zip(self.weights, self.kids))
        else:
            s = "%s(%s)" % (k, ", ".join(c.show() for c in self.kids))
        if self.tag:
            s += "{%s}" % self.tag
        return s

    def to_json(self):
        d = {"k": self.kind}
        if self.kids:
            d["c"] = [x.to_json() for x in self.kids]
        if self.text is not None:
            d["t"] = self.text
        if self.tag:
            d["tag"] = self.tag
        if self.weights is not None:
            d["w"] = self.weights
        if self.cs:
            d["cs"] = True
        return d

    @staticmethod
    def from_json(d):
        return Node(d["k"], [Node.from_json(x) for x in d.get("c", ())], d.get("t"),
                    d.get("tag", ""), d.get("w"), d.get("cs", False))


def lit(t, cs=False, tag=""):
    return Node(LIT, text=t, cs=cs, tag=tag)


def build(node, rules=None, keep=True):
    """
    Build the library's expansion for a node. References use `rules[name]` (as RuleRef)
    if node.text is in `rules`, otherwise NamedRuleRef. With keep, node.obj is set.
    """
    k = node.kind
    kids = [build(c, rules, keep) for c in node.kids]
    if k == LIT:
        e = Literal(node.text, case_sensitive=node.cs)
    elif k == SEQ:
        e = Sequence(*kids)
    elif k == REQ:
        e = RequiredGrouping(*kids)
    elif k == ALT:
        e = AlternativeSet(*kids)
        if node.weights is not None:
            for i, w in enumerate(node.weights):
                e.set_weight(i, w)
    elif k == OPT:
        e = OptionalGrouping(kids[0])
    elif k == REP:
        e = Repeat(kids[0])
    elif k == STAR:
        e = KleeneStar(kids[0])
    elif k == REF:
        if rules and node.text in rules:
            e = RuleRef(rules[node.text])
        else:
            e = NamedRuleRef(node.text)
    elif k == NULL:
        e = NullRef()
    elif k == VOID:
        e = VoidRef()
    elif k == DICT:
        e = Dictation()
    else:
        raise ValueError(k)
    if node.tag:
        e.tag = node.tag
    if keep:
        node.obj = e
    return e


class Unsupported(Exception):
    """The expansion is not one the oracles describe."""


_KINDS = [(Dictation, DICT), (Literal, LIT), (RequiredGrouping, REQ), (Sequence, SEQ),
          (AlternativeSet, ALT), (OptionalGrouping, OPT), (KleeneStar, STAR),
          (Repeat, REP), (NullRef, NULL), (VoidRef, VOID), (NamedRuleRef, REF)]


def from_jsgf(e):
    """Read a node tree from library objects via public attributes."""
    for cls, kind in _KINDS:
        if isinstance(e, cls):
            break
    else:
        raise Unsupported(type(e).__name__)
    n = Node(kind, tag=e.tag)
    n.obj = e
    if kind == LIT:
        n.text = e.text
        n.cs = e.case_sensitive
    elif kind == REF:
        n.text = e.name
    n.kids = [from_jsgf(c) for c in e.children]
    if kind == ALT and e.weights and n.kids:
        items = list(e.weights.items())
        ws = []
        for c in e.children:
            w = None
            for k, v in items:
                if k is c:
                    w = v
                    break
            if w is None:
                for k, v in items:
                    if k == c:
                        w = v
                        break
            if w is None:
                raise Unsupported("missing weight")
            ws.append(float(w))
        n.weights = ws
    return n


def kids_or_null(n):
    """Operators without children behave like <NULL>."""
    return n.kids or [Node(NULL)]
