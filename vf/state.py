"""Snapshots of everything public about grammars, rules and expansions."""
from .snap import slice_t


def walk(e):
    yield e
    for c in e.children:
        for x in walk(c):
            yield x


def expansion_state(e, data=True):
    out = []
    for x in walk(e):
        d = [id(x), type(x).__name__, id(x.parent), id(x.rule), x.tag]
        for a in ("text", "case_sensitive", "name", "use_current_match"):
            d.append(getattr(x, a, None))
        w = getattr(x, "weights", None)
        d.append(None if w is None else sorted((id(k), v) for k, v in w.items()))
        if data:
            d += [x.current_match, slice_t(x.matching_slice), x.had_match,
                  getattr(x, "repetitions_matched", None)]
        out.append(tuple(d))
    return out


def rule_state(r, data=True):
    return (id(r), r.name, r.visible, r.active, r.case_sensitive, id(r.grammar),
            bool(r.was_matched) if data else None, r.qualified_name,
            r.fully_qualified_name, expansion_state(r.expansion, data))


def grammar_state(g, data=True):
    return (id(g), g.name, g.jsgf_version, g.charset_name, g.language_name,
            g.case_sensitive, [(id(i), i.name) for i in g.imports],
            [rule_state(r, data) for r in g.rules])


def state(grammar, rules, data=True):
    return (grammar_state(grammar, data) if grammar is not None else None,
            [rule_state(r, data) for r in rules])


FIELDS = ["object", "type", "parent", "rule", "tag", "text", "case sensitivity", "name",
          "use_current_match", "weights", "current match", "slice", "had match",
          "repetitions"]


def explain(a, b, path=""):
    """First difference of two snapshots."""
    if type(a) != type(b) or not isinstance(a, (list, tuple)):
        return "" if a == b else "%s: %r -> %r" % (path, a, b)
    if len(a) != len(b):
        return "%s: %d -> %d items" % (path, len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            f = "/%d" % i
            if len(a) >= 10 and isinstance(a, tuple) and i < len(FIELDS) and \
                    isinstance(a[0], int):
                f = "/" + FIELDS[i] if len(a) in (10, 14) else "/%d" % i
            return explain(x, y, path + f)
    return ""
