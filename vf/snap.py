"""Snapshots of everything the library reports about a match."""
from .model import REP, STAR, REF


def slice_t(sl):
    return None if sl is None else (sl.start, sl.stop, sl.step)


def node_data(n, inside=()):
    o = n.obj
    d = [n.kind, o.current_match, slice_t(o.matching_slice), bool(o.had_match)]
    if n.kind in (REP, STAR):
        d.append(o.repetitions_matched)
    for r in inside:
        d.append(tuple(r.obj.get_expansion_matches(o)))
        d.append(tuple(slice_t(x) for x in r.obj.get_expansion_slices(o)))
    return tuple(d)


def tree_data(n, out=None, inside=()):
    """Match data of a tree, in pre-order; references are not followed."""
    out = [] if out is None else out
    out.append(node_data(n, inside))
    if n.kind in (REP, STAR):
        # Only the closest repetition holds current data for nested repetitions.
        inside = (n,)
    for c in n.kids:
        tree_data(c, out, inside)
    return out


def closure(name, env):
    seen = []

    def go(nm):
        if nm in seen or nm not in env:
            return
        seen.append(nm)
        for x in env[nm].walk():
            if x.kind == REF:
                go(x.text)
    go(name)
    return seen


def rule_data(name, env, by_name):
    """Match data of a rule and of every rule it references."""
    out = {}
    for nm in closure(name, env):
        out[nm] = (bool(by_name[nm].was_matched), tree_data(env[nm]))
    out["tags"] = list(by_name[name].matched_tags)
    return out


def diff(a, b):
    for k in a:
        if a[k] != b.get(k):
            if isinstance(a[k], tuple) and isinstance(b.get(k), tuple):
                if a[k][0] != b[k][0]:
                    return "%s: was_matched %r / %r" % (k, a[k][0], b[k][0])
                for x, y in zip(a[k][1], b[k][1]):
                    if x != y:
                        return "%s: %r / %r" % (k, x, y)
            return "%s: %r / %r" % (k, a[k], b.get(k))
    return ""
