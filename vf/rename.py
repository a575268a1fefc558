"""Give generated rules other names."""
from .model import REF
from . import names


def rename(rng, rules, pick=None):
    """Rules with names from pick() (default: random ones), references included."""
    new = {}
    for name, _ in rules:
        while True:
            s = (pick or names.base_name)(rng)
            if s not in new.values():
                new[name] = s
                break
    for _, n in rules:
        for x in n.walk():
            if x.kind == REF and x.text in new:
                x.text = new[x.text]
    return [(new[a], n) for a, n in rules]


def refs_of(n):
    return [x.text for x in n.walk() if x.kind == REF]
