"""Build library objects for a generated set of rules."""
from . import paths  # noqa
from jsgf import (Grammar, Rule, PublicRule, PrivateRule, Sequence, OptionalGrouping,
                  RequiredGrouping, Repeat, KleeneStar, AlternativeSet)
from .model import build, Node, REF, ALT
from .lang import Lang
from .parse import ref_counts


STYLES = ["grammar", "grammar", "loose", "mixed"]


class World(object):
    """
    rules: list of (name, node); the last is the rule of interest. style:
      "grammar"  all rules in one grammar, references by name
      "loose"    no grammar, references hold Rule objects
      "mixed"    all rules in one grammar, references hold Rule objects
    hidden: names of rules that are not visible
    """
    def __init__(self, rules, style="grammar", cs=False, hidden=()):
        self.rules = rules
        self.env = dict(rules)
        self.style, self.hidden = style, set(hidden)
        self.lang = Lang(self.env)
        self.by_name = {}
        self.cs = cs
        objs = self.by_name
        for name, node in rules:
            e = build(node, objs if style != "grammar" else None)
            # The rule's case sensitivity overrides that of its literals.
            for x in node.walk():
                if x.kind == "lit":
                    x.cs = cs
            objs[name] = Rule(name, name not in hidden, e, case_sensitive=cs)
        self.grammar = None
        if style != "loose":
            self.grammar = Grammar("g", case_sensitive=cs)
            self.grammar.add_rules(*[objs[n] for n, _ in rules])
        self.name, self.node = rules[-1]
        self.rule = objs[self.name]
        counts, under_rep = ref_counts(self.node, self.env)
        self.counts = counts
        self.once = {r for r, c in counts.items() if c == 1 and r not in under_rep}

    def used_elsewhere(self, rng, words):
        """Let a part of a rule be part of another rule for a while. True if it was."""
        places = [(p, j) for n in self.all_nodes() for p in [n]
                  if not (p.kind == ALT and p.weights)
                  for j, c in enumerate(p.kids)
                  if not any(x.kind == REF for x in c.walk())]
        if not places:
            return False
        p, j = rng.choice(places)
        if j >= len(p.obj.children) or p.obj.children[j] is not p.kids[j].obj:
            return False
        part = p.obj.children[j]
        if rng.random() < .5:
            self.rule.matches(" ".join(rng.choice(words) for _ in range(rng.randrange(4))))
        p.obj.children[j] = "placeholder"
        box = rng.choice([OptionalGrouping, OptionalGrouping, KleeneStar, Repeat, Sequence,
                          RequiredGrouping, AlternativeSet])(part)
        other = Rule("other", True, Sequence("here", box), self.cs)
        for _ in range(rng.randrange(1, 4)):
            other.matches(" ".join(["here"] + [rng.choice(words)
                                               for _ in range(rng.randrange(3))]))
        box.children[0] = "placeholder"
        p.obj.children[j] = part
        return True

    def other_grammar_case(self):
        """Give the grammar, but not its rules, the other case sensitivity."""
        if self.grammar is not None:
            self.grammar.case_sensitive = not self.cs
            for n, _ in self.rules:
                self.by_name[n].case_sensitive = self.cs

    def show(self):
        return "; ".join("%s=%s" % (n, x.show()) for n, x in self.rules) + \
            (" [case sensitive]" if self.cs else "") + " (%s)" % self.style

    def all_nodes(self):
        """Every node of the rule of interest and of the rules it references."""
        seen, out = set(), []

        def go(n):
            for x in n.walk():
                out.append(x)
                if x.kind == REF and x.text in self.env and x.text not in seen:
                    seen.add(x.text)
                    go(self.env[x.text])
        go(self.node)
        return out


def random_world(rng, style=None, cs=None, nrules=None, tweak=None, **kw):
    from .gen import grammar_nodes
    words, rules = grammar_nodes(rng, nrules=nrules, **kw)
    if tweak:
        tweak(rules)
    hidden = [n for n, _ in rules[:-1] if rng.random() < .4]
    return words, World(rules, style or rng.choice(STYLES),
                        cs if cs is not None else rng.random() < .2, hidden)
