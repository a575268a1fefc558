"""Queries change nothing and give the same answer when repeated, also when they fail."""
import copy
import os
import pickle
from pyparsing import ParseException
from jsgf import (GrammarError, JSGFImportError, Import, CompilationError, map_expansion, find_expansion,
                  filter_expansion, flat_map_expansion, JointTreeContext, TraversalOrder,
                  save_current_matches, Rule, Grammar)
from ..world import random_world, World
from ..gen import utterances, respell, grammar_nodes, Cfg
from ..model import LIT, ALT, REF
from ..state import state, explain, walk

TECHNIQUE = "runtime monitor: full state snapshots around every query, with injected faults"
LEVEL = "exploration"
QUICK, THOROUGH = 900, 12000
RULE = ("random grammars with match data, some with faults (literals without text, missing "
        "weights, missing rules, rules that cannot be in a root grammar); everything "
        "public is compared before and after each of about 60 queries, and answers are "
        "compared with those of a second call; non-trivial = distinct (tree, query)")
ASSUMPTIONS = ["shallow copies are excluded: they take over the children"]


def listed(x):
    return [id(e) for e in x]


def ids(x):
    """Answers made comparable: objects by identity."""
    if isinstance(x, (list, tuple)):
        return [ids(e) for e in x]
    if isinstance(x, (set, frozenset)):
        return sorted(id(e) for e in x)
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    return id(x)


def joint(e, fn):
    with JointTreeContext(e):
        return fn()


def joint_error(e):
    class Stop(Exception):
        pass
    try:
        with JointTreeContext(e):
            raise Stop()
    except Stop:
        return True


def abort(e, fn, k):
    """A traversal stopped by an error in the caller's function."""
    n = [0]

    class Stop(Exception):
        pass

    def f(x):
        n[0] += 1
        if n[0] > k:
            raise Stop()
        return False
    try:
        fn(e, f)
    except Stop:
        pass
    return n[0] > 0


def expansion_queries(rng, e, other):
    yield "compile", lambda: e.compile()
    yield "compile without tags", lambda: e.compile(ignore_tags=True)
    yield "generate", lambda: (e.generate(), 0)[1]
    yield "str", lambda: (str(e), repr(e))
    yield "hash", lambda: hash(e)
    yield "==", lambda: (e == other, e != other, e == e)
    yield "in", lambda: (other in e)
    yield "copy", lambda: e.copy() is not e
    yield "deepcopy", lambda: copy.deepcopy(e) is not e
    yield "leaves", lambda: ids(e.leaves)
    yield "collect_leaves", lambda: ids(e.collect_leaves(TraversalOrder.PostOrder, True))
    yield "leaves_after", lambda: ids(list(e.leaves_after))
    yield "matchable_leaves_after", lambda: ids(list(e.matchable_leaves_after))
    yield "root_expansion", lambda: id(e.root_expansion)
    yield "is_descendant_of", lambda: (e.is_descendant_of(other), other.is_descendant_of(e))
    yield "mutually_exclusive_of", lambda: (e.mutually_exclusive_of(other),
                                            other.mutually_exclusive_of(e))
    yield "is_optional", lambda: (e.is_optional, e.is_alternative)
    yield "repetition_ancestor", lambda: ids(e.repetition_ancestor)
    yield "compiled_tag", lambda: e.compiled_tag
    yield "validate_compilable", lambda: e.validate_compilable()
    yield "match data", lambda: (e.current_match, str(e.matching_slice), e.had_match)
    o = rng.choice([0, 1])
    s = rng.random() < .5
    yield "map_expansion", lambda: ids(map_expansion(e, lambda x: id(x), o, s))
    yield "flat_map_expansion", lambda: ids(flat_map_expansion(e, lambda x: x, o, s))
    yield "filter_expansion", lambda: ids(filter_expansion(e, lambda x: x.tag, o, s))
    yield "find_expansion", lambda: ids(find_expansion(e, lambda x: x is other, o, s))
    yield "a traversal in the wrong order", lambda: map_expansion(e, order=2)
    t, k = rng.choice([map_expansion, find_expansion, filter_expansion,
                       flat_map_expansion]), rng.randrange(4)
    yield "an aborted traversal", lambda: abort(e, t, k)
    yield "save_current_matches", lambda: len(save_current_matches(e))
    r = e.root_expansion
    yield "joined trees", lambda: joint(r, lambda: ids(r.leaves))
    yield "joined trees, mutually exclusive", lambda: joint(
        r, lambda: (e.is_optional, id(e.root_expansion)))
    yield "joined trees, error", lambda: joint_error(r)
    for a in ("text", "referenced_rule", "weights", "child", "repetitions_matched",
              "matching_regex_pattern"):
        if a in ("text", "repetitions_matched"):
            yield a, lambda a=a: getattr(e, a, None)
        else:
            yield a, lambda a=a: (getattr(e, a, None), 0)[1]
    if hasattr(e, "get_expansion_matches"):
        yield "get_expansion_matches", lambda: (list(e.get_expansion_matches(other)),
                                                str(e.get_expansion_slices(other)))


def rule_queries(rng, r, other):
    yield "rule: compile", lambda: r.compile()
    yield "rule: compile without tags", lambda: r.compile(ignore_tags=True)
    yield "rule: generate", lambda: (r.generate(), 0)[1]
    yield "rule: str", lambda: (str(r), repr(r))
    yield "rule: hash", lambda: hash(r)
    yield "rule: ==", lambda: (r == other, r != other, r == r)
    yield "rule: tags", lambda: list(r.tags)
    yield "rule: matched_tags", lambda: list(r.matched_tags)
    yield "rule: has_tag", lambda: (r.has_tag("t1"), r.has_tag(""))
    yield "rule: was_matched", lambda: r.was_matched
    yield "rule: dependencies", lambda: ids(r.dependencies)
    yield "rule: dependent_rules", lambda: ids(r.dependent_rules)
    yield "rule: reference_count", lambda: r.reference_count
    yield "rule: names", lambda: (r.qualified_name, r.fully_qualified_name)
    yield "rule: active", lambda: r.active


def spoil(x):
    """Change a returned list."""
    x.insert(len(x) // 2, None)
    x.reverse()


def grammar_queries(rng, g, rules):
    r, o = rng.choice(rules), rng.choice(rules)
    yield "grammar: compile", lambda: g.compile()
    yield "grammar: compile as root", lambda: g.compile_as_root_grammar()
    root = rng.random() < .5

    def to_file():
        with open("q.jsgf", "w") as f:
            f.write(rng.choice(["", "old", "#JSGF V1.0;\nold text " * 300]))
        g.compile_to_file("q.jsgf", root)
        with open("q.jsgf") as f:
            s = f.read()
        os.remove("q.jsgf")
        return s
    yield "grammar: compile to file", to_file
    yield "grammar: str", lambda: (str(g), repr(g), g.jsgf_header)
    yield "grammar: ==", lambda: (g == g, g != g, g == Grammar("other"))
    yield "grammar: rules", lambda: (ids(g.rules), ids(g.visible_rules), g.rule_names,
                                     ids(g.match_rules))
    yield "grammar: changed lists", lambda: ([spoil(x) for x in (
        g.rules, g.visible_rules, g.rule_names, g.match_rules, g.imports,
        g.import_names)], 0)[1]
    yield "grammar: imports", lambda: (ids(g.imports), g.import_names)
    yield "grammar: get_rule", lambda: (id(g.get_rule(r.name)),
                                        ids(g.get_rules(r.name, o.name)))
    yield "grammar: get_rule, missing", lambda: g.get_rule("missing rule")
    yield "grammar: get_rule, missing name", lambda: g.get_rule("missing")
    yield "grammar: get_rule, wrong type", lambda: g.get_rule_from_name(7)
    yield "grammar: find_tagged_rules", lambda: (
        ids(g.find_tagged_rules("t1")), ids(g.find_tagged_rules("t1", True)))


ALLOWED = (GrammarError, CompilationError, ValueError, TypeError, ParseException,
           JSGFImportError)


def attempt(fn):
    try:
        return ("answer", fn())
    except ALLOWED as e:
        return ("error", type(e).__name__, str(e))


def observe(rec, w, rules, what, fn, faulty):
    before = state(w.grammar, rules)
    a = attempt(fn)
    mid = state(w.grammar, rules)
    rec.eval()
    show = dict(rules=w.show(), query=what, answer=repr(a)[:300])
    if mid != before:
        rec.fail("a query changed something", difference=explain(before, mid), **show)
    b = attempt(fn)
    # Whether random parts of something faulty are generated is random.
    rec.require(a == b or (faulty and "generate" in what), "a query gave another answer when repeated", second=repr(b)[:300],
                **show)
    after = state(w.grammar, rules)
    rec.require(after == before, "a repeated query changed something",
                difference=explain(before, after), **show)
    if a[0] == "error":
        rec.require(faulty or what in ("a traversal in the wrong order",
                                       "grammar: get_rule, missing",
                                       "grammar: get_rule, missing name",
                                       "grammar: get_rule, wrong type"),
                    "a query failed", error=a[1:], **show)
        rec.event("failed: " + a[1])
    else:
        rec.event("answered")
    rec.nontrivial(w.node.key(), what)


def case(rec, rng, i):
    if rng.random() < .2:
        words, rules = grammar_nodes(rng, Cfg(p_tag=.3, childless=.2, tagset=["t1", "t2"]))
        w = World(rules, rng.choice(["grammar", "mixed"]))
    else:
        words, w = random_world(rng, p_tag=.3, tagset=["t1", "t2", "a b"])
    if i < 3:
        rec.sample(w.show())
    rules = list(w.by_name.values())
    for ws in utterances(rng, w.lang, w.node, words, 3):
        if w.rule.matches(respell(rng, ws)) and rng.random() < .7:
            break
    for r in rules:
        if rng.random() < .15:
            r.disable()
        if rng.random() < .3:
            r.visible = not r.visible
    if w.grammar is not None and rng.random() < .25:
        # Files of these do not exist.
        w.grammar.add_imports(*rng.sample([Import("nofile.a"), Import("no.file.*"),
                                           Import("nofile.b")], rng.randint(1, 3)))
        rec.event("grammars with imports")
    faulty = False
    if rng.random() < .3:
        faulty = inject(rng, w, rules)
    if w.grammar is None:
        for r in rules:
            for q in rule_queries(rng, r, rng.choice(rules)):
                if rng.random() < .5:
                    observe(rec, w, rules, q[0], q[1], faulty)
    else:
        r = rng.choice(rules)
        for q in list(rule_queries(rng, r, rng.choice(rules))) + \
                list(grammar_queries(rng, w.grammar, rules)):
            if rng.random() < .6:
                observe(rec, w, rules, q[0], q[1], faulty)
    es = [x for r in rules for x in walk(r.expansion)]
    qs = []
    for _ in range(3):
        qs += list(expansion_queries(rng, rng.choice(es), rng.choice(es)))
    rng.shuffle(qs)
    for q in qs[:45]:
        observe(rec, w, rules, q[0], q[1], faulty)


def inject(rng, w, rules):
    """Something that makes compiling, matching or traversing fail."""
    nodes = [x for r in w.rules for x in r[1].walk()]
    k = rng.randrange(4)
    if k == 0:
        ls = [x for x in nodes if x.kind == LIT]
        if ls:
            rng.choice(ls).obj.text = ""
            return True
    elif k == 1:
        ls = [x for x in nodes if x.kind == ALT and len(x.kids) > 1 and x.weights is None]
        if ls:
            x = rng.choice(ls)
            x.obj.set_weight(rng.randrange(len(x.kids)), 2)
            return True
    elif k == 2 and w.grammar is not None:
        ls = [x for x in nodes if x.kind == REF]
        if ls and w.style == "grammar":
            rng.choice(ls).obj.name = "gone"
            return True
    elif w.grammar is not None:
        w.grammar.add_rule(Rule("root", rng.random() < .5, "a"))
        rules.append(w.grammar.get_rule("root"))
        return True
    return False
