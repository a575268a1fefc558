"""Generated strings are sentences, and every choice is made as often as it should be."""
import random
from jsgf import Grammar, Rule, parse_rule_string
from ..gen import Cfg, tree, vocab, grammar_nodes, eqkey
from ..model import (Node, build, LIT, SEQ, REQ, ALT, OPT, REP, STAR, REF, NULL, VOID,
                     kids_or_null)
from ..world import World
from ..lang import Lang

TECHNIQUE = "runtime monitor of generated strings and their frequencies against a model"
LEVEL = "exploration"
QUICK, THOROUGH = 1200, 16000
RULE = ("strings generated by random rules and expansions (also in groups, with weights, "
        "references, disabled rules), checked for membership, form, matching and, where the "
        "probabilities are specified, for frequency (bounds of 8 standard deviations and "
        "8); non-trivial = distinct (rules, string)")
ASSUMPTIONS = ["expansions do not use <VOID> or Dictation, or alternatives of weight 0 only",
               "rules do not refer to themselves"]
N = 900


def dist(n, env, cap=40):
    """Probabilities of sentences, or None if they are not specified or too many."""
    k = n.kind
    if k == LIT:
        return {" ".join(n.text.split()): 1.0}
    if k == NULL:
        return {"": 1.0}
    if k == REF:
        return dist(env[n.text], env, cap)
    if k in (SEQ, REQ):
        out = {"": 1.0}
        for c in n.kids:
            d = dist(c, env, cap)
            if d is None:
                return None
            new = {}
            for a, p in out.items():
                for b, q in d.items():
                    s = (a + " " + b).strip()
                    new[s] = new.get(s, 0) + p * q
            out = new
            if len(out) > cap:
                return None
        return out
    if k == OPT:
        d = dist(n.kids[0], env, cap)
        if d is None:
            return None
        out = dict((s, p / 2) for s, p in d.items())
        out[""] = out.get("", 0) + .5
        return out
    if k == ALT:
        kids = kids_or_null(n)
        ws = n.weights if n.weights is not None and n.kids else [1.0] * len(kids)
        out = {}
        for c, w in zip(kids, ws):
            if w == 0:
                continue
            d = dist(c, env, cap)
            if d is None:
                return None
            for s, p in d.items():
                out[s] = out.get(s, 0) + p * w / sum(ws)
        return out if len(out) <= cap else None
    return None


def fine(rules):
    for _, n in rules:
        for x in n.walk():
            if x.kind == VOID or x.kind == ALT and x.weights is not None and \
                    not any(x.weights):
                return False
    return True


def respelled(rng, n):
    for x in n.walk():
        if x.kind == LIT and rng.random() < .3:
            x.text = x.text.title()


def judge(rec, w, s, node, matches, **kw):
    ws = s.split(" ") if s else []
    rec.eval()
    rec.nontrivial(w.show(), s)
    if not isinstance(s, str) or s != " ".join(s.split()):
        rec.fail("a generated string is not words separated by single spaces",
                 generated=repr(s), rules=w.show(), **kw)
    if not w.lang.member(node, ws):
        rec.fail("a generated string is not a sentence", generated=s, rules=w.show(), **kw)
    # The letters are those of the literals.
    texts = set()
    for x in w.all_nodes():
        if x.kind == LIT:
            texts |= set((x.text if x.cs else x.text.lower()).split())
    if not set(ws) <= texts:
        rec.fail("a generated string has words of other letters", generated=s,
                 rules=w.show(), **kw)
    if w.lang.greedy(node, ws) == len(ws):
        rec.event("matched: greedy reading")
        if not matches(s):
            rec.fail("a generated string does not match", generated=s, rules=w.show(), **kw)
    else:
        rec.event("ambiguous sentences")


def case(rec, rng, i):
    random.seed(rng.random())
    flat = rng.random() < .35
    for _ in range(30):
        words, rules = grammar_nodes(rng, Cfg(p_tag=.1, childless=.04, special=.04,
                                              reps=not flat, opts=not flat or rng.random() < .3,
                                              p_weight=.5 if flat else .25),
                                     nrules=rng.choice([1, 1, 2, 3]))
        if fine(rules):
            break
    else:
        return
    if rng.random() < .2:
        for _, n in rules:
            respelled(rng, n)
    if not fine(rules):
        return
    for _, n in rules:
        for x in n.walk():
            if x.kind == ALT and x.weights is not None and rng.random() < .4:
                # Weights are relative.
                f = rng.choice([.01, .001, .0001, 3, 1000])
                x.weights = [y * f for y in x.weights]
    w = World(rules, cs=rng.random() < .3 and all(
        len(set(eqkey(c) for c in x.kids)) == len(x.kids)
        for _, n in rules for x in n.walk() if x.weights is not None) or None)
    w.cs = bool(w.cs)
    r = w.rule
    state = random.getstate()
    for k in range(15):
        s = r.generate() if k % 3 else r.expansion.generate()
        judge(rec, w, s, w.node, r.matches)
    random.setstate(state)
    if [x.generate() for x in [r] * 3] == [r.generate() for _ in range(3)]:
        rec.event("the same three strings again")
    part = rng.choice([x for x in w.node.walk()])
    for _ in range(5):
        judge(rec, w, part.obj.generate(), part, lambda s: True, part=part.show())
    if i < 3:
        rec.sample(w.show())
    refs = [x for x in w.all_nodes() if x.kind == REF]
    if refs and rng.random() < .5:
        disabled(rec, rng, w, rng.choice(refs).text)
    # Frequencies.
    d = dist(w.node, w.env)
    if d is not None and (i % 4 == 0 or len(d) > 2):
        counts = {}
        low = {}
        for s in d:
            low[s if w.cs else s.lower()] = low.get(s if w.cs else s.lower(), 0) + d[s]
        for _ in range(N):
            s = r.generate()
            counts[s] = counts.get(s, 0) + 1
        for s, p in low.items():
            rec.eval()
            if abs(counts.get(s, 0) - N * p) > 8 * (N * p * (1 - p)) ** .5 + 8:
                rec.fail("a string is generated too often or too rarely", rules=w.show(),
                         string=s, generated=counts.get(s, 0), expected=N * p, of=N)
        rec.event("frequencies of %s strings" % (len(low) if len(low) < 4 else "4+"))
    # Optional parts and repetitions.
    if i % 5 == 0:
        choices(rec, rng, words)


def disabled(rec, rng, w, name):
    """Nothing is generated for references to a disabled rule."""
    old = w.env[name]
    visible = w.by_name[name].visible
    w.by_name[name].disable()
    w.by_name[name].visible = rng.random() < .5
    env = dict(w.env)
    env[name] = Node(NULL)
    lang = Lang(env)
    for _ in range(8):
        s = w.rule.generate()
        rec.eval()
        if s != " ".join(s.split()) or not lang.member(w.node, s.split()):
            rec.fail("a reference to a disabled rule generated something", generated=s,
                     rules=w.show(), disabled=name)
    rec.event("references to disabled rules")
    w.by_name[name].enable()
    w.by_name[name].visible = visible
    assert w.env[name] is old


def choices(rec, rng, words):
    """Optional parts are taken and left out, repetitions vary."""
    x = words[0].split()[0]
    k = rng.choice([OPT, REP, STAR])
    inner = Node(LIT, text=x)
    if rng.random() < .5:
        inner = Node(rng.choice([SEQ, REQ]), [inner])
    n = Node(k, [inner])
    shape = rng.randrange(4)
    if shape == 1:
        n = Node(SEQ, [n])
    elif shape == 2:
        n = Node(ALT, [n], weights=[2.0])
    elif shape == 3:
        n = Node(SEQ, [Node(LIT, text="zz"), n])
    e = build(n)
    rule = Rule("r", True, e)
    seen = {}
    for _ in range(300):
        s = rule.generate().split()
        if shape == 3:
            rec.require(s[:1] == ["zz"], "a part is missing", generated=s)
            s = s[1:]
        rec.eval()
        rec.require(set(s) <= set([x.lower()]), "generated something else", generated=s,
                    expansion=n.show())
        seen[len(s)] = seen.get(len(s), 0) + 1
    want = {OPT: [0, 1], REP: [1, 2], STAR: [0, 1, 2]}[k]
    if k == OPT and set(seen) != {0, 1} or k == REP and 0 in seen or \
            any(c not in seen for c in want):
        rec.fail("wrong numbers of repetitions are generated", expansion=n.show(),
                 lengths=sorted(seen.items()))
    rec.nontrivial(n.show())
    rec.event("choices: " + k)


def fixed(rec):
    rec.eval()
    rec.nontrivial("fixed")
    r = parse_rule_string("public <r> = /0/ a | /3/ b | /1/ c;")
    out = [r.generate() for _ in range(4000)]
    rec.require(set(out) == {"b", "c"}, "wrong alternatives generated", got=sorted(set(out)))
    rec.require(abs(out.count("b") - 3000) < 300, "wrong frequency", got=out.count("b"))
    for text in ("a+", "(a)*"):
        e = parse_rule_string("public <r> = %s;" % text)
        most = max(len(e.generate().split()) for _ in range(4000))
        rec.require(most > 5, "the number of repetitions is limited", rule=text, most=most)
    r.disable()
    rec.require(r.generate() == "" and r.expansion.generate() in ("b", "c"),
                "wrong strings of a disabled rule")
