"""Tags: lists of tags, tag queries and matched tags."""
import re

from ..world import World
from ..gen import utterances, respell, has_only_branch, grammar_nodes, tree, Cfg
from ..parse import Deriver
from ..model import Node, REF, REP, STAR, ALT, SEQ

TECHNIQUE = "runtime monitor of tag queries against derivations and tree order"
LEVEL = "exploration"
QUICK, THOROUGH = 3000, 30000
RULE = ("random tagged rule sets with references; tag lists compared with the order of the "
        "compiled rule, matched tags with the derivation of each utterance; non-trivial = "
        "distinct (tree, utterance) for which some but not all tags matched")
ASSUMPTIONS = ["rules do not refer to themselves",
               "for expansions of rules referenced more than once or in repetitions, "
               "matched tags may reflect any of the references"]


def occurrences(n, env, out=None):
    """Tagged nodes in the order their tags are compiled, references inlined."""
    out = [] if out is None else out
    if n.kind == REF and n.text in env:
        occurrences(env[n.text], env, out)
    for c in n.kids:
        occurrences(c, env, out)
    if n.tag:
        out.append(n)
    return out


def matched_nodes(d, env, once, local, may):
    """Nodes that matched words in a derivation: exactly known ones, possible ones."""
    if d.j <= d.i:
        return
    (local if local is not None else set()).add(id(d.n))
    may.add(id(d.n))
    for c in (d.reps or d.kids):
        inner = local
        if d.n.kind == REF and d.n.text not in once:
            inner = None
        matched_nodes(c, env, once, inner, may)


TAG = re.compile(r"\{((?:\\.|[^\\{}])*)\}", re.S)


def own_tags(n):
    """Tags in the order they are compiled, without those of referenced rules."""
    return [t for c in n.kids for t in own_tags(c)] + ([n.tag] if n.tag else [])


def check_compiled(rec, w):
    """The tags in the text of each rule, tagged repetitions included."""
    for name, node in w.rules:
        r = w.by_name[name]
        for what, text, want in (("rule", r.compile(), own_tags(node)),
                                 ("expansion", node.obj.compile(), own_tags(node)),
                                 ("rule without tags", r.compile(True), []),
                                 ("expansion without tags", node.obj.compile(True), [])):
            got = [re.sub(r"\\(.)", r"\1", t).strip() for t in TAG.findall(text)]
            rec.eval()
            rec.require(got == want, "the text of the %s has other tags" % what,
                        rules=w.show(), rule=name, text=text, got=got, expected=want)
    rec.event("compiled tags")


def check_matched(rec, w, occ, got, ws, ok):
    if not ok:
        rec.require(got == [], "tags are reported though nothing matched",
                    rules=w.show(), utterance=" ".join(ws), tags=got)
        rec.event("failed matches")
        return
    der = Deriver(w.env)
    d = der.run(w.node, ws)
    named = {}
    for n in occ:
        named.setdefault(n.tag, []).append(n)
    if d is None or d.j != len(ws) or der.tie or has_only_branch(w.node) or \
            any(has_only_branch(x) for x in w.env.values()):
        rec.event("reading not unique")
        S = {id(n) for n in occ if n.obj.had_match}
        must, may = S, S
    else:
        must, may = set(), set()
        matched_nodes(d, w.env, w.once, must, may)
    uniq = all(len({id(x) for x in v}) == 1 for v in named.values())
    if uniq:
        S = {id(n) for n in occ if n.tag in got}
        missing = [n.tag for n in occ if id(n) in must and id(n) not in S]
        extra = [n.tag for n in occ if id(n) in S and id(n) not in may]
        rec.require(not missing, "a tag of an expansion that matched is missing",
                    rules=w.show(), utterance=" ".join(ws), tags=got, missing=missing)
        rec.require(not extra, "a tag of an expansion that did not match is reported",
                    rules=w.show(), utterance=" ".join(ws), tags=got, extra=extra)
        want = [n.tag for n in occ if id(n) in S]
        rec.require(got == want, "matched tags are not in the order of the rule",
                    rules=w.show(), utterance=" ".join(ws), tags=got, expected=want)
    elif must == may:
        want = [n.tag for n in occ if id(n) in must]
        rec.require(got == want, "matched tags are not those of the matched expansions",
                    rules=w.show(), utterance=" ".join(ws), tags=got, expected=want)
    rec.eval()
    rec.event("successes checked")
    if got and len(got) < len(occ):
        rec.nontrivial(w.node.key(), tuple(ws))


def case(rec, rng, i):
    uniq = rng.random() < .75
    cfg = Cfg(p_tag=rng.choice([.2, .4, .7]), uniq_tags=uniq,
              tagset=["t1", "t2", "T1", "a tag", "x y z", "{b}", "\\", "1", u"\u00fc"])
    words, rules = grammar_nodes(rng, cfg)
    if rng.random() < .15:
        # Repetitions of repetitions: ((x | y)+ z)+
        small = Cfg(depth=1, reps=rng.random() < .4, uniq_tags=uniq, tagset=cfg.tagset,
                    p_tag=.5)
        small.tag_i = 100
        kids = [tree(rng, words, small) for _ in range(2)]
        inner = Node(rng.choice([REP, REP, STAR]), [Node(ALT, kids, tag=small.tag(rng))],
                     tag=small.tag(rng))
        parts = [inner, tree(rng, words, small)]
        if rng.random() < .3:
            parts.insert(0, tree(rng, words, small))
        rules[-1] = (rules[-1][0], Node(REP, [Node(SEQ, parts, tag=small.tag(rng))]))
        rec.event("repetitions of repetitions")
    w = World(rules, rng.choice(["grammar", "grammar", "loose"]), rng.random() < .2)
    if rng.random() < 0.15 and w.used_elsewhere(rng, words):
        rec.event("parts that were parts of other rules before")
    if i < 3:
        rec.sample(w.show())
    occ = {}
    for name, node in w.rules:
        r = w.by_name[name]
        occ[name] = [n.tag for n in occurrences(node, w.env)]
        got = list(r.tags)
        rec.eval()
        rec.require(got == occ[name], "the tags of a rule are not those of its expansions "
                    "in order", rules=w.show(), rule=name, tags=got, expected=occ[name])
    check_compiled(rec, w)
    tags = sorted(set(t for v in occ.values() for t in v))
    spaced = [t.replace(" ", rng.choice(["  ", "\t", ""])) for t in tags if " " in t]
    for q in tags + spaced + ["absent", "", "  ", "t", "u"]:
        ask = q if rng.random() < .6 else rng.choice([" %s", "%s ", "\t%s\n"]) % q
        hidden = {n for n, _ in w.rules if rng.random() < .3}
        for name, _ in w.rules:
            w.by_name[name].visible = name not in hidden
            if rng.random() < .1:
                w.by_name[name].disable()  # this does not change the tags of a rule
                rec.event("tags of disabled rules")
            rec.eval()
            has = w.by_name[name].has_tag(ask)
            rec.require(has is (bool(q.strip()) and q in occ[name]),
                        "has_tag gave a wrong answer", rules=w.show(), rule=name,
                        tag=repr(ask), answer=has)
        if w.grammar is not None:
            for inc in (False, True):
                kw = {"include_hidden": inc} if inc or rng.random() < .5 else {}
                got = [r.name for r in w.grammar.find_tagged_rules(ask, **kw)]
                want = [n for n, _ in w.rules if (inc or n not in hidden)
                        and q.strip() and q in occ[n]]
                rec.eval()
                rec.require(got == want, "find_tagged_rules listed the wrong rules",
                            rules=w.show(), tag=repr(ask), hidden=sorted(hidden),
                            include_hidden=inc, got=got, expected=want)
                rec.event("find_tagged_rules")
    nodes = occurrences(w.node, w.env)
    for name, _ in w.rules:
        w.by_name[name].visible = True
        w.by_name[name].enable()
    us = utterances(rng, w.lang, w.node, words, 10)
    for ws in us:
        speech = respell(rng, ws, cs_safe=w.cs)
        ws = speech.split()
        how = rng.randrange(3)
        if how == 0:
            got = w.rule.get_tags_matching(speech)
            ok = w.rule.was_matched
        elif how == 1 and w.grammar is not None:
            ok = w.rule in w.grammar.find_matching_rules(speech)
            got = w.rule.matched_tags
        else:
            ok = w.rule.matches(speech)
            got = w.rule.matched_tags
        rec.require(ok is (True if ok else False) and isinstance(got, list), "not a list")
        rec.require(list(w.rule.matched_tags) == list(got), "matched tags change when "
                    "read again", rules=w.show(), utterance=speech)
        check_matched(rec, w, nodes, list(got), ws, ok)
        rec.require(w.rule.tags == occ[w.name], "tags of a rule changed by matching",
                    rules=w.show(), utterance=speech)
        if rng.random() < .08:
            w.rule.disable()
            for r in list(w.by_name.values()) if rng.random() < .5 else []:
                # What other rules match is not matched by this rule.
                if r is not w.rule:
                    r.matches(" ".join(rng.choice(us)))
                    rec.event("rules matched while the rule is disabled")
            rec.require(w.rule.get_tags_matching(speech) == [],
                        "tags are reported for a disabled rule", rules=w.show(),
                        utterance=speech)
            w.rule.enable()
            rec.event("disabled")
