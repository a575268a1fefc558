"""The outcome of a match never depends on earlier matches."""
import copy
from jsgf import GrammarError, Rule
from ..world import World, random_world
from ..gen import utterances, respell
from ..snap import rule_data, diff, closure, slice_t
from ..model import REF

TECHNIQUE = "runtime monitor: long-lived rules against newly built twins after every match"
LEVEL = "exploration"
QUICK, THOROUGH = 1600, 16000
RULE = ("histories of 14 match operations (whole rules, expansions, parts, grammar-wide, "
        "copies, aborted matches) over one long-lived grammar; after each operation the "
        "results and all match data are compared with a newly built twin that ran only "
        "that operation; non-trivial = distinct histories containing both a success and a "
        "failure")
ASSUMPTIONS = ["rules do not refer to themselves"]


def twin(w):
    rules = [(n, x.clone()) for n, x in w.rules]
    return World(rules, w.style, w.cs, w.hidden)


def do(w, op, name, speech):
    r = w.by_name[name]
    if op == "rule":
        return r.matches(speech)
    if op == "expansion":
        return r.expansion.matches(speech)
    if op == "part":
        return r.find_matching_part(speech)
    if op == "grammar":
        return [x.name for x in w.grammar.find_matching_rules(speech)]
    if op == "tags":
        return r.get_tags_matching(speech)
    raise ValueError(op)


def no_match_data(rec, w, name, why, speech):
    for nm in closure(name, w.env):
        for x in w.env[nm].walk():
            rec.eval()
            sl = x.obj.matching_slice
            if x.obj.current_match or sl is not None or x.obj.had_match or \
                    getattr(x.obj, "repetitions_matched", 0):
                rec.fail("match data is left after %s" % why, rules=w.show(),
                         rule=nm, expansion=x.show(), text=x.obj.current_match,
                         position=str(sl), utterance=speech)
        rec.require(not w.by_name[nm].was_matched, "was_matched after %s" % why,
                    rules=w.show(), rule=nm, utterance=speech)
    rec.require(w.by_name[name].matched_tags == [], "matched tags after %s" % why,
                rules=w.show(), utterance=speech)
    rec.event("failures checked for left-over data")


def part(rec, rng, w, name, speech, hist):
    """Match a part of a tree, or a copy of it, on its own."""
    i = rng.randrange(w.env[name].size())
    how = rng.choice(["itself", "itself", "copy", "deepcopy", "shallow"])

    def target(w):
        x = list(w.env[name].walk())[i]
        if how == "itself":
            return x, x.obj
        if how == "deepcopy":
            e = copy.deepcopy(x.obj)
        else:
            # Other shallow copies take over the children.
            e = x.obj.copy(shallow=how == "shallow" and not x.kids)
        if any(y.kind == REF for y in x.walk()):
            # Only rules know what their references mean.
            r = Rule("copied", True, e, case_sensitive=w.cs)
            r.grammar = w.grammar
        return x, e
    x, e = target(w)
    own = how != "itself" and not any(y.kind == REF for y in x.walk())
    before = {nm: rule_data(nm, w.env, w.by_name) for nm, _ in w.rules} if own else None
    got = e.matches(speech), e.current_match, slice_t(e.matching_slice)
    if own:
        after = {nm: rule_data(nm, w.env, w.by_name) for nm, _ in w.rules}
        for nm in before:
            rec.eval()
            if before[nm] != after[nm]:
                rec.fail("matching a copy changed the data of the original",
                         rules=w.show(), expansion=x.show(), utterance=speech,
                         difference=diff(before[nm], after[nm]))
        rec.event("copies matched")
    else:
        rec.event("parts of trees matched")
    hist.append((how, x.show(), speech))
    # A newly built counterpart says the same.
    y, e2 = target(twin(w))
    want = e2.matches(speech), e2.current_match, slice_t(e2.matching_slice)
    rec.eval()
    if got != want:
        rec.fail("the result of matching a part of a tree or a copy of it depends on "
                 "earlier matches", rules=w.show(), expansion=x.show(), utterance=speech,
                 history=hist[-6:], got=repr(got), newly_built=repr(want))


def case(rec, rng, i):
    words, w = random_world(rng, nrules=rng.choice([1, 2, 3]), p_tag=.3)
    if rng.random() < 0.15 and w.used_elsewhere(rng, words):
        rec.event("parts that were parts of other rules before")
    if i < 3:
        rec.sample(w.show())
    hist, kinds = [], set()
    pool = []
    for name, node in w.rules:
        pool += [(name, u) for u in utterances(rng, w.lang, node, words, 4)]
    for step in range(14):
        name, ws = rng.choice(pool)
        if rng.random() < .7:
            name = w.name
        speech = respell(rng, ws, cs_safe=w.cs)
        op = rng.choice(["rule", "rule", "rule", "expansion", "part", "tags"] +
                        (["grammar"] if w.grammar is not None else []))
        hist.append((op, name, speech))
        if w.grammar is not None and len(w.rules) > 1 and rng.random() < .1:
            # A match aborted by an error: a referenced rule goes missing for a while.
            victim = w.rules[0][0]
            obj = w.by_name[victim]
            w.grammar.remove_rule(obj, ignore_dependent=True)
            try:
                do(w, "rule" if op == "grammar" else op, w.name, speech)
            except GrammarError:
                rec.event("matches aborted by an error")
            w.grammar.add_rule(obj)
            # Restore the original order of the rules.
            for nm, _ in w.rules[1:]:
                r = w.by_name[nm]
                w.grammar.remove_rule(r, ignore_dependent=True)
                w.grammar.add_rule(r)
            hist.append(("aborted", victim, speech))
        got = do(w, op, name, speech)
        t = twin(w)
        want = do(t, op, name, speech)
        rec.eval()
        rec.event("twin comparisons: %s" % op)
        if got != want:
            rec.fail("the result of %s depends on earlier matches" % op, rules=w.show(),
                     history=hist[-6:], got=repr(got), newly_built=repr(want))
        names = [n for n, _ in w.rules] if op == "grammar" else [name]
        for nm in names:
            if op == "grammar" and nm != w.rules[-1][0]:
                continue
            a = rule_data(nm, w.env, w.by_name)
            b = rule_data(nm, t.env, t.by_name)
            if a != b:
                rec.fail("match data depends on earlier matches", rules=w.show(),
                         history=hist[-6:], difference=diff(a, b))
        failed = got is False or got is None or (op == "expansion" and
                                                 not w.by_name[name].was_matched)
        kinds.add(bool(failed))
        if failed:
            no_match_data(rec, w, name, "a failed match", speech)
        if rng.random() < .3:
            part(rec, rng, w, name, speech, hist)
        if rng.random() < .12:
            w.by_name[name].expansion.reset_for_new_match()
            no_match_data(rec, w, name, "resetting", speech)
    if len(kinds) == 2:
        rec.nontrivial(w.node.key(), tuple(hist))
