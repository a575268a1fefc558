"""Operations finish, and work grows moderately with the length of the utterance."""
import sys
from ..world import World
from ..gen import grammar_nodes, Cfg, vocab, tree, respell
from ..model import Node, REP, STAR, OPT, NULL, SEQ, ALT, LIT, REQ

TECHNIQUE = "runtime monitor counting executed calls under hostile repetitions"
LEVEL = "exploration"
QUICK, THOROUGH = 350, 6000
RULE = ("rules made of nested repetitions, optional and empty parts, matched and searched "
        "against utterances of growing length, compiled, generated and parsed, under a "
        "count of executed function calls; non-trivial = distinct rules whose work was "
        "compared for two lengths")
ASSUMPTIONS = ["rules do not refer to themselves",
               "a function call count stands for time"]
BASE = 400000          # calls allowed for any small operation


class TooMuch(BaseException):
    pass


def count(fn, limit):
    n = [0]

    def prof(frame, event, arg):
        if event == "call":
            n[0] += 1
            if n[0] > limit:
                sys.setprofile(None)
                raise TooMuch()
    sys.setprofile(prof)
    try:
        r = fn()
    finally:
        sys.setprofile(None)
    return n[0], r


def hostile(rng, words, d):
    if d == 0:
        return Node(LIT, text=rng.choice(words)) if rng.random() < .75 else Node(NULL)
    k = rng.choice([REP, STAR, STAR, REP, OPT, SEQ, ALT, REQ])
    if k in (SEQ, ALT, REQ):
        return Node(k, [hostile(rng, words, d - 1) for _ in range(rng.choice([1, 2, 2, 3]))]
                    or [Node(NULL)])
    return Node(k, [hostile(rng, words, d - 1)])


def case(rec, rng, i):
    words = vocab(rng)
    if rng.random() < .5:
        node = Node(rng.choice([REP, STAR]), [hostile(rng, words, rng.choice([1, 2, 3, 4]))])
        rules = [("r0", node)]
    else:
        words, rules = grammar_nodes(rng, Cfg(p_weight=0), maxkids=3)
        rules = [list(x) for x in rules]
        rules[-1][1] = Node(rng.choice([REP, STAR]), [rules[-1][1]])
        rules = [tuple(x) for x in rules]
    w = World(rules, rng.choice(["grammar", "loose"]))
    if w.node.size() > 45:
        rec.event("rules too large for the count")
        return
    if i < 3:
        rec.sample(w.show())
    child = w.node.kids[0]

    def run(what, fn, limit, **kw):
        rec.eval()
        rec.event(what)
        try:
            return count(fn, limit)
        except TooMuch:
            rec.fail("%s did not finish within %d function calls" % (what, limit),
                     rules=w.show(), **kw)

    def speech(m):
        out = []
        for _ in range(m):
            out += (w.lang.sample(child, rng, .5) or [rng.choice(words)])[:12]
            if len(out) > 12 * m:
                break
        return out

    for m in (0, 1, 2):
        for tail in ([], ["zulu"], [rng.choice(words)]):
            s = respell(rng, speech(m) + tail)
            run("matching", lambda: w.rule.matches(s), BASE, utterance=s)
            run("searching a part", lambda: w.rule.find_matching_part(s), BASE * 3,
                utterance=s)
    run("compiling", lambda: w.rule.compile(), BASE)
    for _ in range(3):
        # Strings of nested repetitions have an expected length that is exponential in
        # the depth of nesting only.
        run("generating", lambda: w.rule.generate(), BASE * 50)
    run("reading tags", lambda: (w.rule.tags, w.rule.matched_tags), BASE)
    if w.grammar is not None:
        run("dependencies", lambda: w.rule.dependencies, BASE)

    # Growth: the same parts repeated 4 times as often.
    for what, op, power in (("matching", "matches", 24),
                            ("searching a part", "find_matching_part", 40)):
        a = speech(6)
        s1, s2 = " ".join(a), " ".join(a * 4)
        if not a or len(a) > 40:
            continue
        tail = rng.choice(["", " zulu"])
        f = getattr(w.rule, op)
        f(s1)                         # parsers are built lazily; warm up
        c1, _ = run(what, lambda: f(s1 + tail), BASE * 20)
        limit = c1 * power + 20000
        c2, _ = run(what + " (4 times longer)", lambda: f(s2 + tail), limit,
                    utterance=s2 + tail, calls_for_a_quarter=c1)
        rec.nontrivial(w.node.key(), op)
        rec.event("share of the limit used: %s" % (
            "up to 1/10" if c2 * 10 <= limit else
            "up to 1/4" if c2 * 4 <= limit else
            "up to 1/2" if c2 * 2 <= limit else "more than 1/2"))
    if i % 40 == 0:
        s = " ".join(speech(300)[:900])
        run("matching a very long utterance", lambda: w.rule.matches(s), BASE * 100)
