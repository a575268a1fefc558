"""
Source of properties.jsonl and MANIFEST.json: `python3 tools/meta.py` rewrites both.
"""
import ast
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
E, G, R, P, F = ("jsgf/expansions.py", "jsgf/grammars.py", "jsgf/rules.py",
                 "jsgf/parser.py", "jsgf/references.py")
XE, XG, XR = "jsgf/ext/expansions.py", "jsgf/ext/grammars.py", "jsgf/ext/rules.py"

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    p = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if state:
        p["anchors"]["state"] = [{"name": a, "meaning": b, "where": c}
                                 for a, b, c in state]
    if observe:
        p["anchors"]["observe_at"] = observe
    p["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    PROPS.append(p)


prop("C01", "A rule matches exactly the utterances its expansion describes",
     "For rules without dictation or self-reference, an active rule never matches an "
     "utterance that is not, word for word, a sentence of its expansion, and it matches "
     "every sentence that is read by taking the longest usable alternative and every "
     "optional or repeated part for as long as it can be taken; letter case counts only "
     "for case-sensitive rules, white space between words never counts, and alternatives "
     "with weight 0 are never used. Matching an expansion directly returns the "
     "white-space-normalised rest of the utterance after the longest such reading, or all "
     "of it if there is none. Looking up the matching rules of a grammar returns exactly "
     "its visible, active matching rules in order, and a disabled rule matches nothing.",
     ["inputs", "programs"], "all expansions, sets of rules and utterances",
     "tests match a few dozen hand-written rules against a handful of utterances; the "
     "space of expansion shapes and utterances is unbounded",
     [E, R, G], [("matcher elements and match data", "jsgf/expansions.py: Expansion.matches,"
                  " _init_matcher, _make_matcher_element of each class"),
                 ("Rule.matches", "jsgf/rules.py"),
                 ("Grammar.find_matching_rules", "jsgf/grammars.py")],
     observe=["results of Rule.matches, Expansion.matches, find_matching_rules"])

prop("C02", "After a success the match data is one consistent reading of the utterance",
     "After a rule without dictation or self-reference matches, the matched text and "
     "position reported by its expansions and by those of rules it references once "
     "(outside repetitions) form one "
     "reading of the utterance: a sequence's parts follow each other, one alternative of "
     "a set takes exactly the set's part, a repetition reports its last repetition and a "
     "count, a literal reports its own text where the utterance has it. Expansions and "
     "referenced rules that took no part in the reading report no matched text "
     "('' if they are or are inside an optional expansion or are NULL, otherwise nothing "
     "at all), no position and no "
     "repetitions. Where only one reading is possible, the data is exactly that reading.",
     ["inputs", "programs"], "all rules, and all utterances they match",
     "tests look at the data of a few expansions after a few matches",
     [E, R], [("Expansion.current_match, matching_slice, repetitions_matched",
               "jsgf/expansions.py"), ("reset_match_data", "jsgf/expansions.py"),
              ("NamedRuleRef/RuleRef matcher", "jsgf/expansions.py")],
     observe=["current_match, matching_slice, had_match, repetitions_matched"])

prop("C03", "The outcome of a match never depends on earlier matches",
     "The result of matching an utterance and all data reported afterwards (matched text, "
     "positions, repetitions, tags, whether rules matched) depend only on the rules and "
     "on that utterance: whatever was matched before with "
     "the same objects, successfully or not, as whole rules, single expansions, parts of "
     "an utterance, across a grammar or interrupted by an error, a newly built copy of the "
     "rules gives the same outcome. Copies of expansions neither share nor disturb the "
     "data of the originals.",
     ["histories"], "all histories of match operations on a set of rules",
     "tests match each rule a few times; leftovers show only for particular sequences of "
     "partial failures and successes over shared, cached matcher objects",
     [E, R, G], [("reset_for_new_match / reset_match_data", "jsgf/expansions.py"),
                 ("matcher element caching", "jsgf/expansions.py"),
                 ("discarding data of attempts", "jsgf/expansions.py")],
     observe=["all match data of rules and expansions after every operation"])

prop("C04", "Edits to rules take effect at the next use",
     "After any public edit of a rule that was already matched or compiled (children "
     "added, removed, replaced or reordered, texts, tags, weights, case sensitivity, "
     "the expansion of a rule or of a referenced rule replaced, rules replaced or renamed "
     "in their grammar), matching results, match data and compiled text are those of a "
     "newly built rule of the edited shape. Weights stay with the alternatives that keep "
     "them, and no weight of a removed alternative reappears.",
     ["histories"], "all interleavings of edits with matching and compiling",
     "tests edit before the first use or make single edits; cached matchers go stale only "
     "when an edit follows a match",
     [E, R, G], [("invalidate_matcher", "jsgf/expansions.py"),
                 ("ChildList", "jsgf/expansions.py"),
                 ("Literal.text setter, AlternativeSet.set_weight", "jsgf/expansions.py"),
                 ("Rule.expansion setter", "jsgf/rules.py")],
     observe=["matching results, match data, compiled text after each edit"])

prop("C05", "Data is saved for every repetition",
     "After a rule without dictation or self-reference matches, an outermost repetition "
     "reports how many times it was matched, "
     "and for each expansion below it one text and one position per repetition, which are "
     "the data a match of that repetition alone has, in utterance order and covering the "
     "repetition's part of the utterance without gaps. Expansions skipped in a repetition "
     "have no text or position for it, and nothing is saved for expansions that are not "
     "below it or by repetitions that were not matched.",
     ["inputs", "programs"], "all rules with repetitions, and all utterances they match",
     "tests read the lists for a few flat repetitions with up to three repetitions",
     [E], [("Repeat matcher and saved data", "jsgf/expansions.py: Repeat."
            "get_expansion_matches, get_expansion_slices, repetitions_matched")],
     observe=["get_expansion_matches, get_expansion_slices, repetitions_matched"])


from meta2 import add  # noqa  (properties C06 onwards)
add(prop, dict(globals()))


def consts(id):
    """Constants of a check module, read without importing the library."""
    class M(object):
        pass
    t = ast.parse(open(os.path.join(HERE, "vf", "checks", id + ".py"),
                       encoding="utf-8").read())
    for st in t.body:
        if isinstance(st, ast.Assign):
            try:
                v = ast.literal_eval(st.value)
            except ValueError:
                continue
            tg = st.targets[0]
            if isinstance(tg, ast.Tuple):
                for a, b in zip(tg.elts, v):
                    setattr(M, a.id, b)
            elif isinstance(tg, ast.Name):
                setattr(M, tg.id, v)
    return M


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks = []
    for p in PROPS:
        m = consts(p["id"])
        checks.append({
            "property": p["id"],
            "quick_cmd": "bash check.sh %s" % p["id"],
            "thorough_cmd": "bash check.sh %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": m.TECHNIQUE, "level": m.LEVEL,
            "level_note": getattr(m, "NOTE", "observes generated executions of the real "
                                  "code with an independent oracle; seeded by VERIF_SEED, "
                                  "%d cases quick, %d thorough" % (m.QUICK, m.THOROUGH))})
    man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
           "not_applicable": [],
           "notes": "pure-Python library without concurrency or native code: sanitizers "
                    "and race detectors have nothing to observe; the technique is runtime "
                    "monitors with oracles. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    try:
        import jsonschema
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for p in PROPS:
            jsonschema.validate(p, s)
        jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
        print("valid: %d properties" % len(PROPS))
    except ImportError:
        print("not validated")


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(HERE, "tools"))
    main()
