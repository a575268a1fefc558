def add(prop, c):
    E, G, R, P, F, XE, XG, XR = [c[k] for k in ("E", "G", "R", "P", "F", "XE", "XG", "XR")]

    prop("C06", "Tags: a rule's tags, tag lookup and the tags of a match",
         "A rule lists the tags of its expansions and of the rules it references, once per "
         "occurrence, in the order of the compiled text; a rule has a tag, and is found by "
         "it in its grammar, exactly if the tag (ignoring surrounding white space) is "
         "listed and not blank, hidden rules only if asked for. The compiled text of a rule has the tags of its own expansions, in this order, "
         "none if tags are ignored. After a match, the matched "
         "tags are those of the expansions (with those of referenced rules, as far as a "
         "rule is referenced once and outside repetitions) that matched at least one word, "
         "in that order. They are empty after a failed match and when a disabled rule is "
         "matched, and reading them changes nothing.",
         ["inputs", "programs"], "all tagged rules, tags and utterances",
         "tests use a handful of tagged rules; order and membership depend on the shape of "
         "the tree and the derivation",
         [E, R, G], [("Rule.tags, has_tag, matched_tags, get_tags_matching", R),
                     ("Grammar.find_tagged_rules", G),
                     ("Expansion.tag, matched_tags", E)],
         observe=["tag lists and find_tagged_rules results"])

    prop("C07", "The first part of an utterance that matches a rule is found",
         "Looking for the part of an utterance that matches a rule without dictation or "
         "self-reference returns the words, separated by single spaces, of the longest "
         "usable reading at the first position of the utterance at which the rule matches "
         "at least one word (in lower case unless the rule is case sensitive), and nothing "
         "if there is no such position or the rule is disabled. The match data afterwards "
         "describes exactly that part, at its position in the whole utterance; after "
         "nothing was found by an enabled rule, no match data is reported.",
         ["inputs", "programs"], "all rules, and utterances with sentences in any context",
         "tests search a few utterances for a few flat rules",
         [R, E], [("Rule.find_matching_part", R), ("matching_slice", E)],
         observe=["results of find_matching_part and match data afterwards"])

    prop("C08", "Operations finish, and work grows moderately with utterance length",
         "For all rules without self-reference, however repetitions, optional and empty "
         "parts are nested, and for all utterances, matching, searching for a part, "
         "compiling, generating, reading tags and dependencies finish. With rules of a "
         "given size, the work for matching and for searching a part does not explode with "
         "the length of the utterance: repeating an utterance four times costs no more "
         "than about the cube of the factor.",
         ["inputs", "programs"], "all nestings of repetitions, and growing utterances",
         "tests nest at most two operators and use short utterances",
         [E, R], [("Repeat/KleeneStar matcher elements", E),
                  ("Rule.find_matching_part", R)],
         observe=["number of function calls executed by each operation"])

    prop("C09", "Compiled text parses back to the same grammar",
         "Compiling a grammar, rule or expansion made of well-formed names, words and tags "
         "and parsing the text, as a string or through a file, gives an equivalent one: "
         "the same name, header, imports, and active rules in order with their visibility, "
         "and expansions with the same words, references, operators, groups, tags and "
         "weights up to redundant grouping. The text is always accepted as valid, the "
         "parsed grammar matches the same utterances, and text compiled without tags has "
         "none.",
         ["inputs", "programs"], "all grammars with well-formed content",
         "tests round-trip a dozen grammars; escaping, operator nesting and grouping "
         "interact",
         [E, G, R, P], [("compile methods", "%s, %s, %s" % (E, R, G)),
                        ("parse_grammar_string and others", P)],
         observe=["compiled text, parsed objects, files"])

    prop("C10", "Queries are read-only, repeatable and leave nothing changed on errors",
         "Compiling, generating, comparing, hashing, deep copying, printing, traversing "
         "trees, and reading tags, dependencies, structural calculations and match "
         "data of expansions, rules and grammars change no public attribute of any of "
         "them: tree structure, texts, names, weights, tags, visibility, enabling, case "
         "sensitivity, imports and match data. This also holds if they fail, and within "
         "and after joining trees temporarily. Repeating one (other than random "
         "generation) gives the same answer or error; changing a returned list does not "
         "change its grammar.",
         ["inputs", "programs", "fault_sequences"],
         "all queries on all grammars, including ones that fail",
         "tests compare results, not what else changed",
         [E, R, G], [("map_expansion and others, JointTreeContext", E),
                     ("Rule properties and compile", R),
                     ("compile_as_root_grammar and properties", G)],
         observe=["snapshots of every public attribute around each query"])

    prop("C11", "Parsed expansions follow the precedence of the JSGF specification",
         "Well-formed text is parsed, as an expansion, a rule or in a grammar, into the "
         "structure the specification gives it: tags and the unary operators + and * bind "
         "to the preceding literal (a run of words), reference or group, sequences bind "
         "tighter than alternatives, weights belong to their alternative, and parentheses "
         "and brackets override this. Tag text is unescaped, <NULL> and <VOID> are the "
         "special rules, and every parsed expansion knows its parent and its rule.",
         ["inputs"], "all well-formed token sequences",
         "tests parse about a hundred texts; precedence errors show for particular "
         "combinations of operators",
         [P], [("get_exp_parser and its parse actions", P)],
         observe=["structure of parsed expansions"])

    prop("C12", "Malformed text is rejected with documented errors, valid text accepted",
         "Every text is either parsed or rejected with a ParseException or GrammarError "
         "(a TypeError for negative weights), as an expansion, rule, grammar or grammar "
         "file, and texts that violate the syntax are never accepted: unbalanced or empty "
         "groups, dangling operators, misplaced tags or weights, invalid or reserved "
         "names, missing or misordered headers, names, imports and rules. The validity "
         "test of a grammar text is true exactly if it can be parsed.",
         ["inputs"], "all character strings",
         "tests reject a few dozen malformed texts",
         [P, F], [("parsers and parse actions", P), ("names", F)],
         observe=["results and exceptions of parsing functions and valid_grammar"])

    prop("C13", "Layout, comments and line ends do not change the meaning of text",
         "Grammar text means the same however it is laid out: additional white space and "
         "line breaks inside rules, empty lines, ';' or newlines as line ends, either kind "
         "of C++ comment wherever white space may stand after the header, and the letter "
         "case of 'public', 'import' and '#JSGF'. All such texts are valid, give equal "
         "grammars with the same compiled text, and comments never contribute content.",
         ["inputs"], "all layouts of all grammar texts",
         "tests use a few layouts for a few grammars",
         [P], [("line delimiters, comments, keywords", P)],
         observe=["parsed grammars and compiled text"])

    prop("C14", "Root grammars: one public rule choosing between the visible rules",
         "Compiled as a root grammar (by method, to a file, or as a RootGrammar), a "
         "grammar's text has the header, name and imports of the grammar, one public rule "
         "'root' that is the choice between references to the visible active rules in "
         "their order, and all active rules as hidden ones with their content; without "
         "visible active rules it has no rules. Active rules called 'root' are an error, "
         "and RootGrammar rejects rules of that name. The text is valid, its root rule "
         "matches what some visible active rule matches, and compiling changes nothing, "
         "including visibility, even if it fails.",
         ["inputs", "histories", "fault_sequences"],
         "all grammars and histories of hiding, disabling, adding and removing rules",
         "tests compile a few root grammars whose rules are all well-formed",
         [G], [("Grammar.compile_as_root_grammar, RootGrammar", G)],
         observe=["root grammar text, parsed again, and state before and after"])

    prop("C15", "A grammar is an ordered registry of uniquely named rules and imports",
         "After any history of adding, removing, renaming, showing and looking up rules "
         "and imports, a grammar lists exactly the rules and imports added and not "
         "removed, in the order they were added, each once; rules know their grammar and "
         "qualified names, and every rule name finds its rule. Adding a comparable rule "
         "again does nothing; wrong types (TypeError), another rule of the same name, "
         "unknown or foreign rules and imports, rules that others depend on (unless told "
         "to ignore that) and invalid names (GrammarError) are rejected without changing "
         "anything.",
         ["histories", "fault_sequences"], "all histories of registry operations",
         "tests check single operations; errors appear after particular sequences",
         [G, R, F], [("add_rule, remove_rule, get_rule, add_import, remove_import", G),
                     ("Rule.name, grammar, qualified names", R)],
         observe=["rule and import lists, lookups and errors after every operation"])

    prop("C16", "Disabled rules take no part, enabling restores them, hiding only hides",
         "After any history of enabling and disabling rules (by method, name, object or "
         "comparable object, repeatedly), the disabled rules and no others match nothing, "
         "find and generate nothing, have no matching tags and are absent from compiled "
         "text; enabled rules match, report and compile like rules that were never "
         "disabled, also through references to disabled ones. Hidden rules are left out of "
         "visible rules and of grammar-wide matching and are not public in compiled text, "
         "and keep working otherwise. Enabling or disabling unknown rules is a "
         "GrammarError that changes nothing.",
         ["histories"], "all histories of enabling, disabling, hiding, matching, compiling",
         "tests disable a rule or two of one small grammar",
         [G, R], [("Rule.enable, disable, active, visible", R),
                  ("Grammar.enable_rule, disable_rule, match_rules", G)],
         observe=["attributes, text, matches and match data after every operation"])

    prop("C17", "Case sensitivity reaches the right literals and only changes letter case",
         "Setting the case sensitivity of a grammar sets all its rules; setting that of a "
         "rule, creating it, or adding it to a grammar sets all its literals and those of "
         "the rules its references resolve to then (names resolve within a grammar only); "
         "an expansion set later, and setting a literal's, affect nothing else. Case-sensitive literals keep and compile their given text "
         "and match only its exact letters; others show, compile and match lower case, in "
         "any spelling, and report it in match data; no setting loses the letters given. "
         "References that cannot be resolved do not keep settings from reaching the rest.",
         ["histories", "inputs"], "all histories of settings on grammars, rules, literals",
         "tests switch a few settings once on small grammars",
         [E, R, G], [("Literal.case_sensitive, text", E), ("Rule.case_sensitive", R),
                     ("Grammar.case_sensitive, add_rule", G)],
         observe=["settings, texts, compiled text and matches after every step"])

    prop("C18", "Imports resolve to the public rules of grammar files by every valid name",
         "In every graph of grammar files, also a cyclic one, a name means a rule of the "
         "grammar itself, else the one imported public rule with this fully qualified "
         "name, else the only one with this simple or qualified name, else the public "
         "rule with this fully qualified name; any other name is a GrammarError, and an "
         "import or fully qualified name that means no public rule of a readable file "
         "is a JSGFImportError. Files are found by "
         "name or package path with the first existing extension, and read once: repeated "
         "lookups give the same rules. References within rules are resolved in the grammar "
         "of the rule, so rules match and list dependencies accordingly, and failed "
         "resolutions change nothing that later ones rely on.",
         ["programs", "configurations", "histories", "fault_sequences"],
         "all graphs of grammar files and sequences of lookups",
         "tests resolve a handful of fixed grammar files",
         [G, F, R, P], [("Import.resolve, Grammar.resolve_imports, import_environment, "
                         "get_rule", G), ("NamedRuleRef.referenced_rule", E)],
         observe=["results of lookups, resolutions, matches and files read"])

    prop("C19", "Child lists behave like lists, and every expansion knows its parent",
         "After any history of operations on the child lists of expansions (appending, "
         "inserting, extending, adding, setting items and slices, popping, removing, clearing, "
         "assigning, moving between lists), each list has the elements, order, length and "
         "equality the same operations give a Python list, with strings made literals. "
         "Each expansion's parent is the expansion in whose list it is, or None, and its "
         "root is the topmost one. Wrong types (TypeError), indices (IndexError), sizes "
         "and absent elements (ValueError) are rejected, with lists and parents as before.",
         ["histories", "fault_sequences"], "all histories of list operations",
         "tests do each list operation once on one list",
         [E], [("ChildList", E), ("Expansion.children, parent, root_expansion", E)],
         observe=["elements, parents and roots of all expansions after every operation"])

    prop("C20", "Equality, hashes and copies are by content",
         "Expansions without dictation and with pairwise different weighted alternatives "
         "are equal exactly if type and content are (literals by shown text and case "
         "sensitivity, alternatives with their weights in any order, references by type, "
         "name and, if by object, referenced rule), whatever their tags; rules exactly if "
         "name, visibility, expansion and case sensitivity are; grammars exactly if name, "
         "header, rules and imports in order and case sensitivity are; imports by name; objects of different kinds never. Equal "
         "objects have equal hashes and are found in sets, dictionaries, lists and trees. "
         "A deep copy of an expansion has equal content, tags, weights and letters, matches "
         "alike, has no match data, parent or parts of the original (references excepted), "
         "and is independent of it; a shallow copy is equal and has the same children. Deep "
         "copies of rules and grammars match alike, resolving references by name in the copy.",
         ["inputs", "programs"], "all expansions, rules, grammars, and pairs of them",
         "tests compare a few pairs and copy a few flat expansions",
         [E, R, G, F], [("__eq__, __hash__, copy of expansions", E),
                        ("Rule.__eq__, __hash__", R), ("Grammar.__eq__, Import", G)],
         observe=["results of ==, !=, hash, in, and of matching copies"])

    prop("C21", "Generated strings are sentences, in the specified proportions",
         "Strings generated by an enabled rule or an expansion without <VOID>, dictation or "
         "self-reference are sentences of it: words of its literals with single spaces, "
         "accepted when matched, if read without backtracking. Alternatives are chosen "
         "equally often, or with probability weight over sum of weights, never those of "
         "weight 0; optional parts are present half of the time; repetitions repeat one or "
         "more (+) or zero or more (*) times, and vary. A disabled rule generates the empty "
         "string, and references to it generate nothing. Generating changes nothing.",
         ["inputs", "programs"], "all rules and expansions, and all random choices",
         "tests check a few rules, and frequencies for none but one pair of weights",
         [E, R], [("generate of each expansion class", E), ("Rule.generate", R)],
         observe=["generated strings and their frequencies"])

    prop("C22", "Weights stay with their alternatives and are used as documented",
         "A weight set by alternative, comparable expansion, index, compiled text or "
         "dictionary (number or numeric string) is the weight of exactly that alternative, "
         "whatever is set, added, removed, reordered or modified later, among pairwise "
         "different alternatives. Negative, infinite, non-numeric values and wrong indices are "
         "rejected without effect. If only some alternatives have weights, compiling, "
         "matching and generating raise GrammarError; otherwise text shows each weight to "
         "four decimals before its alternative, and parsing such text gives the same "
         "weights. Alternatives of weight 0 are never matched or generated; of equally long "
         "readings, the one with the highest weight is used.",
         ["histories", "inputs"], "all histories of changes to weights and alternatives",
         "tests set each weight once; keys go stale when alternatives are changed later",
         [E, P], [("AlternativeSet.set_weight, weights, compile, generate", E),
                  ("parsed weights", P)],
         observe=["weights, texts, generated strings and match data after every change"])

    prop("C28", "Pickled grammars, rules and expansions come back the same and independent",
         "Pickling and unpickling a grammar, rule or expansion, by every protocol and at "
         "any time, gives an object with equal content, tags, weights, letters, links "
         "(parents, rules, grammars, references), match data and saved repetitions; "
         "compiling, matching and structural questions give the same results for it "
         "afterwards. Objects pickled together keep their relation, and a part of a tree "
         "brings the tree along. Changing or matching the unpickled objects does not affect "
         "the originals, nor the reverse.",
         ["histories", "inputs"], "all grammars, histories before pickling and protocols",
         "tests pickle one expansion of each type; parsers and saved data are not compared",
         [E, R, G], [("Expansion.__getstate__, Repeat.__setstate__, ChildList", E),
                     ("AlternativeSet.__getstate__", E)],
         observe=["content, links, match data and match results of both objects"])

    prop("C27", "Traversals visit every expansion exactly once per occurrence, in order",
         "Mapping, flat mapping, filtering and finding call the function once per "
         "occurrence of each expansion in the tree of the one given, also through "
         "references unless shallow, parents before (pre-order) or after (post-order) "
         "their children, left to right; finding stops at the first match. They return "
         "exactly the nested tuples, results, or expansions that this gives, and leaves "
         "are the expansions without children in that order. Errors of the function come "
         "through at once, wrong orders raise ValueError before any call, and missing "
         "rules GrammarError unless shallow. Saved match data of pairwise different "
         "expansions is exactly what is restored.",
         ["inputs", "programs"], "all trees, orders, functions and edits before",
         "tests traverse a few flat trees with string functions",
         [E], [("map_expansion, find_expansion, filter_expansion, flat_map_expansion", E),
               ("save_current_matches, restore_current_matches", E),
               ("Expansion.leaves, collect_leaves", E)],
         observe=["order and number of calls, results"])

    prop("C29", "Structural questions are answered for the tree as it is",
         "Root, parent, leaves, leaves after, closest repetition, whether optional "
         "(self or ancestor) or alternative, descent (also through references) and mutual "
         "exclusion (in different alternatives of one set, within one tree) of expansions "
         "are those of the tree, in any order of asking and however often, also after "
         "changes followed by invalidate_calculations. In a joint tree context the same "
         "holds for the tree joined with those of referenced rules (each referenced once); "
         "rules without dictation match as outside of it; when it is left, also by an error, "
         "or cannot be entered, no tree remains joined and matching is as before.",
         ["histories", "programs"], "all trees, pairs of parts, questions and edits",
         "tests ask a few questions once, so stored answers are hardly ever used",
         [E], [("JointTreeContext", E),
               ("Expansion.is_descendant_of, mutually_exclusive_of, leaves_after, "
                "matchable_leaves_after", E),
               ("Expansion._lookup_dict, invalidate_calculations", E)],
         observe=["answers, and parents of all rule expansions in and after contexts"])

    prop("C30", "Dependencies of rules are what they reference, at any time",
         "The dependencies of a rule are exactly the rules it references directly or "
         "indirectly, by name or object, whether enabled, visible or in the same grammar; "
         "its dependent rules are exactly the rules of its grammar of which it is a "
         "dependency (none without a grammar), and the reference count is their number. "
         "This holds after any history of adding, removing, renaming and changing "
         "rules; rules equal to one of a grammar count as that one. A rule with dependent rules is not removed "
         "from its grammar unless asked to ignore that.",
         ["histories", "programs"], "all reference graphs and histories of changes",
         "tests check direct references of a few rules once",
         [R, G], [("Rule.dependencies, dependent_rules, reference_count", R),
                  ("Grammar.remove_rule", G)],
         observe=["the three answers of every rule after every change"])

    prop("C31", "Names, tags and other values are accepted exactly as documented",
         "By constructor, attribute or valid(), rules, grammars, imports and references "
         "accept exactly the documented names (one or more alphanumeric or listed special "
         "characters, dotted parts where qualified, final wildcards for imports, no "
         "semicolons for grammars, no reserved names) and otherwise raise GrammarError; "
         "qualified names and parts of import names follow from names. Tags are stripped "
         "strings or empty and are escaped in text; matches set become words with single "
         "spaces, or none (empty if optional); literal text, children, "
         "parents, rule expansions and match data of wrong types raise TypeError. A "
         "rejected value changes nothing.",
         ["inputs", "fault_sequences"], "all strings and values of other types",
         "tests try some names of each kind; shared parser elements decide validity",
         [F, E, R, G], [("BaseRef.name, valid, matches_name", F), ("Import", G),
                        ("Expansion.tag, compiled_tag, children, parent", E),
                        ("Rule.expansion, qualified_name", R)],
         observe=["acceptance, resulting values and unchanged state after rejection"])

    prop("C23", "Dictation takes words up to the next literal words, wherever it stands",
         "Dictation matches one or more words: those up to the first word that any literal "
         "which may come next in the tree begins with (looking past optional parts and "
         "through references), or one word if more dictation may follow directly. A rule "
         "with dictation matches an utterance only if it is one of its sentences, with "
         "dictation standing for one or more words, and matches all those read that way. "
         "Match data then spells out that reading, word for word, and is empty after a "
         "failure. This holds in joint trees (with what follows the reference) and after "
         "leaving them, and after literals or case sensitivity were changed and "
         "invalidate_matcher was called. Dictation compiles to <DICTATION> and is equal to "
         "its copies.",
         ["inputs", "programs"], "all trees with dictation and utterances",
         "tests match some ten fixed sequences with dictation",
         [XE, E], [("Dictation._make_matcher_element, _collect_next_literals", XE),
                   ("JointTreeContext", E)],
         observe=["results and match data of every match, compared with a reading"])

    prop("C24", "Expanding dictation keeps the sentences and leaves nothing to expand",
         "expand_dictation_expansion gives pairwise different expansions without "
         "alternatives or optional parts containing dictation. Together they have exactly "
         "the sentences of the original (but for saying nothing), weights of alternatives "
         "that stay together are kept, an expansion without dictation is returned as one "
         "equal expansion, expanding results again changes nothing, and the results "
         "share no parts with each other or the original, which stays as it was, in its "
         "rule. Dictation in referenced rules counts too; references to be expanded are "
         "replaced by what their rules say and those rules stay as they were. "
         "Repetitions are not expanded from within.",
         ["programs"], "all trees of alternatives, optional parts and dictation",
         "tests compare lists of expected expansions for some dozen trees",
         [XE], [("expand_dictation_expansion", XE)],
         observe=["sentences, parts, parents and weights of originals and results"])

    prop("C25", "Sequence rules are spoken step by step, in order",
         "calculate_expansion_sequence splits an expanded expansion into steps that are "
         "either dictation alone or free of it, with the same sentences in order. "
         "Expansions with choices that contain dictation are rejected. A "
         "SequenceRule is at one step at a time, compiles that step (or nothing at dictation "
         "or when refusing), matches it as an ordinary rule would, refuses after any "
         "attempt until advanced or restarted, and advances up to the last step. Each step "
         "keeps its match, entire_match joins all of them (None until all matched), "
         "the original expansion then carries them all, and restarting clears them. "
         "Originals and referenced rules keep their form, and later match on their own as "
         "they did before. "
         "Case sensitivity set for the rule holds for every step and for the original. "
         "Tags, visibility, can_repeat, has_next_expansion and "
         "current_is_dictation_only answer for the rule as it is. This holds for any "
         "history of attempts, advances, refusals and restarts.",
         ["histories", "programs"], "all expanded expansions and histories",
         "tests go through a few rules once, all steps matching",
         [XR, XE], [("SequenceRule", XR), ("calculate_expansion_sequence", XE)],
         observe=["all state of the rule after every operation"])

    prop("C26", "Dictation grammars track every rule added, generated and matched",
         "A DictationGrammar uses rules as they are where it can and otherwise generates "
         "sequence rules that together have the rule's sentences, named after it "
         "with _0, _1..., of its visibility and mapped to it; names taken are rejected. "
         "Added and generated rules are listed and found in the order of adding. "
         "An utterance matches exactly the visible rules whose current step it is; sequence "
         "rules are then advanced (unless asked not to) and others refuse until reset. "
         "The original of a rule fully matched carries the whole match. The compiled "
         "grammar (and root grammar) has exactly the rules that can be spoken now. Removing a rule removes "
         "what was generated from it, rules in use are kept and unknown ones rejected. "
         "The grammar's case sensitivity is that of all rules and steps, and its name, header "
         "and imports are in the text; enabling and disabling a rule concerns what was "
         "generated from it; rules used as they are can be changed. "
         "This holds for any history of adding, removing, matching, changing, enabling and "
         "resetting.",
         ["histories", "programs"], "all sets of rules and histories of operations",
         "tests use one or two rules with one or two utterances",
         ["jsgf/ext/grammars.py", XR], [("DictationGrammar", "jsgf/ext/grammars.py"),
                                        ("SequenceRule", XR)],
         observe=["rules, names, steps, matches and compiled text after every operation"])
