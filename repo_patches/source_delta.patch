From ebd6f49a784c827158550518ea55c2523edf38c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:28 +0000
Subject: [PATCH 01/73] fix: compute the unmatched remainder from where the
 match ended

Expansion.matches used the length of the matched words joined with single
spaces, so trailing text could be swallowed and extra whitespace between
words made a match fail. Data from failed and previous matches was also
left in the expansion tree.
---
 jsgf/expansions.py     | 26 ++++++++++++++++----------
 jsgf/ext/expansions.py |  4 ++--
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index e9e3469..e4f3c15 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -669,18 +669,24 @@ class Expansion(object):
         :param speech: str
         :returns: str
         """
-        # Match the string using this expansion's parser element.
-        speech = speech.strip()
+        # Match the string using this expansion's parser element. Only use one space
+        # between words, as is done for 'current_match' values.
+        speech = " ".join(speech.split())
+        element = self.matcher_element
+
+        # Clear any data from the last match. This is done after the parser element
+        # has been made because it can depend on 'current_match' values.
+        self.reset_for_new_match()
         try:
-            result = " ".join(
-                self.matcher_element.parseString(speech).asList()
-            )
-        except pyparsing.ParseException:
-            result = ""
+            element.parseString(speech)
 
-        # Return the difference between the result and speech. The result can be
-        # shorter than speech, which means the match wasn't complete.
-        remaining = speech[len(result):].strip()
+            # The matching slice can end before the end of speech, which means the
+            # match wasn't complete.
+            remaining = speech[self.matching_slice.stop:].strip()
+        except pyparsing.ParseException:
+            # Discard the data of any partial matches.
+            self.reset_for_new_match()
+            remaining = speech
 
         # Do a second pass of the expansion tree for post-processing.
         def process(x):
diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 3c3ff15..8aaa966 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -203,8 +203,8 @@ class Dictation(Literal):
             else:
                 result = pyparsing.Literal(self.current_match)
 
-            # Set the parse action and return the element.
-            return result.setParseAction(self._parse_action)
+            # Set the element's attributes and return it.
+            return self._set_matcher_element_attributes(result)
 
         # Otherwise build a list of next possible literals. Make the required stack
         # of child-parent pairs.
-- 
2.43.0


From e172d7b24247e80d2fad5259766ff0b436e9d962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:47 +0000
Subject: [PATCH 02/73] fix: rule match results for rules that can match
 nothing

Rules with an optional root expansion matched any speech string and rules with
a required expansion that can match nothing didn't match the empty string. Data
of incomplete matches is discarded so that tags are not reported for them.
---
 jsgf/rules.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index a49bd8c..37fee11 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -224,7 +224,7 @@ class Rule(references.BaseRef):
 
         :returns: bool
         """
-        return self.expansion.current_match is not None
+        return self.expansion.matching_slice is not None
 
     def matches(self, speech):
         """
@@ -251,12 +251,15 @@ class Rule(references.BaseRef):
         self.expansion.reset_for_new_match()
 
         # Match the expansion and use the remainder substring to check if the rule
-        # matched completely.
+        # matched completely. Discard the data of incomplete matches.
         remainder = self.expansion.matches(speech)
         if remainder != "":
-            self.expansion.current_match = None
+            self.expansion.reset_for_new_match()
 
-        return self.expansion.current_match is not None
+        # The matching slice is only set if there was a match. Note that the current
+        # match value cannot be used here because it can be '' or None for successful
+        # and unsuccessful matches alike.
+        return self.was_matched
 
     def find_matching_part(self, speech):
         """
-- 
2.43.0


From 599f055ddcfea1a8029ca6fba9506ef8cb2c03f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:04 +0000
Subject: [PATCH 03/73] fix: discard match data left by attempted and partial
 matches

Alternatives that were tried but not chosen kept a matching slice, rule references
kept their data if their parent failed to match and slices included whitespace
skipped before an optional expansion that didn't match.
---
 jsgf/expansions.py | 46 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index e4f3c15..40312fc 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -414,6 +414,7 @@ class Expansion(object):
 
         self._current_match = None
         self._matching_slice = None
+        self._parsed_slice = None
         self.rule = None
 
         # Internal member used for caching calculations. Initially None as this
@@ -689,16 +690,37 @@ class Expansion(object):
             remaining = speech
 
         # Do a second pass of the expansion tree for post-processing.
-        def process(x):
-            # Remove partial matches.
-            if (x.parent and not isinstance(x, NamedRuleRef) and not
-                    x.parent.current_match):
-                x.current_match = None
-                x.matching_slice = None
-
-        map_expansion(self, process)
+        self._discard_partial_matches()
         return remaining
 
+    def _discard_partial_matches(self):
+        # Reset the match data of each descendant of this expansion that only took
+        # part in a failed attempt to match its parent.
+        matched_trees = []
+
+        def process(x):
+            if x is not self and x.parent and not x.parent.current_match:
+                x.reset_match_data()
+
+            # Process the trees of referenced rules if they were matched.
+            if isinstance(x, NamedRuleRef) and x.current_match:
+                tree = x.referenced_rule.expansion
+                if not any(tree is y for y in matched_trees):
+                    matched_trees.append(tree)
+                    map_expansion(tree, process, shallow=True)
+
+        def reset_unmatched_rules(x):
+            # Rules can be referenced more than once, so do not reset the ones
+            # matched elsewhere.
+            if isinstance(x, NamedRuleRef):
+                tree = x.referenced_rule.expansion
+                if not any(tree is y for y in matched_trees):
+                    map_expansion(tree, lambda y: y.reset_match_data(),
+                                  shallow=True)
+
+        map_expansion(self, process, shallow=True)
+        map_expansion(self, reset_unmatched_rules)
+
     def invalidate_matcher(self):
         """
         Method to invalidate the parser element used for matching this expansion.
@@ -748,6 +770,7 @@ class Expansion(object):
 
     def _parse_action(self, tokens):
         self.current_match = " ".join(tokens.asList())
+        self.matching_slice = self._parsed_slice
         return tokens
 
     def _make_matcher_element(self):
@@ -776,7 +799,12 @@ class Expansion(object):
             else:
                 raise TypeError("postParse received invalid tokenlist %s"
                                 % tokenlist)
-            self.matching_slice = slice(loc - len(s), loc)
+
+            # Skipped whitespace is not part of the match. Note that this function
+            # is also called for attempted matches, so set the slice to use if there
+            # is a match instead of matching_slice.
+            end = len(instring[:loc].rstrip())
+            self._parsed_slice = slice(end - len(s), end)
             return closure(instring, loc, tokenlist)
 
         element.postParse = postParse
-- 
2.43.0


From 90be021fc59515b5b55674fcc4de28ce91a4f935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:46 +0000
Subject: [PATCH 04/73] fix: matching of repetitions

Repeats with an optional ancestor could be matched zero times, repeating something
that can match nothing never stopped, a Kleene star repeated by another repeat
required a repetition and repetitions were recorded more than once if the parser
element was rebuilt or if the child was matched on its own.
---
 jsgf/expansions.py | 78 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 55 insertions(+), 23 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 40312fc..06ac57b 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1516,6 +1516,38 @@ class RuleRef(NamedRuleRef):
         return super(RuleRef, self).__hash__()
 
 
+class _RepetitionElement(pyparsing.OneOrMore):
+    """
+    Internal parser element for matching one or more repetitions.
+
+    Unlike the super class, this element will stop if a repetition doesn't match any
+    words, rather than repeat it forever.
+    """
+    def __init__(self, expr, expansion):
+        super(_RepetitionElement, self).__init__(expr)
+        self._expansion = expansion
+
+    def parseImpl(self, instring, loc, doActions=True):
+        loc, tokens = self.expr._parse(instring, loc, doActions, callPreParse=False)
+
+        # It makes no sense to repeat a repeat if it is the only thing repeated by
+        # another one. This is checked here because it can change if either
+        # expansion is moved.
+        if self._expansion._is_only_branch:
+            return loc, tokens
+
+        try:
+            while tokens:
+                loc2, tokens2 = self.expr._parse(instring, loc, doActions)
+                if not tokens2:
+                    break
+                loc = loc2
+                tokens += tokens2
+        except (pyparsing.ParseException, IndexError):
+            pass
+        return loc, tokens
+
+
 class Repeat(SingleChildExpansion):
     """
     JSGF plus operator for allowing one or more repeats of an expansion.
@@ -1595,7 +1627,7 @@ class Repeat(SingleChildExpansion):
         return tokens
 
     def _make_matcher_element(self):
-        # Define an extra parse action for the child's matcher element.
+        # Define a parse action for each repetition.
         def f(tokens):
             if tokens.asList():
                 # Add current match values to the _repetitions_matched list.
@@ -1605,32 +1637,32 @@ class Repeat(SingleChildExpansion):
                 self.child.reset_for_new_match()
             return tokens
 
-        # Get the child's matcher element and add the extra parse action.
-        child_element = self.child.matcher_element.addParseAction(f)
+        # Use the parse action with a new element wrapping the child's element. The
+        # child's element is also used if the child is matched on its own.
+        child_element = pyparsing.And([self.child.matcher_element])
+        child_element.setParseAction(f)
+        element = _RepetitionElement(child_element, self)
 
-        # Determine the parser element type to use.
-        type_ = pyparsing.ZeroOrMore if self.is_optional else pyparsing.OneOrMore
+        # Zero repetitions are only allowed for the Kleene star operator.
+        if isinstance(self, KleeneStar):
+            element = pyparsing.Optional(element)
 
-        # Handle the special case of a repetition ancestor, e.g. ((a b)+)+
-        rep = self.repetition_ancestor
-        if rep:
-            # Check if there are no other branches.
-            c = rep.child
-            only_branch = True
-            while c is not self:
-                if len(c.children) > 1:
-                    only_branch = False
-                    break
-                else:
-                    c = c.children[0]
+        return self._set_matcher_element_attributes(element)
 
-            # Use an And element instead if self is the only branch because
-            # it makes no sense to repeat a repeat like this!
-            if only_branch:
-                type_ = pyparsing.And
-                child_element = [child_element]
+    @property
+    def _is_only_branch(self):
+        # Whether this expansion is the only branch of a repetition ancestor,
+        # e.g. ((a b)+)+
+        rep = self.repetition_ancestor
+        if not rep:
+            return False
 
-        return self._set_matcher_element_attributes(type_(child_element))
+        c = rep.child
+        while c is not self:
+            if len(c.children) > 1:
+                return False
+            c = c.children[0]
+        return True
 
     def reset_match_data(self):
         super(Repeat, self).reset_match_data()
-- 
2.43.0


From b4e335ebb3fc8035de49f9d50bb00680c2522b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:44 +0000
Subject: [PATCH 05/73] fix: data saved for each repetition

Match data of comparable expansions was mixed up, data left by an incomplete last
repetition wasn't replaced, data of repetitions inside repetitions was lost and
restore_current_matches restored nothing by default.
---
 jsgf/expansions.py | 73 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 61 insertions(+), 12 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 06ac57b..a26c809 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -163,14 +163,14 @@ def restore_current_matches(e, values, override_none=True):
 
     :param e: Expansion
     :param values: dict
-    :param override_none: bool
+    :param override_none: whether to also restore ``None`` values
     """
     def restore(x):
         match_data = values.get(x, None)
         if match_data:
-            if not override_none and match_data["current_match"] is not None:
+            if override_none or match_data["current_match"] is not None:
                 x.current_match = match_data["current_match"]
-            if not override_none and match_data["matching_slice"] is not None:
+            if override_none or match_data["matching_slice"] is not None:
                 x.matching_slice = match_data["matching_slice"]
 
     map_expansion(e, restore)
@@ -821,14 +821,21 @@ class Expansion(object):
 
         :returns: bool
         """
+        return self._matched_in(None)
+
+    def _matched_in(self, top):
+        # Whether this expansion was matched, taking into account the repetitions
+        # of each repetition ancestor below 'top' (or of each one, if None).
         if self.current_match:
             return True
 
         rep = self.repetition_ancestor
-        if rep and any(rep.get_expansion_matches(self)):
-            return True
-        else:
-            return False
+        while rep and rep is not top:
+            if (rep._repetitions_matched and rep._repetitions_matched[-1]
+                    .get(id(self), {}).get("had_match")):
+                return True
+            rep = rep.repetition_ancestor
+        return False
 
     def _init_lookup(self):
         # Initialises the lookup dictionary for the root expansion.
@@ -1598,7 +1605,7 @@ class Repeat(SingleChildExpansion):
         :returns: list
         """
         if e.is_descendant_of(self):
-            return [values[e]["current_match"] for values in
+            return [values[id(e)]["current_match"] for values in
                     self._repetitions_matched]
         else:
             return []
@@ -1610,7 +1617,7 @@ class Repeat(SingleChildExpansion):
         :returns: list
         """
         if e.is_descendant_of(self):
-            return [values[e]["matching_slice"] for values in
+            return [values[id(e)]["matching_slice"] for values in
                     self._repetitions_matched]
         else:
             return []
@@ -1622,16 +1629,45 @@ class Repeat(SingleChildExpansion):
         # Note: this method is called after the child's parse actions.
         if self._repetitions_matched:
             # Restore the last repetition's match values.
-            last = self._repetitions_matched[len(self._repetitions_matched) - 1]
-            restore_current_matches(self.child, last, False)
+            self._restore_repetition(self._repetitions_matched[-1])
         return tokens
 
+    def _save_repetition(self):
+        # Save match data of the child and its descendants. IDs are used as keys to
+        # keep the data of comparable expansions separate.
+        values = {}
+        last = self._repetitions_matched[-1] if self._repetitions_matched else {}
+
+        def save(x):
+            values[id(x)] = {
+                "expansion": x,
+                "current_match": x.current_match,
+                "matching_slice": x.matching_slice,
+                "repetitions": getattr(x, "_repetitions_matched", None),
+
+                # Whether x was matched in this repetition or in any before it.
+                "had_match": bool(x._matched_in(self) or
+                                  last and last[id(x)]["had_match"]),
+            }
+        map_expansion(self.child, save)
+        return values
+
+    def _restore_repetition(self, values):
+        def restore(x):
+            match_data = values[id(x)]
+            x.current_match = match_data["current_match"]
+            x.matching_slice = match_data["matching_slice"]
+            if isinstance(x, Repeat):
+                x._repetitions_matched = match_data["repetitions"]
+        map_expansion(self.child, restore)
+
     def _make_matcher_element(self):
         # Define a parse action for each repetition.
         def f(tokens):
             if tokens.asList():
                 # Add current match values to the _repetitions_matched list.
-                self._repetitions_matched.append(save_current_matches(self.child))
+                self.child._discard_partial_matches()
+                self._repetitions_matched.append(self._save_repetition())
 
                 # Wipe current match values for the next repetition (if any).
                 self.child.reset_for_new_match()
@@ -1664,6 +1700,19 @@ class Repeat(SingleChildExpansion):
             c = c.children[0]
         return True
 
+    def __setstate__(self, state):
+        # The IDs used as keys are not the same for pickled expansions.
+        def update_keys(repetitions):
+            for values in repetitions or ():
+                items = list(values.values())
+                values.clear()
+                for item in items:
+                    values[id(item["expansion"])] = item
+                    update_keys(item["repetitions"])
+
+        self.__dict__.update(state)
+        update_keys(self._repetitions_matched)
+
     def reset_match_data(self):
         super(Repeat, self).reset_match_data()
         self._repetitions_matched = []
-- 
2.43.0


From f7cde7af588fe4692293d732412442386f8f2a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:46 +0000
Subject: [PATCH 06/73] =?UTF-8?q?fix:=20matching=20of=20literals=20with=20?=
 =?UTF-8?q?repeated=20whitespace=20or=20letters=20such=20as=20'=C3=9F'?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 jsgf/expansions.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index a26c809..c21b66f 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1479,12 +1479,16 @@ class Literal(Expansion):
 
     def _make_matcher_element(self):
         # Return a case-sensitive or case-insensitive pyparsing Literal element.
-        text = self._text
+        # Only use one space between words, as is done for speech strings.
+        text = " ".join(self._text.split()) or self._text
         if self.case_sensitive:
-            matcher_cls = pyparsing.Literal
+            element = pyparsing.Literal(text)
         else:
-            matcher_cls = pyparsing.CaselessLiteral
-        return self._set_matcher_element_attributes(matcher_cls(text))
+            element = pyparsing.CaselessLiteral(text)
+
+            # The length of upper case text can be different, e.g. for 'ß'.
+            element.matchLen = len(text)
+        return self._set_matcher_element_attributes(element)
 
     def __eq__(self, other):
         return (super(Literal, self).__eq__(other) and self.text == other.text and
-- 
2.43.0


From a8561bf9e8ff3237728134a0f701d2424d47faa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:02 +0000
Subject: [PATCH 07/73] fix: changing the text of literals after matching and
 copying them

The matcher was not invalidated if the text was changed. Copies lost upper case
letters and case sensitivity.
---
 jsgf/expansions.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index c21b66f..e0af344 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1370,11 +1370,12 @@ class Literal(Expansion):
     Expansion class for literals.
     """
     def __init__(self, text, case_sensitive=False):
+        super(Literal, self).__init__([])
+
         # Set _text and use the text setter to validate the input.
         self._text = ""
-        self.text = text
         self._case_sensitive = bool(case_sensitive)
-        super(Literal, self).__init__([])
+        self.text = text
 
     def __str__(self):
         return "%s('%s')" % (self.__class__.__name__, self.text)
@@ -1424,6 +1425,7 @@ class Literal(Expansion):
             raise TypeError("expected string, got %s instead" % value)
 
         self._text = value
+        self.invalidate_matcher()
 
     def generate(self):
         """
@@ -1436,7 +1438,9 @@ class Literal(Expansion):
         return self.text
 
     def __copy__(self):
-        e = type(self)(self.text)
+        # Use the original text because it can have upper case letters.
+        e = type(self)(self._text)
+        e.case_sensitive = self.case_sensitive
         e.tag = self.tag
         return e
 
-- 
2.43.0


From 7715d8c44d001298aef06625674bedcb953c11cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:10 +0000
Subject: [PATCH 08/73] fix: alternative sets with weights or comparable
 children

Weights were looked up with the hashes of children when they were set, so changing
a child lost its weight. Removed alternatives could still be matched and generated,
copies were matched using the original's children, equal sets could have different
hashes and getting the hash of a set could modify it or raise an error.
---
 jsgf/expansions.py | 84 ++++++++++++++++++++++++++++------------------
 1 file changed, 52 insertions(+), 32 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index e0af344..b5fd352 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -426,12 +426,11 @@ class Expansion(object):
         return self + other
 
     def __hash__(self):
-        # The hash of an expansion is a combination of the class name, tag and
-        # hashes of children, similar to expansion string representations.
+        # The hash of an expansion is a combination of the class name and hashes of
+        # children, similar to expansion string representations. Tags aren't used
+        # because they are not compared by __eq__.
         child_hashes = [hash(c) for c in self.children]
-        return hash(
-            "%s(%s)%s" % (self.__class__.__name__, child_hashes, self.tag)
-        )
+        return hash("%s(%s)" % (self.__class__.__name__, child_hashes))
 
     def __copy__(self):
         if not self.children:
@@ -1873,33 +1872,52 @@ class AlternativeSet(VariableChildExpansion):
         self.invalidate_matcher()
 
     def __hash__(self):
-        # The hash of an Alt.Set is a combination of the class name, tag and
-        # hashes of children, similar to expansion string representations.
-        # Hashes of children are sorted so that the same value is returned
-        # regardless of child order. Weights are also included.
-        child_hashes = sorted([
-            (e.compile(), float(self.weights.get(e, 1)))
+        # The hash of an Alt.Set is a combination of the hashes of its children and
+        # their weights. A set is used so that the same value is returned regardless
+        # of child order, as is done by __eq__. The class name is not used because
+        # sub-class instances can be equal.
+        child_hashes = frozenset([
+            (hash(e) if e.children else hash("%s" % e),
+             float(self._get_weight(e, 1)))
             for e in self.children
         ])
-        return hash(
-            "%s(%s)%s" % (self.__class__.__name__, child_hashes, self.tag)
-        )
+        return hash(("AlternativeSet", len(self.children), child_hashes))
 
     def __copy__(self):
-        result = super(AlternativeSet, self).__copy__()
-        result.weights = dict(self.weights)
-        return result
+        return self._copy_with_weights(list(self.children))
 
     def __deepcopy__(self, memo):
-        result = super(AlternativeSet, self).__deepcopy__(memo)
-        result.weights = dict(self.weights)
+        return self._copy_with_weights([deepcopy(e, memo) for e in self.children])
+
+    def _copy_with_weights(self, children):
+        # Make a copy using the children specified, each with the same weight (if
+        # any) as its counterpart. The weights of this set's children are not used
+        # for anything else because the children could be changed afterwards.
+        weights = [self._get_weight(e) for e in self.children]
+        result = type(self)()
+        result.children = children
+        result.tag = self.tag
+        for child, weight in zip(children, weights):
+            if weight is not None:
+                result.set_weight(child, weight)
         return result
 
+    def _get_weight(self, child, default=None):
+        # Get the weight of a child. Look for the child itself if necessary because
+        # the hashes of expansions change if they are modified.
+        weight = self._weights.get(child)
+        if weight is None:
+            for e, w in self._weights.items():
+                if e is child:
+                    return w
+            weight = default
+        return weight
+
     def _validate_weights(self):
         # Check that all alternatives have a weight. The rule for weights is
         # all or nothing.
         for e in self.children:
-            if e not in self._weights:
+            if self._get_weight(e) is None:
                 raise GrammarError("alternative %s does not have a weight "
                                    "value" % e)
 
@@ -1912,7 +1930,7 @@ class AlternativeSet(VariableChildExpansion):
             # such that:
             # /<w 0>/ <e 0> | ... | /<w n-1>/ <e n-1>
             alt_set = "|".join([
-                "/%.4f/ %s" % (float(self._weights[e]), e.compile(ignore_tags))
+                "/%.4f/ %s" % (float(self._get_weight(e)), e.compile(ignore_tags))
                 for e in self.children
             ])
         else:
@@ -1942,15 +1960,16 @@ class AlternativeSet(VariableChildExpansion):
             self._validate_weights()
             # use weights if they are set
             # each alternative gets the probability weight / sum_of_all_weights
-            w_sum = sum(self._weights.values())
-            rand = random.random()
-            # print("rand = %s" % rand)
+            # alternatives with a weight of 0 are never chosen
+            choices = [(e, float(self._get_weight(e))) for e in self.children]
+            choices = [(e, w) for e, w in choices if w > 0]
+            rand = random.random() * sum([w for _, w in choices])
             help_sum = 0
-            for child, weight in self._weights.items():
-                help_sum += (weight / w_sum)
-                # print(help_sum)
+            for child, weight in choices:
+                help_sum += weight
                 if rand < help_sum:
-                    return child.generate()
+                    break
+            return child.generate() if choices else ""
         return random.choice(self.children).generate()
 
     def _make_matcher_element(self):
@@ -1960,7 +1979,8 @@ class AlternativeSet(VariableChildExpansion):
 
             # Exclude alternatives that have a weight value of 0.
             children = []
-            for e, w in self._weights.items():
+            for e in self.children:
+                w = float(self._get_weight(e))
                 if w > 0:
                     children.append((e, w))
 
@@ -1980,9 +2000,9 @@ class AlternativeSet(VariableChildExpansion):
             len(self.children) == len(other.children) and
 
             # Check that the children lists have the same contents, but the
-            # ordering can be different. Also check the weights dictionaries.
-            set(self.children) == set(other.children) and
-            self.weights == other.weights
+            # ordering can be different. Also check the weights of the children.
+            set([(e, self._get_weight(e)) for e in self.children]) ==
+            set([(e, other._get_weight(e)) for e in other.children])
         )
 
     @property
-- 
2.43.0


From f428ba929aec2de3aa3e3600f8d86d2c40e725da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:05 +0000
Subject: [PATCH 09/73] fix: escaping and parsing of tags

Backslashes used for escaping were escaped themselves, escape characters were never
removed by the parser and tags with more than one word were parsed incorrectly.
---
 jsgf/expansions.py |  6 +++---
 jsgf/parser.py     | 22 ++++++++++++++++++----
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index b5fd352..76dac2f 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -561,9 +561,9 @@ class Expansion(object):
             # Escape '{', '}' and '\' so that tags will be processed
             # properly if they have those characters.
             # This is suggested in the JSGF specification.
-            escaped = self.tag.replace("{", "\\{") \
-                .replace("}", "\\}") \
-                .replace("\\", "\\\\")
+            escaped = self.tag.replace("\\", "\\\\") \
+                .replace("{", "\\{") \
+                .replace("}", "\\}")
             return " { %s }" % escaped
 
     @staticmethod
diff --git a/jsgf/parser.py b/jsgf/parser.py
index a0ba706..c7cbdc7 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -118,6 +118,15 @@ class WrapperExpansion(SingleChildExpansion):
     """ Wrapper expansion class used during the parser's post-processing stage. """
 
 
+class TagText(object):
+    """
+    Internal class for tag text. This is not a string because tag text can be one of
+    the strings looked for during parsing, e.g. '{'.
+    """
+    def __init__(self, text):
+        self.text = text
+
+
 class WeightedExpansion(SingleChildExpansion):
     """
     Internal class used during parsing of alternative sets with weights.
@@ -265,10 +274,10 @@ def _transform_tokens(tokens):
             # Support tagging syntax like 'text {tag1} {tag2} {tag3}' by wrapping
             # the expansion on the left in required groupings.
             previous = RequiredGrouping(previous)
-            previous.tag = lst.pop(i+1)
+            previous.tag = lst.pop(i+1).text
             lst[i-1] = previous
         else:
-            previous.tag = lst.pop(i+1)
+            previous.tag = lst.pop(i+1).text
 
         # Remove both braces from the list.
         lst.pop(i)
@@ -334,6 +343,11 @@ def _atom_action(tokens):
         return tokens[0]
 
 
+def _tag_text_action(tokens):
+    # Join the words and remove the escape characters added by compiled tags.
+    return TagText(re.sub(r"\\([{}\\])", r"\1", " ".join(tokens)))
+
+
 def get_exp_parser():
     """
     Get a pyparsing ParserElement for parsing JSGF rule expansions.
@@ -384,8 +398,8 @@ def get_exp_parser():
     # Define tag text to one or more words defined by a regular expression.
     # Escaped brace characters ('\{' or '\}') are allowed in tag text.
     tag_text = OneOrMore(
-        Regex(r"([\w\-\\']|\\{|\\})+", re.UNICODE).setName("tag text")
-    )
+        Regex(r"(\\[{}\\]|[\w\-\\'])+", re.UNICODE).setName("tag text")
+    ).setParseAction(_tag_text_action)
     tag = lcurl + tag_text + rcurl
 
     # Define the root expansion as an atom plus additional alternatives, repeat or
-- 
2.43.0


From 018e9e706eb0294803784fc61af732bbe73818e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:24 +0000
Subject: [PATCH 10/73] fix: operator precedence in parsed expansions

Sequences starting with a required grouping were not kept together as an alternative,
weights of sequences and additional tags of weighted alternatives were lost or
rejected, and successive unary operators raised a TypeError.
---
 jsgf/parser.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index c7cbdc7..f25a01d 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -270,7 +270,12 @@ def _transform_tokens(tokens):
                 # I don't think this should happen...
                 raise GrammarError("tag cannot be attached to string %s" % previous)
 
-        if previous.tag:
+        if isinstance(previous, WeightedExpansion) and previous.child.tag:
+            # Do the following for weighted expansions too.
+            child = RequiredGrouping(previous.children.pop())
+            child.tag = lst.pop(i+1).text
+            lst[i-1] = WeightedExpansion(child, previous.weight)
+        elif previous.tag:
             # Support tagging syntax like 'text {tag1} {tag2} {tag3}' by wrapping
             # the expansion on the left in required groupings.
             previous = RequiredGrouping(previous)
@@ -285,7 +290,7 @@ def _transform_tokens(tokens):
 
     # Handle repeats by wrapping the preceding item in either a Repeat or
     # KleeneStar expansion.
-    if "+" in lst or "*" in lst:
+    while "+" in lst or "*" in lst:
         cls = Repeat if lst.pop(1) == "+" else KleeneStar
 
         # Handle weighted expansions by weighting the repeat expansion.
@@ -308,15 +313,23 @@ def _transform_tokens(tokens):
     # Handle sequences.
     elif len(lst) == 2:
         # If the second expansion is an alternative set, place the first expansion
-        # inside a sequence with the first child of the alternative set.
-        # Do not do this if the first expansion is a required grouping.
+        # inside a sequence with the first child of the alternative set. Any
+        # weight given is for the sequence.
         # This handles rule expansions like "up <n> | left <n>".
-        RG, AS = RequiredGrouping, AlternativeSet
-        if not isinstance(lst[0], RG) and isinstance(lst[1], AS):
-            child1 = lst[1].children.pop(0)
-            seq = Sequence(lst[0], child1)
-            lst[1].children.insert(0, seq)
-            return lst[1]
+        first, rest = lst
+        if isinstance(rest, AlternativeSet):
+            child1 = rest.children.pop(0)
+            if any(e is child1 for e in rest.weights):
+                raise GrammarError("weights cannot be used inside sequences")
+
+            if isinstance(first, WeightedExpansion):
+                seq = Sequence(first.children.pop(), child1)
+                rest.set_weight(seq, first.weight)
+            else:
+                seq = Sequence(first, child1)
+
+            rest.children.insert(0, seq)
+            return rest
 
         # Otherwise return a sequence.
         else:
-- 
2.43.0


From d5eb2a40dfbf9fc1ead8179dedc341dc115e26ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:01 +0000
Subject: [PATCH 11/73] fix: compiling and matching expansions without
 children, tagged sequences

Compiling an expansion without children added a NULL reference to it, which changed
what it matched. Tags of sequences were compiled as tags of their last child and
compiling nested groupings took time exponential in their depth.
---
 jsgf/expansions.py | 60 +++++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 76dac2f..cff143f 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1274,11 +1274,14 @@ class VoidRef(BaseExpansionRef):
 
 
 class ExpansionWithChildren(Expansion):
+    @property
+    def _effective_children(self):
+        # Use a reference to the built-in NULL rule if there are no children. This
+        # produces a valid JSGF rule expansion: "<NULL>" instead of "()".
+        return list(self.children) or [NullRef()]
+
     def compile(self, ignore_tags=False):
-        # Add a reference to the built-in NULL rule to produce a valid JSGF rule
-        # expansion: "<NULL>" instead of "()";
-        if not self.children:
-            self.children.append(NullRef())
+        self.validate_compilable()
 
 
 class SingleChildExpansion(ExpansionWithChildren):
@@ -1293,7 +1296,7 @@ class SingleChildExpansion(ExpansionWithChildren):
             return self.children[0]
         
     def generate(self):
-        return self.child.generate()
+        return self._effective_children[0].generate()
 
     def __hash__(self):
         return super(SingleChildExpansion, self).__hash__()
@@ -1344,12 +1347,18 @@ class Sequence(VariableChildExpansion):
     """
     def compile(self, ignore_tags=False):
         super(Sequence, self).compile()
+        children = self._effective_children
         seq = " ".join([
-            e.compile(ignore_tags) for e in self.children
+            e.compile(ignore_tags) for e in children
         ])
 
-        # Return the sequence and the tag if there is one
+        # Return the sequence and the tag if there is one. Use parenthesises unless
+        # the tag would be attached to the whole sequence without them.
         if self.tag and not ignore_tags:
+            e = children[0]
+            if (len(children) > 1 or isinstance(e, Repeat) or
+                    isinstance(e, Sequence) and not isinstance(e, RequiredGrouping)):
+                seq = "(%s)" % seq
             return "%s%s" % (seq, self.compiled_tag)
         else:
             return seq
@@ -1357,7 +1366,7 @@ class Sequence(VariableChildExpansion):
     def _make_matcher_element(self):
         # Return an And element using each child's matcher element.
         return self._set_matcher_element_attributes(pyparsing.And([
-            child.matcher_element for child in self.children
+            child.matcher_element for child in self._effective_children
         ]))
 
     def __hash__(self):
@@ -1576,7 +1585,7 @@ class Repeat(SingleChildExpansion):
 
     def compile(self, ignore_tags=False):
         super(Repeat, self).compile()
-        compiled = self.child.compile(ignore_tags)
+        compiled = self._effective_children[0].compile(ignore_tags)
         if self.tag and not ignore_tags:
             return "(%s)+%s" % (compiled, self.compiled_tag)
         else:
@@ -1591,7 +1600,8 @@ class Repeat(SingleChildExpansion):
         :rtype: str
         """
         c = int(math.log(random.random() / 2, 0.5))
-        return " ".join([self.child.generate() for _ in range(c)])
+        child = self._effective_children[0]
+        return " ".join([child.generate() for _ in range(c)])
 
     def __hash__(self):
         return super(Repeat, self).__hash__()
@@ -1682,7 +1692,7 @@ class Repeat(SingleChildExpansion):
 
         # Use the parse action with a new element wrapping the child's element. The
         # child's element is also used if the child is matched on its own.
-        child_element = pyparsing.And([self.child.matcher_element])
+        child_element = pyparsing.And([self._effective_children[0].matcher_element])
         child_element.setParseAction(f)
         element = _RepetitionElement(child_element, self)
 
@@ -1735,7 +1745,7 @@ class KleeneStar(Repeat):
     """
     def compile(self, ignore_tags=False):
         super(KleeneStar, self).compile()
-        compiled = self.child.compile(ignore_tags)
+        compiled = self._effective_children[0].compile(ignore_tags)
         if self.tag and not ignore_tags:
             return "(%s)*%s" % (compiled, self.compiled_tag)
         else:
@@ -1751,7 +1761,8 @@ class KleeneStar(Repeat):
         :rtype: str
         """
         c = int(math.log(random.random() / 2, 0.5)) - 1
-        return " ".join([self.child.generate() for _ in range(c)])
+        child = self._effective_children[0]
+        return " ".join([child.generate() for _ in range(c)])
 
     @property
     def is_optional(self):
@@ -1767,18 +1778,18 @@ class OptionalGrouping(SingleChildExpansion):
     """
     def compile(self, ignore_tags=False):
         super(OptionalGrouping, self).compile()
-        compiled = self.child.compile(ignore_tags)
+        compiled = self._effective_children[0].compile(ignore_tags)
         if self.tag and not ignore_tags:
             return "[%s]%s" % (compiled, self.compiled_tag)
         else:
             return "[%s]" % compiled
         
     def generate(self):
-        return random.choice([self.child.generate(), ""])
+        return random.choice([self._effective_children[0].generate(), ""])
 
     def _make_matcher_element(self):
         return self._set_matcher_element_attributes(
-            pyparsing.Optional(self.child.matcher_element)
+            pyparsing.Optional(self._effective_children[0].matcher_element)
         )
 
     @property
@@ -1794,9 +1805,10 @@ class RequiredGrouping(Sequence):
     Subclass of ``Sequence`` for wrapping multiple expansions in parenthesises.
     """
     def compile(self, ignore_tags=False):
-        super(RequiredGrouping, self).compile()
+        # Skip Sequence.compile() because it also compiles each child.
+        super(Sequence, self).compile()
         grouping = " ".join([
-            e.compile(ignore_tags) for e in self.children
+            e.compile(ignore_tags) for e in self._effective_children
         ])
 
         if self.tag and not ignore_tags:
@@ -1923,7 +1935,7 @@ class AlternativeSet(VariableChildExpansion):
 
     def compile(self, ignore_tags=False):
         super(AlternativeSet, self).compile()
-        if self._weights:
+        if self._weights and self.children:
             self._validate_weights()
 
             # Create a string with w=weight and e=compiled expansion
@@ -1936,7 +1948,7 @@ class AlternativeSet(VariableChildExpansion):
         else:
             # Or do the same thing without the weights
             alt_set = "|".join([
-                e.compile(ignore_tags) for e in self.children
+                e.compile(ignore_tags) for e in self._effective_children
             ])
 
         if self.tag and not ignore_tags:
@@ -1956,7 +1968,7 @@ class AlternativeSet(VariableChildExpansion):
             p = w / sum(weights)
 
         """
-        if self._weights:
+        if self._weights and self.children:
             self._validate_weights()
             # use weights if they are set
             # each alternative gets the probability weight / sum_of_all_weights
@@ -1970,11 +1982,11 @@ class AlternativeSet(VariableChildExpansion):
                 if rand < help_sum:
                     break
             return child.generate() if choices else ""
-        return random.choice(self.children).generate()
+        return random.choice(self._effective_children).generate()
 
     def _make_matcher_element(self):
         # Return an element that can match the alternatives.
-        if self._weights:
+        if self._weights and self.children:
             self._validate_weights()
 
             # Exclude alternatives that have a weight value of 0.
@@ -1988,7 +2000,7 @@ class AlternativeSet(VariableChildExpansion):
             children = [e for e, _ in sorted(children, key=lambda x: x[1])]
             children.reverse()
         else:
-            children = self.children
+            children = self._effective_children
 
         return self._set_matcher_element_attributes(pyparsing.Or([
             e.matcher_element for e in children
-- 
2.43.0


From 22b0e5bda799c5e4c2b572609799d4a32b4242f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:04 +0000
Subject: [PATCH 12/73] fix: string generation for repetitions

random.random() can return 0.0, which raised a ValueError, and repeating something
that generates nothing left extra spaces in the result.
---
 jsgf/expansions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index cff143f..35be527 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1599,9 +1599,9 @@ class Repeat(SingleChildExpansion):
 
         :rtype: str
         """
-        c = int(math.log(random.random() / 2, 0.5))
+        c = int(math.log((random.random() or 1.0) / 2, 0.5))
         child = self._effective_children[0]
-        return " ".join([child.generate() for _ in range(c)])
+        return " ".join([s for s in [child.generate() for _ in range(c)] if s])
 
     def __hash__(self):
         return super(Repeat, self).__hash__()
@@ -1760,9 +1760,9 @@ class KleeneStar(Repeat):
 
         :rtype: str
         """
-        c = int(math.log(random.random() / 2, 0.5)) - 1
+        c = int(math.log((random.random() or 1.0) / 2, 0.5)) - 1
         child = self._effective_children[0]
-        return " ".join([child.generate() for _ in range(c)])
+        return " ".join([s for s in [child.generate() for _ in range(c)] if s])
 
     @property
     def is_optional(self):
-- 
2.43.0


From 632abfb2ad65728325b500f2e5110d36e6d1b75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:02 +0000
Subject: [PATCH 13/73] fix: finding parts of speech matching a rule

Case-sensitive rules with uppercase letters were never found, tabs shifted the
returned part and data of failed attempts was left in the expansion tree.
---
 jsgf/rules.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index 37fee11..b5e78f7 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -273,20 +273,32 @@ class Rule(references.BaseRef):
         if not self._active:
             return None
 
-        # Strip whitespace at the start of 'speech' and lower it to match regex
-        # properly.
-        speech = speech.lstrip().lower()
+        # Only use one space between words, as is done when matching.
+        speech = " ".join(speech.split())
 
         # Reset match data for this rule and referenced rules.
         self.expansion.reset_for_new_match()
 
         # Use the first match (if any) and break. The loop is required because
-        # scanString returns a generator.
+        # scanString returns a generator. Matches without any words are skipped.
         result = None
-        for match in self.expansion.matcher_element.scanString(speech):
+        element = self.expansion.matcher_element
+        for match in element.scanString(speech):
             _, start, end = match
-            result = speech[start:end]
-            break
+            if speech[start:end].strip():
+                result = speech[start:end].strip()
+                break
+
+        # Discard the match data because it includes data from attempts to match
+        # before 'start'. If there was a match, then get its data again.
+        self.expansion.reset_for_new_match()
+        if result is not None:
+            element._parse(speech, start)
+            self.expansion._discard_partial_matches()
+
+            # Return lowercase text, unless this rule is case-sensitive.
+            if not self.case_sensitive:
+                result = result.lower()
 
         return result
 
-- 
2.43.0


From 02208dbb5d464e24446ea4d46be93df3729fa6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:19 +0000
Subject: [PATCH 14/73] fix: valid_grammar with negative weights and integer
 header versions

---
 jsgf/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index f25a01d..55fa54b 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -485,7 +485,7 @@ def get_grammar_parser():
         return result
 
     # Define parser elements for the grammar header.
-    version_no = Regex(r"(v|V)(\d+\.\d+|\d+\.|\.\d+)") \
+    version_no = Regex(r"(v|V)(\d+\.\d+|\d+\.|\.\d+|\d+)") \
         .setName("version number")
 
     def optional_header_action(tokens):
@@ -568,7 +568,8 @@ def valid_grammar(s):
     try:
         parse_grammar_string(s)
         return True
-    except (ParseException, GrammarError):
+    except (ParseException, GrammarError, TypeError):
+        # Note that a TypeError is raised for negative alternative weights.
         # print(e)
         return False
 
-- 
2.43.0


From b1d1f55fe33d0fc56af7c073f2cc1d6c9db87d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:29 +0000
Subject: [PATCH 15/73] fix: allow ',' and '=' in names, as documented

---
 jsgf/references.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsgf/references.py b/jsgf/references.py
index a296f07..c622e6c 100644
--- a/jsgf/references.py
+++ b/jsgf/references.py
@@ -18,7 +18,7 @@ reserved_names = Combine(PPLiteral("NULL") ^ PPLiteral("VOID"))
 
 # This will match one or more alphanumeric Unicode characters and/or any of the
 # following special characters: +-:;,=|/\()[]@#%!^&~$
-base_name = Regex(r"[\w\+\-;:\|/\\\(\)\[\]@#%!\^&~\$]+", re.UNICODE)\
+base_name = Regex(r"[\w\+\-;:,=\|/\\\(\)\[\]@#%!\^&~\$]+", re.UNICODE)\
     .setName("base name")
 
 # A qualified name is a base name plus one or more base names joined by dots,
@@ -37,7 +37,7 @@ import_name = Combine((qualified_name + Optional(".*")) ^ (base_name + ".*"))
 # Grammar names cannot include semicolons because the declared grammar name parser
 # will gobble any semicolon after the name that isn't separated by whitespace,
 # leading to a parser error.
-_grammar_base_name = Regex(r"[\w\+\-:\|/\\\(\)\[\]@#%!\^&~\$]+", re.UNICODE)\
+_grammar_base_name = Regex(r"[\w\+\-:,=\|/\\\(\)\[\]@#%!\^&~\$]+", re.UNICODE)\
     .setName("base name")
 grammar_name = Combine(_grammar_base_name ^ Combine(
     _grammar_base_name + OneOrMore("." + _grammar_base_name)))\
-- 
2.43.0


From abef422f852bf0852fdcf3912fc2e2a9914d3de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:50 +0000
Subject: [PATCH 16/73] fix: reject names with surrounding whitespace and
 reserved names

Names are documented as single words and the reserved names NULL and VOID cannot be
used as grammar or import names.
---
 jsgf/expansions.py |  2 +-
 jsgf/grammars.py   |  6 ++++--
 jsgf/references.py | 17 ++++++++++++++++-
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 35be527..7eec7c7 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1148,7 +1148,7 @@ class BaseExpansionRef(references.BaseRef, Expansion):
 
     @staticmethod
     def valid(name):
-        return references.optionally_qualified_name.matches(name)
+        return references.matches_name(references.optionally_qualified_name, name)
 
     def compile(self, ignore_tags=False):
         self.validate_compilable()
diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index b378222..c0a2c16 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -178,7 +178,8 @@ class Import(references.BaseRef):
 
     @staticmethod
     def valid(name):
-        return references.import_name.matches(name)
+        return (references.matches_name(references.import_name, name) and
+                not references.reserved_names.matches(name.split(".")[-1]))
 
 
 class Grammar(references.BaseRef):
@@ -233,7 +234,8 @@ class Grammar(references.BaseRef):
 
     @staticmethod
     def valid(name):
-        return references.grammar_name.matches(name)
+        return (references.matches_name(references.grammar_name, name) and
+                not references.reserved_names.matches(name))
 
     @property
     def case_sensitive(self):
diff --git a/jsgf/references.py b/jsgf/references.py
index c622e6c..838eff5 100644
--- a/jsgf/references.py
+++ b/jsgf/references.py
@@ -6,6 +6,7 @@ import re
 
 from pyparsing import Regex, Optional, OneOrMore, Combine
 from pyparsing import Literal as PPLiteral  # to differentiate from jsgf.Literal
+from six import string_types
 
 from .errors import GrammarError
 
@@ -44,6 +45,20 @@ grammar_name = Combine(_grammar_base_name ^ Combine(
     .setName("grammar name")
 
 
+def matches_name(parser, name):
+    """
+    Check whether a name matches a parser defined in this module.
+
+    Parsers skip whitespace around names, so check for it here.
+
+    :param parser: ParserElement
+    :param name: str
+    :returns: bool
+    """
+    return (isinstance(name, string_types) and name == name.strip() and
+            parser.matches(name))
+
+
 class BaseRef(object):
     """
     Base class for JSGF rule and grammar references.
@@ -96,4 +111,4 @@ class BaseRef(object):
         :param name: str
         :returns: bool
         """
-        return base_name.matches(name) and not reserved_names.matches(name)
+        return matches_name(base_name, name) and not reserved_names.matches(name)
-- 
2.43.0


From b11af1f9c3b9114ed1e0b692f052727e278d3273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:48 +0000
Subject: [PATCH 17/73] fix: adding to child lists with +=, extended slices and
 invalid children

Parents weren't set by +=, which also returned None, the step of slices was ignored
and children lost their parent if setting new children failed.
---
 jsgf/expansions.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 7eec7c7..fb5c529 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -257,12 +257,9 @@ class ChildList(object):
         # If seq is specified, map each element in the sequence to an Expansion
         # (if possible) and set each expanion's parent to self._expansion.
         if seq:
-            def f(x):
-                x = Expansion.make_expansion(x)
+            seq = [Expansion.make_expansion(x) for x in seq]
+            for x in seq:
                 x.parent = self._expansion
-                return x
-
-            seq = map(f, seq)
 
         # Use an internal list rather than sub-classing to avoid pickling issues.
         self._list = list(seq)
@@ -286,7 +283,8 @@ class ChildList(object):
         return self._list + other
 
     def __iadd__(self, other):
-        self._list += other
+        self.extend(other)
+        return self
 
     def append(self, e):
         e = Expansion.make_expansion(e)
@@ -354,17 +352,22 @@ class ChildList(object):
         :param j: int
         :param sequence: iterable
         """
+        self._set_slice(slice(i, j), sequence)
+
+    def _set_slice(self, slice_, sequence):
         # Convert the sequence to a sequence of Expansions if it isn't one.
         sequence = [Expansion.make_expansion(e) for e in sequence]
+        old_children = self._list[slice_]
+
+        # Set the slice. This raises an error if the sequence has the wrong size for
+        # an extended slice.
+        self._list[slice_] = sequence
 
         # Orphan the old children :-(
         def orphan(x):
             x.parent = None
 
-        [orphan(c) for c in self._list[i:j]]
-
-        # Set the slice.
-        self._list[slice(i, j)] = sequence
+        [orphan(c) for c in old_children]
 
         # Adopt the new children :-)
         def adopt(x):
@@ -378,7 +381,7 @@ class ChildList(object):
     def __setitem__(self, i, value):
         # Handle setting slices separately for my sanity.
         if isinstance(i, slice):
-            self.__setslice__(i.start, i.stop, value)
+            self._set_slice(i, value)
             return
 
         # Convert value to Expansion appropriately.
@@ -476,6 +479,10 @@ class Expansion(object):
         if not isinstance(value, (tuple, list, ChildList)):
             raise TypeError("'children' must be a list or tuple")
 
+        # Make each item into an Expansion before changing anything because this
+        # can raise an error.
+        value = [Expansion.make_expansion(e) for e in value]
+
         # Orphan current children if applicable.
         if self._children:
             self._children.orphan_children()
-- 
2.43.0


From 5235781b2066391104ad83fd23bac66358cfcc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:57 +0000
Subject: [PATCH 18/73] fix: matching rule references after the referenced rule
 changes

References were matched using the parser element of the expansion, rule or import
first found and references added to the expansion tree of a rule couldn't be
resolved.
---
 jsgf/expansions.py | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index fb5c529..3400fd0 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1183,6 +1183,24 @@ class BaseExpansionRef(references.BaseRef, Expansion):
         return self.__copy__()
 
 
+class _RuleRefElement(pyparsing.ParserElement):
+    """
+    Internal parser element for matching the expansion of a referenced rule.
+
+    The parser element to use is looked up during matching because the referenced
+    rule and its expansion can change.
+    """
+    def __init__(self, ref):
+        super(_RuleRefElement, self).__init__()
+        self._ref = ref
+        self.name = "%s" % ref
+        self.mayReturnEmpty = True
+
+    def parseImpl(self, instring, loc, doActions=True):
+        element = self._ref.referenced_rule.expansion.matcher_element
+        return element._parse(instring, loc, doActions)
+
+
 class NamedRuleRef(BaseExpansionRef):
     """
     Class used to reference rules by name.
@@ -1198,8 +1216,16 @@ class NamedRuleRef(BaseExpansionRef):
         :raises: GrammarError
         :returns: Rule
         """
-        if self.rule and self.rule.grammar:
-            return self.rule.grammar.get_rule_from_name(self.name)
+        # Get the rule from the root of this expansion's tree because this expansion
+        # could have been added to the tree, or moved from another rule's tree. Do
+        # not look past rule references; trees can be joined temporarily.
+        root = self
+        while root.parent and not isinstance(root.parent, NamedRuleRef):
+            root = root.parent
+
+        rule = root.rule or self.rule
+        if rule and rule.grammar:
+            return rule.grammar.get_rule_from_name(self.name)
         else:
             raise GrammarError("cannot get referenced Rule object from Grammar")
     
@@ -1214,9 +1240,7 @@ class NamedRuleRef(BaseExpansionRef):
     def _make_matcher_element(self):
         # Wrap the parser element for the referenced rule's root expansion so that
         # the current match value for the NamedRuleRef is also set.
-        return self._set_matcher_element_attributes(pyparsing.And([
-            self.referenced_rule.expansion.matcher_element
-        ]))
+        return self._set_matcher_element_attributes(_RuleRefElement(self))
 
     def __hash__(self):
         return super(NamedRuleRef, self).__hash__()
-- 
2.43.0


From 85f8973d13d7a6e7de8780f638bd6a1fc651ee1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 19/73] fix: restore rule visibility if compiling a root
 grammar fails

---
 jsgf/grammars.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index c0a2c16..e650ba0 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -351,12 +351,17 @@ class Grammar(references.BaseRef):
         # something. Rules can compile to the empty string if they are disabled.
         names = []
         compiled_rules = ""
-        for rule in self.rules:
-            compiled = rule.compile()
-            if compiled:
-                compiled_rules += "%s\n" % compiled
-            if rule in visible_rules and compiled:
-                names.append(rule.name)
+        try:
+            for rule in self.rules:
+                compiled = rule.compile()
+                if compiled:
+                    compiled_rules += "%s\n" % compiled
+                if rule in visible_rules and compiled:
+                    names.append(rule.name)
+        finally:
+            # Set rule visibility back to normal, even if there is an error.
+            for rule in visible_rules:
+                rule.visible = True
 
         # If there are names, then build the root rule and add it and the compiled
         # rules to the result.
@@ -367,10 +372,6 @@ class Grammar(references.BaseRef):
             result += root_rule
             result += compiled_rules
 
-        # Set rule visibility back to normal
-        for rule in visible_rules:
-            rule.visible = True
-
         return result
 
     @property
-- 
2.43.0


From 75ef753aa504f1692434e4aca10508095dce8611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:56 +0000
Subject: [PATCH 20/73] fix: grammar methods given rules comparable to or not
 in the grammar

Rules with dependent rules could be removed using a comparable rule, whose link was
reset instead. Removing imported rules by name and adding invalid objects to root
grammars raised the wrong errors, and rules not in the grammar were enabled or
disabled despite the error raised.
---
 jsgf/grammars.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index e650ba0..4ee3954 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -682,9 +682,14 @@ class Grammar(references.BaseRef):
             # Assume 'rule' is the name of a rule
             # Get the rule object with the name
             rule = self.get_rule_from_name(rule)
-        elif rule not in self.rules:
+
+        # Note that rules found by name could be imported ones.
+        if rule not in self._rules:
             raise GrammarError("'%s' is not a rule in Grammar '%s'" % (rule, self))
 
+        # Use the rule object in this grammar, the one specified may be comparable.
+        rule = self._rules[self._rules.index(rule)]
+
         # Check if rule with name 'rule_name' is a dependency of another rule
         # in this grammar.
         if not ignore_dependent and rule.dependent_rules:
@@ -709,11 +714,13 @@ class Grammar(references.BaseRef):
             rule_name = rule
         else:
             rule_name = rule.name
-            rule.enable()
 
         if rule_name not in self.rule_names:
             raise GrammarError("'%s' is not a rule in Grammar '%s'" % (rule, self))
 
+        if isinstance(rule, Rule):
+            rule.enable()
+
         # Enable the rule
         self.get_rule_from_name(rule_name).enable()
 
@@ -730,11 +737,13 @@ class Grammar(references.BaseRef):
             rule_name = rule
         else:
             rule_name = rule.name
-            rule.disable()
 
         if rule_name not in self.rule_names:
             raise GrammarError("'%s' is not a rule in Grammar '%s'" % (rule, self))
 
+        if isinstance(rule, Rule):
+            rule.disable()
+
         # Disable the rule
         self.get_rule_from_name(rule_name).disable()
 
@@ -794,7 +803,7 @@ class RootGrammar(Grammar):
         return self.compile_as_root_grammar()
 
     def add_rule(self, rule):
-        if rule.name == "root":
+        if isinstance(rule, Rule) and rule.name == "root":
             raise GrammarError("cannot add rule with name 'root' to RootGrammar")
 
         super(RootGrammar, self).add_rule(rule)
-- 
2.43.0


From 1fc4c864ca5a5a911299e2f1d4511c359703e9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:42 +0000
Subject: [PATCH 21/73] fix: compiling root grammars with a rule named 'root'

---
 jsgf/grammars.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index 4ee3954..3bd5713 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -328,6 +328,7 @@ class Grammar(references.BaseRef):
         This is useful if you are using JSGF grammars with CMU Pocket Sphinx.
 
         :returns: str
+        :raises: GrammarError
         """
         result = self.jsgf_header
         result += "grammar %s;\n" % self.name
@@ -354,6 +355,9 @@ class Grammar(references.BaseRef):
         try:
             for rule in self.rules:
                 compiled = rule.compile()
+                if compiled and rule.name == "root":
+                    raise GrammarError("cannot compile a rule with name 'root' in a "
+                                       "root grammar")
                 if compiled:
                     compiled_rules += "%s\n" % compiled
                 if rule in visible_rules and compiled:
-- 
2.43.0


From 4633bc1570a7f9e80d8d42420d177e856e960f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:41 +0000
Subject: [PATCH 22/73] fix: getting imported rules by name

---
 jsgf/grammars.py | 47 +++++++++++++++++++++++------------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index 3bd5713..cf74e78 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -76,8 +76,9 @@ class Import(references.BaseRef):
 
     def _get_import_grammar(self, memo, file_exts):
         """ Internal method to get the grammar from a file if necessary. """
+        # Note that a rule may have the same fully-qualified name as a grammar.
         grammar_name = self.grammar_name
-        if grammar_name in memo:
+        if isinstance(memo.get(grammar_name), Grammar):
             return memo[grammar_name]
 
         # Import the parser function locally to avoid import cycles; this module is
@@ -141,7 +142,7 @@ class Import(references.BaseRef):
 
         # Check if this import statement has already been resolved.
         import_name = self.name
-        if import_name in memo:
+        if import_name in memo and not isinstance(memo[import_name], Grammar):
             return memo[import_name]
 
         # Parse the grammar from its file, if it exists.
@@ -617,34 +618,32 @@ class Grammar(references.BaseRef):
 
         # No local rules matched, so resolve import statements.
         self.resolve_imports()
-        import_names = self.import_names
         imported_rules = []
-        for (key, value) in self.import_environment.items():
-            if key not in import_names:
-                continue
-
-            # Handle single rule imports.
-            if isinstance(value, Rule):
-                imported_rules.append(value)
-
-            # Handle wildcard rule imports.
-            elif isinstance(value, list):
-                imported_rules.extend(value)
-
-        # Check against imported rules.
-        matching_rules = []
-        qualified_name = ".".join(name.split(".")[-2:])  # get only the last part
-        for rule in imported_rules:
-            if name == rule.name or qualified_name == rule.qualified_name:
-                matching_rules.append(rule)
+        for import_ in self._imports:
+            value = import_.resolve(self._import_env)
+
+            # Handle both single and wildcard rule imports. Rules may be imported by
+            # more than one import statement.
+            for rule in ([value] if isinstance(value, Rule) else value):
+                if not any(rule is r for r in imported_rules):
+                    imported_rules.append(rule)
+
+        # Check against imported rules. Rules can be referenced by their simple,
+        # qualified and fully-qualified names. A fully-qualified name is never
+        # ambiguous.
+        matching_rules = [rule for rule in imported_rules
+                          if name in (rule.name, rule.qualified_name,
+                                      rule.fully_qualified_name)]
+        for rule in matching_rules:
+            if name == rule.fully_qualified_name and name.count(".") > 0:
+                return rule
 
         # Return the matching imported rule if there is only one.
         if len(matching_rules) == 1:
             return matching_rules[0]
 
-        # Raise an error if there are multiple matches and the name is not fully
-        # qualified.
-        if len(matching_rules) > 1 and name.count(".") <= 1:
+        # Raise an error if there are multiple matches.
+        if len(matching_rules) > 1:
             raise GrammarError("name %r is ambiguous; multiple imported rules match."
                                " Use a qualified or fully-qualified name instead."
                                % name)
-- 
2.43.0


From f9b5ab5988ea448b5a53307bcb871ccf64d087b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:57 +0000
Subject: [PATCH 23/73] fix: invalidating stored expansion calculations

---
 jsgf/expansions.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 3400fd0..da05761 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -927,14 +927,10 @@ class Expansion(object):
         if not root._lookup_dict:
             return  # nothing to invalidate
 
+        # Keys are expansion IDs or tuples of expansion IDs.
         for d in root._lookup_dict.values():
-            for k, v in d.items():
-                # Assume k is either an expansion or an iterable of expansions
-                if self is k or isinstance(k, (tuple, list)) and self in k:
-                    assert isinstance(d, dict)
-                    d.pop(k)
-                # Do something similar for values
-                elif self is v or isinstance(v, (tuple, list)) and self in k:
+            for k in tuple(d):
+                if id(self) == k or isinstance(k, tuple) and id(self) in k:
                     d.pop(k)
 
     def __str__(self):
-- 
2.43.0


From deafc38cb5acceac4c8d6a87ea1243223051e130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:36 +0000
Subject: [PATCH 24/73] fix: do not match parts of words

---
 jsgf/expansions.py | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index da05761..da8d221 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1400,6 +1400,36 @@ class Sequence(VariableChildExpansion):
         return super(Sequence, self).__hash__()
 
 
+class _LiteralElement(pyparsing.ParserElement):
+    """
+    Internal parser element for matching literal text.
+
+    Unlike pyparsing's literal elements, this will not match part of a word, e.g.
+    'the' in 'theatre'.
+    """
+    # Two characters that are part of the same word if they are adjacent.
+    _same_word = re.compile(r"[\w\-\']{2}", re.UNICODE)
+
+    def __init__(self, text, case_sensitive=False):
+        super(_LiteralElement, self).__init__()
+        self._text = text
+        self._case_sensitive = case_sensitive
+        self.name = "'%s'" % text
+        self.errmsg = "Expected " + self.name
+
+    def parseImpl(self, instring, loc, doActions=True):
+        end = loc + len(self._text)
+        text, expected = instring[loc:end], self._text
+        if not self._case_sensitive:
+            text, expected = text.upper(), expected.upper()
+
+        # Check the text and that it isn't surrounded by other parts of words.
+        if (text != expected or self._same_word.match(instring[end - 1:end + 1]) or
+                loc > 0 and self._same_word.match(instring[loc - 1:loc + 1])):
+            raise pyparsing.ParseException(instring, loc, self.errmsg, self)
+        return end, self._text
+
+
 class Literal(Expansion):
     """
     Expansion class for literals.
@@ -1517,16 +1547,13 @@ class Literal(Expansion):
         return re.compile(r"\s+".join(words))
 
     def _make_matcher_element(self):
-        # Return a case-sensitive or case-insensitive pyparsing Literal element.
+        # Return a case-sensitive or case-insensitive element for matching the text.
         # Only use one space between words, as is done for speech strings.
-        text = " ".join(self._text.split()) or self._text
-        if self.case_sensitive:
-            element = pyparsing.Literal(text)
+        text = " ".join(self._text.split())
+        if text:
+            element = _LiteralElement(text, self.case_sensitive)
         else:
-            element = pyparsing.CaselessLiteral(text)
-
-            # The length of upper case text can be different, e.g. for 'ß'.
-            element.matchLen = len(text)
+            element = pyparsing.Literal(self._text)
         return self._set_matcher_element_attributes(element)
 
     def __eq__(self, other):
-- 
2.43.0


From a273f2b339ac1448a6b7ba1ea7239ae1b4297861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 25/73] fix: matching dictation before literals ignoring case

---
 jsgf/ext/expansions.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 8aaa966..f6915d9 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -16,6 +16,7 @@ from ..expansions import (
     Repeat,
     Sequence,
     TraversalOrder,
+    _LiteralElement,
     find_expansion,
 )
 
@@ -31,8 +32,11 @@ def _collect_from_leaves(e, backtrack):
             # Add regex for a single dictation word.
             result.append(_word_regex_str)
         elif isinstance(leaf, Literal):
-            # Add first word of literal.
-            result.append(leaf.text.split()[0])
+            # Add the first word of the literal and whether it is case-sensitive.
+            words = leaf.text.split()
+            if not words:
+                continue
+            result.append((words[0], leaf.case_sensitive))
         else:
             # Skip references.
             continue
@@ -233,7 +237,7 @@ class Dictation(Literal):
             # Otherwise build an element to match one or more words stopping on
             # any of the next literals so that they aren't matched as dictation.
             else:
-                next_literals = list(map(pyparsing.Literal, next_literals))
+                next_literals = [_LiteralElement(*args) for args in next_literals]
                 result = pyparsing.OneOrMore(
                     word, stopOn=pyparsing.Or(next_literals)
                 )
-- 
2.43.0


From ca183268a9d69ff516ff895a9800f64a0b1cd5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:07 +0000
Subject: [PATCH 26/73] fix: replacing the weights of modified alternatives

---
 jsgf/expansions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index da8d221..855276e 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1931,6 +1931,11 @@ class AlternativeSet(VariableChildExpansion):
                 if c.compile() == compiled_child:
                     child = c
 
+        # Discard any previous weight first because the hash of the child may have
+        # changed since.
+        weights = [(e, w) for e, w in self._weights.items() if e is not child]
+        self._weights.clear()
+        self._weights.update(weights)
         self._weights[child] = weight
 
         # Invalidate this expansion. This is a quick procedure if the matcher
-- 
2.43.0


From a1e0e2bbcfef0c6897181472d33036ade41eec43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:43 +0000
Subject: [PATCH 27/73] fix: weights of alternatives comparable to removed ones

---
 jsgf/expansions.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 855276e..304bdd2 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1931,6 +1931,13 @@ class AlternativeSet(VariableChildExpansion):
                 if c.compile() == compiled_child:
                     child = c
 
+        # Use the alternative itself if the one specified is comparable.
+        elif not any(c is child for c in self.children):
+            for c in self.children:
+                if c == child:
+                    child = c
+                    break
+
         # Discard any previous weight first because the hash of the child may have
         # changed since.
         weights = [(e, w) for e, w in self._weights.items() if e is not child]
@@ -1974,15 +1981,12 @@ class AlternativeSet(VariableChildExpansion):
         return result
 
     def _get_weight(self, child, default=None):
-        # Get the weight of a child. Look for the child itself if necessary because
-        # the hashes of expansions change if they are modified.
-        weight = self._weights.get(child)
-        if weight is None:
-            for e, w in self._weights.items():
-                if e is child:
-                    return w
-            weight = default
-        return weight
+        # Get the weight of a child. Look for the child itself first because the
+        # hashes of expansions change if they are modified.
+        for e, w in self._weights.items():
+            if e is child:
+                return w
+        return self._weights.get(child, default)
 
     def _validate_weights(self):
         # Check that all alternatives have a weight. The rule for weights is
-- 
2.43.0


From 45a89baf48b13376bf7acd976608334b06ba5ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:49 +0000
Subject: [PATCH 28/73] fix: weights of alternatives comparable to removed
 ones, if modified

---
 jsgf/expansions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 304bdd2..3fc07aa 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1939,8 +1939,9 @@ class AlternativeSet(VariableChildExpansion):
                     break
 
         # Discard any previous weight first because the hash of the child may have
-        # changed since.
-        weights = [(e, w) for e, w in self._weights.items() if e is not child]
+        # changed since, or another expansion may have been used as the key.
+        weights = [(e, w) for e, w in self._weights.items()
+                   if e is not child and e != child]
         self._weights.clear()
         self._weights.update(weights)
         self._weights[child] = weight
-- 
2.43.0


From e38d7df793a1ac2159066180f89d81523829f105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:32 +0000
Subject: [PATCH 29/73] fix: discard match data when a disabled rule is matched

---
 jsgf/rules.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index b5e78f7..7b605b1 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -241,6 +241,9 @@ class Rule(references.BaseRef):
         :returns: bool
         """
         if not self._active:
+            # Discard any data from before this rule was disabled.
+            if self.was_matched:
+                self.expansion.reset_for_new_match()
             return False
 
         # Strip whitespace at the start of 'speech' and lower it to match regex
-- 
2.43.0


From 1dc99d18df71769ff56f72707aca0d61be046d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:47 +0000
Subject: [PATCH 30/73] fix: parsing rules ended by newlines, as documented

---
 jsgf/parser.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index 55fa54b..c88bce8 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -101,7 +101,7 @@ from .expansions import (AlternativeSet, KleeneStar, Literal, NamedRuleRef, Null
                          VoidRef, SingleChildExpansion)
 from .grammars import Grammar, Import
 from .references import (optionally_qualified_name, import_name, grammar_name,
-                         word, words)
+                         word)
 from .rules import Rule
 
 
@@ -387,8 +387,13 @@ def get_exp_parser():
     # Define some other characters that do appear in the output.
     star, plus, pipe, lcurl, rcurl = map(PPLiteral, "*+|{}")
 
+    # Define the start of a rule definition. This is used to check for rules ended by
+    # newlines, which would otherwise be parsed as part of the expansion.
+    rule_start = langle + optionally_qualified_name + rangle + "="
+    public_rule_start = CaselessKeyword("public") + rule_start
+
     # Define literals.
-    literal = words.copy()\
+    literal = OneOrMore(~public_rule_start + word).setName("literal")\
         .setParseAction(lambda tokens: Literal(" ".join(tokens)))
 
     # Define rule references.
@@ -405,7 +410,7 @@ def get_exp_parser():
         .setParseAction(lambda tokens: RequiredGrouping(tokens[0]))
     opt = (lbrac + exp + rbrac).setName("optional")\
         .setParseAction(lambda tokens: OptionalGrouping(tokens[0]))
-    atom = (weight + (literal | rule_ref | req | opt))\
+    atom = (~rule_start + weight + (literal | rule_ref | req | opt))\
         .setParseAction(_atom_action)
 
     # Define tag text to one or more words defined by a regular expression.
-- 
2.43.0


From 6d1477b3dd5a92bfb68c0fb5766ef70561e71c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:17 +0000
Subject: [PATCH 31/73] fix: parsing grammar headers without a language ended
 by newlines

---
 jsgf/parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index c88bce8..591dade 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -496,9 +496,12 @@ def get_grammar_parser():
     def optional_header_action(tokens):
         return tokens if tokens else [""]
 
-    charset_name = Optional(word.copy()).setName("character set") \
+    # The optional names must be in the same line, otherwise part of the next line
+    # is used instead if the header is ended by a newline.
+    header_word = word.copy().setWhitespaceChars(" \t")
+    charset_name = Optional(header_word).setName("character set") \
         .setParseAction(optional_header_action)
-    language_name = Optional(word.copy()).setName("language name") \
+    language_name = Optional(header_word.copy()).setName("language name") \
         .setParseAction(optional_header_action)
 
     header_line = (Suppress(CaselessLiteral("#JSGF")) + version_no + charset_name +
-- 
2.43.0


From e4334aed149e3493f5e2eac8e216562b7c270063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:36 +0000
Subject: [PATCH 32/73] fix: parsing comments at the end of grammars

---
 jsgf/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index 591dade..68e5992 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -452,7 +452,9 @@ def get_rule_parser():
               equals + expansion_parser + line_delimiter)\
         .setName("rule definition")
     parser.setParseAction(_make_rule).ignore(cppStyleComment)
-    return parser
+
+    # Also allow comments that are only followed by the end of the text.
+    return parser + Suppress(ZeroOrMore(cppStyleComment))
 
 
 def get_grammar_parser():
-- 
2.43.0


From 8d91317a4d433edfe536f478f19bebb83870c9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:31 +0000
Subject: [PATCH 33/73] fix: parsing comments before public rules after imports

---
 jsgf/parser.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index 68e5992..ff178fe 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -92,7 +92,7 @@ import re
 
 from pyparsing import (Literal as PPLiteral, Suppress, OneOrMore, pyparsing_common,
                        White, Regex, Optional, cppStyleComment, ZeroOrMore, Forward,
-                       ParseException, CaselessKeyword, CaselessLiteral, Word)
+                       ParseException, CaselessKeyword, CaselessLiteral, Empty, Word)
 from six import string_types, integer_types
 
 from .errors import GrammarError
@@ -447,14 +447,12 @@ def get_rule_parser():
     visibility = Optional(public).setParseAction(lambda tokens: bool(tokens))
 
     # Define the rule parser and set its parse action. Also ignore any C++ style
-    # comments around it.
+    # comments around it, including any that are only followed by the end of the text.
     parser = (visibility + langle + optionally_qualified_name + rangle +
-              equals + expansion_parser + line_delimiter)\
+              equals + expansion_parser + line_delimiter + Empty())\
         .setName("rule definition")
     parser.setParseAction(_make_rule).ignore(cppStyleComment)
-
-    # Also allow comments that are only followed by the end of the text.
-    return parser + Suppress(ZeroOrMore(cppStyleComment))
+    return parser
 
 
 def get_grammar_parser():
-- 
2.43.0


From 4f729e23a374e53345bdf041a21bf0baba76dcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:18 +0000
Subject: [PATCH 34/73] fix: joined trees left joined if a reference cannot be
 resolved

---
 jsgf/expansions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 3fc07aa..835a2b4 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -235,7 +235,13 @@ class JointTreeContext(object):
             x.referenced_rule.expansion.parent = None
 
     def __enter__(self):
-        map_expansion(self._root, self.join_tree, TraversalOrder.PostOrder)
+        # Find every reference before joining any trees, so that none are left joined
+        # if there is an error.
+        references = filter_expansion(self._root,
+                                      lambda x: isinstance(x, NamedRuleRef),
+                                      TraversalOrder.PostOrder)
+        for x in references:
+            self.join_tree(x)
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         map_expansion(self._root, self.detach_tree, TraversalOrder.PostOrder)
-- 
2.43.0


From 5ccfe0960a88dfb49dd6add2dbc4ca81a911ddd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:26 +0000
Subject: [PATCH 35/73] fix: setting case sensitivity with references that
 cannot be imported

---
 jsgf/rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index 7b605b1..f75a611 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -5,7 +5,7 @@ This module contains classes for compiling and matching JSpeech Grammar Format
 rules.
 """
 
-from .errors import GrammarError
+from .errors import GrammarError, JSGFImportError
 from . import references
 from .expansions import Expansion, Literal, NamedRuleRef, filter_expansion, \
     map_expansion, TraversalOrder
@@ -187,7 +187,7 @@ class Rule(references.BaseRef):
                 # don't resolve to actual Rule objects.
                 try:
                     e.referenced_rule.case_sensitive = value
-                except GrammarError:
+                except (GrammarError, JSGFImportError):
                     pass
 
         # Recursively operate on the rule expansion tree. Do *not* operate on
-- 
2.43.0


From 6259a5ef8a7b756fea8f8c844b54c8571ff0d3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:41 +0000
Subject: [PATCH 36/73] fix: no matching tags for disabled rules whose
 referenced rules were matched

---
 jsgf/rules.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index f75a611..df1354b 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -364,7 +364,10 @@ class Rule(references.BaseRef):
         :param speech: str
         :returns: list
         """
-        self.matches(speech)
+        # There are no matching tags if this rule is disabled, even if a referenced
+        # rule was matched separately.
+        if not self.matches(speech):
+            return []
         return self.matched_tags
 
     @property
-- 
2.43.0


From 60c7dca6703cf250dfbc3a7e24553ce68d66cbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:39 +0000
Subject: [PATCH 37/73] fix: share the imports of grammars found by
 fully-qualified names

---
 jsgf/grammars.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index cf74e78..ce31424 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -588,12 +588,16 @@ class Grammar(references.BaseRef):
 
         # Update the import environments of this and other grammars in the memo
         # dictionary.
+        self._update_import_environments(memo)
+
+        return memo
+
+    @staticmethod
+    def _update_import_environments(memo):
         for value in memo.values():
             if isinstance(value, Grammar):
                 value.import_environment.update(memo)
 
-        return memo
-
     def get_rule_from_name(self, name):
         """
         Get a rule object with the specified name if one exists in the grammar or its
@@ -651,7 +655,11 @@ class Grammar(references.BaseRef):
         # If the name is a fully-qualified rule name, then try to resolve it.
         if name.count(".") > 0:
             import_ = Import(name)
-            return import_.resolve(self._import_env)
+            try:
+                return import_.resolve(self._import_env)
+            finally:
+                # Avoid the grammar re-resolving other grammars unnecessarily.
+                self._update_import_environments(self._import_env)
 
         # No local or imported rule matched. This is an error.
         raise GrammarError("%r is not a local or imported rule in Grammar %r"
-- 
2.43.0


From b741b63d9e21b2e3a88353cd570f63a6485b660c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:21 +0000
Subject: [PATCH 38/73] fix: hashes of alternative sets with tagged empty
 alternatives

Equal alternative sets had different hashes, and so were not equal, if an
alternative without children was tagged.
---
 jsgf/expansions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 835a2b4..fdf3acc 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1962,7 +1962,7 @@ class AlternativeSet(VariableChildExpansion):
         # of child order, as is done by __eq__. The class name is not used because
         # sub-class instances can be equal.
         child_hashes = frozenset([
-            (hash(e) if e.children else hash("%s" % e),
+            (hash("%s" % e) if isinstance(e, Literal) else hash(e),
              float(self._get_weight(e, 1)))
             for e in self.children
         ])
-- 
2.43.0


From 27c556d47100e74ddba14e37759c890449367be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:06 +0000
Subject: [PATCH 39/73] fix: do not pickle stored expansion calculations

They are stored by ID, so they were used for unrelated expansions after
unpickling.
---
 jsgf/expansions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index fdf3acc..50b6c15 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -964,6 +964,10 @@ class Expansion(object):
     def __getstate__(self):
         state = self.__dict__.copy()
         state['_matcher_element'] = None
+
+        # Stored calculations use expansion IDs, which are not the same for pickled
+        # expansions.
+        state['_lookup_dict'] = None
         return state
 
     @property
-- 
2.43.0


From f83a4738f97c59817fd34fcf890504987bb0d74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:47 +0000
Subject: [PATCH 40/73] fix: unpickling weighted alternatives from within

Pickling an alternative, or a part of it, failed to unpickle because alternatives
were used as dictionary keys before they were unpickled.
---
 jsgf/expansions.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 50b6c15..7153b07 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1889,9 +1889,23 @@ class AlternativeSet(VariableChildExpansion):
     Class for a set of expansions, one of which can be spoken.
     """
     def __init__(self, *expansions):
-        self._weights = {}
+        self._weights_dict = {}
         super(AlternativeSet, self).__init__(*expansions)
 
+    @property
+    def _weights(self):
+        if isinstance(self._weights_dict, list):
+            self._weights_dict = dict(self._weights_dict)
+        return self._weights_dict
+
+    def __getstate__(self):
+        # Pickle weights as a list because alternatives cannot be used as keys until
+        # they have been unpickled. An alternative can be unpickled before or after
+        # its alternative set.
+        state = super(AlternativeSet, self).__getstate__()
+        state['_weights_dict'] = list(self._weights.items())
+        return state
+
     @property
     def weights(self):
         """
-- 
2.43.0


From c472412233a346e2f548ed9f1274c840239ab12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:08 +0000
Subject: [PATCH 41/73] fix: keep the expansion of a rule if given an invalid
 one

---
 jsgf/rules.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index df1354b..fb4b897 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -93,12 +93,15 @@ class Rule(references.BaseRef):
             return self._name
 
     def _set_expansion(self, value):
+        # Handle the object passed in as an expansion. This is done before changing
+        # anything because it can raise an error.
+        value = Expansion.make_expansion(value)
+
         # Reset expansion.rule if there was a previous expansion
         if self._expansion:
             self._expansion.rule = None
 
-        # Handle the object passed in as an expansion
-        self._expansion = Expansion.make_expansion(value)
+        self._expansion = value
 
         # Set the rule attribute for the rule's expansions
         def set_rule(x):
-- 
2.43.0


From accdd80bf719c14f52bee166ac1fcf0a83871253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:31 +0000
Subject: [PATCH 42/73] fix: names with comments were accepted, and ones
 beginning with // rejected

---
 jsgf/parser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index ff178fe..7b99dac 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -100,11 +100,17 @@ from .expansions import (AlternativeSet, KleeneStar, Literal, NamedRuleRef, Null
                          OptionalGrouping, RequiredGrouping, Repeat, Sequence,
                          VoidRef, SingleChildExpansion)
 from .grammars import Grammar, Import
-from .references import (optionally_qualified_name, import_name, grammar_name,
-                         word)
+from . import references
+from .references import word
 from .rules import Rule
 
 
+# Use copies of the parser elements for names because ignoring comments changes the
+# elements used, and names may not contain comments.
+optionally_qualified_name = references.optionally_qualified_name.copy()
+import_name = references.import_name.copy()
+grammar_name = references.grammar_name.copy()
+
 # Define angled brackets that don't appear in the output.
 langle, rangle = map(Suppress, "<>")
 
-- 
2.43.0


From 5488a0cad3ff309d142c437b0d06fdbfb5eeaeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:40 +0000
Subject: [PATCH 43/73] fix: expanding expansions with dictation twice in the
 result

---
 jsgf/ext/expansions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index f6915d9..5263996 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -447,8 +447,9 @@ def expand_dictation_expansion(expansion):
 
         for copy in copies:
             next_unprocessed = first_unprocessed_expansion(copy)
-            if not next_unprocessed and copy not in result:
-                result.append(copy)
+            if not next_unprocessed:
+                if copy not in result:
+                    result.append(copy)
             else:
                 # Process the next unprocessed expansion and add the results.
                 # There are duplicates sometimes, so don't add them.
-- 
2.43.0


From 296d114ac26d3dcd505b833dc404ab7d9e51d968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 44/73] fix: expanding optional alternatives beside dictation

---
 jsgf/ext/expansions.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 5263996..f515be0 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -12,6 +12,7 @@ from ..expansions import (
     KleeneStar,
     Literal,
     NamedRuleRef,
+    NullRef,
     OptionalGrouping,
     Repeat,
     Sequence,
@@ -365,6 +366,16 @@ def expand_dictation_expansion(expansion):
     def find_goal(e, goal):
         return find_expansion(e, lambda x: x == goal)
 
+    def replace_child(parent, child, replacement):
+        # The weight of an alternative is also the weight of its replacement.
+        weight = None
+        if isinstance(parent, AlternativeSet):
+            weight = parent._get_weight(child)
+        index = parent.children.index(child)
+        parent.children[index] = replacement
+        if weight is not None:
+            parent.set_weight(replacement, weight)
+
     def process(e):
         """
         Process an expansion recursively and return a list of expanded expansions.
@@ -411,7 +422,12 @@ def expand_dictation_expansion(expansion):
             # where there is another child
             while ancestor:
                 if len(ancestor.children) > 1:
-                    ancestor.children.remove(copy_x)
+                    # An alternative can still be chosen without its optional
+                    # contents, so do not remove it.
+                    if isinstance(ancestor, AlternativeSet):
+                        replace_child(ancestor, copy_x, NullRef())
+                    else:
+                        ancestor.children.remove(copy_x)
                     break
 
                 copy_x = ancestor
@@ -437,9 +453,7 @@ def expand_dictation_expansion(expansion):
             copy_x = find_goal(copy, current)
             copy_parent = copy_x.parent
             if copy_parent:
-                index = copy_parent.children.index(copy_x)
-                copy_parent.children.remove(copy_x)
-                copy_parent.children.insert(index, replacement)
+                replace_child(copy_parent, copy_x, replacement)
             else:
                 # copy is the root expansion.
                 copy = replacement
-- 
2.43.0


From 1249c6da4ae3075d2732f9b27a7738b34f08ea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 45/73] fix: expanding weighted alternatives with dictation

---
 jsgf/ext/expansions.py | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index f515be0..0f93a0f 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -17,6 +17,7 @@ from ..expansions import (
     Repeat,
     Sequence,
     TraversalOrder,
+    VoidRef,
     _LiteralElement,
     find_expansion,
 )
@@ -363,16 +364,26 @@ def expand_dictation_expansion(expansion):
             if is_unprocessed(e):
                 return e
 
+    def child_index(child):
+        return [c is child for c in child.parent.children].index(True)
+
     def find_goal(e, goal):
-        return find_expansion(e, lambda x: x == goal)
+        # Find the counterpart of an expansion in a copy of its tree. This is done by
+        # position because comparable expansions can be used more than once.
+        indices = []
+        while goal.parent:
+            indices.append(child_index(goal))
+            goal = goal.parent
+        for i in reversed(indices):
+            e = e.children[i]
+        return e
 
     def replace_child(parent, child, replacement):
         # The weight of an alternative is also the weight of its replacement.
         weight = None
         if isinstance(parent, AlternativeSet):
             weight = parent._get_weight(child)
-        index = parent.children.index(child)
-        parent.children[index] = replacement
+        parent.children[child_index(child)] = replacement
         if weight is not None:
             parent.set_weight(replacement, weight)
 
@@ -396,21 +407,35 @@ def expand_dictation_expansion(expansion):
             # the AlternativeSet currently being processed.
             dictation_children = []  # again, not necessarily only dictation.
             jsgf_only_children = []
+            weights = []
             for child in current.children:
+                # Alternatives with a weight of 0 are never matched.
+                weight = current._get_weight(child)
+                if weight == 0:
+                    continue
+
                 # Add a deep copy of each child to one of the above lists.
                 if dictation_in_expansion(child):
                     dictation_children.append(child.copy())
                 else:
                     jsgf_only_children.append(child.copy())
+                    weights.append(weight)
 
             if len(jsgf_only_children) == 1:
                 replacements = jsgf_only_children
             elif len(jsgf_only_children) > 1:
                 replacements = [AlternativeSet(*jsgf_only_children)]
+                for i, weight in enumerate(weights):
+                    if weight is not None:
+                        replacements[0].set_weight(i, weight)
             else:  # no JSGF children
                 replacements = []
             replacements.extend(dictation_children)
 
+            # Nothing can be matched if every alternative has a weight of 0.
+            if not replacements:
+                replacements = [VoidRef()]
+
         elif isinstance(current, (OptionalGrouping, KleeneStar)):
             # Handle not required - remove from a copy
             copy = current.root_expansion.copy()
@@ -427,7 +452,7 @@ def expand_dictation_expansion(expansion):
                     if isinstance(ancestor, AlternativeSet):
                         replace_child(ancestor, copy_x, NullRef())
                     else:
-                        ancestor.children.remove(copy_x)
+                        ancestor.children.pop(child_index(copy_x))
                     break
 
                 copy_x = ancestor
-- 
2.43.0


From 3270aa3f35e7732492e3c0666dd1ce1493c878fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:08 +0000
Subject: [PATCH 46/73] fix: removing rules that are not visible from dictation
 grammars

Rules without dictation stayed in the compiled output, and a rule that could
not be removed because of dependent rules lost its original rule.
---
 jsgf/ext/grammars.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index b471d07..ab9b99c 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -160,14 +160,15 @@ class DictationGrammar(Grammar):
 
         for k, v in list(self._original_rule_map.items()):
             if v.name == rule_name:
-                self._original_rule_map.pop(k)
-
                 if k in self._dictation_rules:
                     self._dictation_rules.remove(k)
 
-                elif k in self._jsgf_only_grammar.match_rules:
+                # Note that rules which are not visible are removed too.
+                elif k in self._jsgf_only_grammar.rules:
                     self._jsgf_only_grammar.remove_rule(k, ignore_dependent)
 
+                self._original_rule_map.pop(k)
+
     def _compile(self, compile_as_root_grammar):
         """
         Internal method to compile the grammar.
-- 
2.43.0


From 73c76f4d45437e22414614c26d363bb8bef74920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:00 +0000
Subject: [PATCH 47/73] fix: sequence rules added to dictation grammars matched
 one utterance only

The match of the current step was grafted onto the step itself, so after
resetting the rule, dictation only matched the same words again.
---
 jsgf/ext/grammars.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index ab9b99c..6003e1b 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -256,7 +256,12 @@ class DictationGrammar(Grammar):
         for rule in result:
             original = self.get_original_rule(rule)
             if isinstance(rule, SequenceRule):
-                SequenceRule.graft_sequence_matches(rule, original.expansion)
+                # Note that the expansion of a SequenceRule is its current step.
+                if isinstance(original, SequenceRule):
+                    expansion = original.original_expansion
+                else:
+                    expansion = original.expansion
+                SequenceRule.graft_sequence_matches(rule, expansion)
 
                 # Progress to the next expansion if required
                 if rule.has_next_expansion and advance_sequence_rules:
-- 
2.43.0


From 1522b3508a59d4539f5a1871de706789dce2ffaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:05 +0000
Subject: [PATCH 48/73] fix: list generated rules of dictation grammars that
 are not visible

---
 jsgf/ext/grammars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index 6003e1b..9cb5598 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -49,7 +49,7 @@ class DictationGrammar(Grammar):
         :returns: list
         """
         return list(set(
-                self._dictation_rules + self._jsgf_only_grammar.match_rules +
+                self._dictation_rules + self._jsgf_only_grammar.rules +
                 list(self._original_rule_map.values())
         ))
 
-- 
2.43.0


From 147484a23e3390db661e1b424b507d8f9bd128a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 49/73] fix: matching nothing with rules of dictation grammars

Rules without dictation that match without any words have no current match,
which was passed to the original rule and raised AttributeError.
---
 jsgf/ext/grammars.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index 9cb5598..3e634be 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -267,8 +267,8 @@ class DictationGrammar(Grammar):
                 if rule.has_next_expansion and advance_sequence_rules:
                     rule.set_next()
 
-            else:
-                original.matches(rule.expansion.current_match)
+            elif original is not rule:
+                original.matches(speech)
 
         # Move SequenceRules between _dictation_rules and _jsgf_only_grammar as
         # required
-- 
2.43.0


From 7c3d96727f7b47d1aeba9f9c4825076e8268555a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 50/73] fix: collect all of the possible next literals for
 dictation

Only the first of required alternatives was collected after dictation, so
utterances with the others were not matched. Literals within optional parts
that contain the dictation were looked past.
---
 jsgf/ext/expansions.py | 173 ++++++++++++++++++-----------------------
 1 file changed, 74 insertions(+), 99 deletions(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 0f93a0f..7e0d29a 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -26,97 +26,86 @@ from ..expansions import (
 _word_regex_str = r"[\w\d?,\.\-_!;:']+"
 
 
-def _collect_from_leaves(e, backtrack):
-    result = []
-    look_further = True
-    for leaf in e.leaves:
-        if isinstance(leaf, Dictation):
-            # Add regex for a single dictation word.
-            result.append(_word_regex_str)
-        elif isinstance(leaf, Literal):
-            # Add the first word of the literal and whether it is case-sensitive.
-            words = leaf.text.split()
-            if not words:
-                continue
-            result.append((words[0], leaf.case_sensitive))
-        else:
-            # Skip references.
-            continue
+def _collect_first(e, dictation):
+    """
+    Collect what the words matched by an expansion can begin with.
 
-        # Break out of the loop if the leaf is required.
-        if not leaf.is_optional:
-            if not backtrack:
-                look_further = False
-            break
-    return result, look_further
+    :param e: Expansion
+    :param dictation: Dictation expansion to skip
+    :returns: tuple of a set and whether the expansion can match no words at all
+    """
+    result = set()
+    if isinstance(e, Dictation):
+        # Add regex for a single dictation word. This won't collect the same
+        # repeating dictation.
+        if e is not dictation:
+            result.add(_word_regex_str)
+        return result, False
+
+    if isinstance(e, Literal):
+        # Add the first word of the literal and whether it is case-sensitive.
+        words = e.text.split()
+        if words:
+            result.add((words[0], e.case_sensitive))
+        return result, not words
+
+    if isinstance(e, NamedRuleRef):
+        if isinstance(e, (NullRef, VoidRef)):
+            return result, isinstance(e, NullRef)
+        return _collect_first(e.referenced_rule.expansion, dictation)
+
+    if isinstance(e, AlternativeSet):
+        # Any of the alternatives could be matched.
+        empty = not e.children
+        for c in e.children:
+            first, c_empty = _collect_first(c, dictation)
+            result.update(first)
+            empty = empty or c_empty
+    else:
+        # Collect until an expansion which must match something is found.
+        empty = True
+        for c in e.children:
+            first, empty = _collect_first(c, dictation)
+            result.update(first)
+            if not empty:
+                break
 
+        empty = empty or isinstance(e, (OptionalGrouping, KleeneStar))
 
-def _collect_next_literals(stack, i, look_further, backtrack):
-    """
-    Build a list of each next literal using a stack of expansions and their parents
-    as well as an index for which stack frame to use.
-
-    The stack has the following structure:
-    [(e, e.parent), (e.parent, e.parent.parent), ... (root.children[x], root)]
-    :param stack: list
-    :param i: int
-    :param look_further: bool
-    :param backtrack: bool
-    :returns: tuple of literals list and flags value
+    return result, empty
+
+
+def _collect_next_literals(dictation):
     """
-    # Handle stop looking for literals or i being an invalid index.
-    if not look_further or i < 0 or i >= len(stack):
-        return [], look_further
-
-    # Get the current child and parent from the stack.
-    p1, p2 = stack[i]
-    result = []
-
-    if isinstance(p2, Sequence):
-        # Get the index of p1 in p2.children using 'is'.
-        j = 0
-        for j, c in enumerate(p2.children):
-            if c is p1:
-                break
+    Collect what can be matched after a dictation expansion: the first words of
+    literals with whether they are case-sensitive, and the regex for a single
+    dictation word.
 
-        # Collect the first word of each literal until a required one is found.
-        # This won't collect the same repeating dictation from backtracking.
-        child_slice = p2.children[:j] if backtrack else p2.children[j + 1:]
-        for c in child_slice:
-            leaves, look_further = _collect_from_leaves(c, backtrack)
-            result.extend(leaves)
+    :param dictation: Dictation expansion
+    :returns: set
+    """
+    result = set()
+    child = dictation
+    while child.parent:
+        parent = child.parent
+        if isinstance(parent, Sequence):
+            # Get the index of child in parent.children using 'is'.
+            j = [c is child for c in parent.children].index(True)
+
+            # Collect from the siblings after child until something is required.
+            for c in parent.children[j + 1:]:
+                first, empty = _collect_first(c, dictation)
+                result.update(first)
+                if not empty:
+                    return result
 
-            # Stop if a required literal has been collected.
-            if not look_further:
-                break
+        elif isinstance(parent, Repeat):
+            # The next repetition could be next.
+            result.update(_collect_first(parent, dictation)[0])
 
-    elif isinstance(p2, Repeat):
-        # If we get to a repeat, it means that there were no required literals below
-        # it *after* the dictation expansion. Backtrack to search before it instead.
-        next_stack_result = _collect_next_literals(stack, i - 1, look_further, True)
-        result.extend(next_stack_result[0])
-        look_further = look_further or next_stack_result[1]
-
-    elif isinstance(p2, AlternativeSet) and backtrack:
-        # Handle backtracking through repeating alternatives. Non-repeating
-        # alternative sets in the stack won't have next literals.
-        for c in p2.children:
-            # Collect the next literals from each alternative; any of them could be
-            # matched after dictation.
-            leaves, look_further = _collect_from_leaves(c, backtrack)
-            result.extend(leaves)
-
-    # Go to the next logical stack frame.
-    if backtrack:
-        next_stack_result = _collect_next_literals(stack, i - 1, look_further,
-                                                   backtrack)
-    else:
-        next_stack_result = _collect_next_literals(stack, i + 1, look_further,
-                                                   backtrack)
+        child = parent
 
-    result.extend(next_stack_result[0])
-    look_further = look_further or next_stack_result[1]
-    return result, look_further
+    return result
 
 
 class Dictation(Literal):
@@ -212,22 +201,8 @@ class Dictation(Literal):
             # Set the element's attributes and return it.
             return self._set_matcher_element_attributes(result)
 
-        # Otherwise build a list of next possible literals. Make the required stack
-        # of child-parent pairs.
-        stack = []
-        p1, p2 = self, self.parent
-        while p1 and p2:
-            stack.append((p1, p2))
-
-            # Move both pivots further up the tree.
-            p1 = p1.parent
-            p2 = p2.parent
-
-        # Build a list of next literals using the stack.
-        next_literals, _ = _collect_next_literals(stack, 0, True, False)
-
-        # De-duplicate the list.
-        next_literals = set(next_literals)
+        # Otherwise collect the next possible literals.
+        next_literals = _collect_next_literals(self)
 
         word = pyparsing.Regex(_word_regex_str, re.UNICODE)
         if next_literals:
-- 
2.43.0


From 4d2292e48bbe86927747ee2647a7c2d8a41eec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 51/73] fix: dictation in joint trees used the next literals of
 the separate tree

Matchers made before joining or detaching trees were used afterwards.
---
 jsgf/expansions.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 7153b07..b94642d 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -220,7 +220,7 @@ class JointTreeContext(object):
         if isinstance(x, NamedRuleRef):
             # Set the parent of the referenced rule's root expansion to this
             # expansion.
-            x.referenced_rule.expansion.parent = x
+            JointTreeContext._set_parent(x.referenced_rule.expansion, x)
 
     @staticmethod
     def detach_tree(x):
@@ -232,7 +232,14 @@ class JointTreeContext(object):
         """
         if isinstance(x, NamedRuleRef):
             # Reset parent
-            x.referenced_rule.expansion.parent = None
+            JointTreeContext._set_parent(x.referenced_rule.expansion, None)
+
+    @staticmethod
+    def _set_parent(e, parent):
+        # The matchers of leaves, such as Dictation, can depend on the ancestors.
+        for leaf in filter_expansion(e, lambda x: not x.children, shallow=True):
+            leaf.invalidate_matcher()
+        e.parent = parent
 
     def __enter__(self):
         # Find every reference before joining any trees, so that none are left joined
-- 
2.43.0


From dc2a2c777033c0e6521ededf03ce21f8ba05d4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 52/73] fix: copies of case-sensitive dictation were not equal
 to the original

---
 jsgf/ext/expansions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 7e0d29a..d57aad8 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -141,6 +141,7 @@ class Dictation(Literal):
     def __copy__(self):
         e = type(self)()
         e.tag = self.tag
+        e.case_sensitive = self.case_sensitive
         return e
 
     def __deepcopy__(self, memo=None):
-- 
2.43.0


From 3da53dbfa6d74ddded30f4c92c3c09192cee05b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 53/73] fix: do not take apart the expansions of rules
 referenced in sequences

---
 jsgf/ext/expansions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index d57aad8..e3f1748 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -531,7 +531,9 @@ def calculate_expansion_sequence(expansion, should_deepcopy=True):
         elif len(e.children) == 0:
             if (isinstance(e, NamedRuleRef) and
                     dictation_in_expansion(e.referenced_rule.expansion)):
-                result.extend(calculate_sequence(e.referenced_rule.expansion))
+                # Use a copy because the expansion of the referenced rule must not be
+                # taken apart.
+                result.extend(calculate_sequence(e.referenced_rule.expansion.copy()))
             else:
                 result.append(e)
         else:
-- 
2.43.0


From b170f4d981b373b99aa3473ee788371f6b1d7fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:03 +0000
Subject: [PATCH 54/73] fix: keep the surroundings of references to rules with
 dictation when expanding

---
 jsgf/ext/expansions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index e3f1748..372f957 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -330,7 +330,9 @@ def expand_dictation_expansion(expansion):
         :returns: Expansion | None
         """
         if isinstance(e, NamedRuleRef):
-            return first_unprocessed_expansion(e.referenced_rule.expansion)
+            # A reference requires processing if its rule's expansion does.
+            if first_unprocessed_expansion(e.referenced_rule.expansion):
+                return e
         else:
             # Traverse in post order, i.e. children first, then e.
             for child in e.children:
@@ -445,6 +447,9 @@ def expand_dictation_expansion(expansion):
                 replacements = [current.child.copy()]
             else:
                 replacements = [Repeat(current.child.copy())]
+        elif isinstance(current, NamedRuleRef):
+            # Replace a reference with a copy of the expansion to be processed.
+            replacements = [current.referenced_rule.expansion.copy()]
         else:
             replacements = []
 
-- 
2.43.0


From 83fe089bf10f7431152c16a6f0db153b5440f389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:09 +0000
Subject: [PATCH 55/73] fix: graft dictation matches onto expansions of
 referenced rules

---
 jsgf/ext/rules.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsgf/ext/rules.py b/jsgf/ext/rules.py
index d768af3..f589a62 100644
--- a/jsgf/ext/rules.py
+++ b/jsgf/ext/rules.py
@@ -271,6 +271,10 @@ class SequenceRule(Rule):
             e2.use_current_match = True
             e2.current_match = e1.current_match
 
+            # Make the parser element now. The current_match values of a referenced
+            # rule are cleared before its parser elements would be made otherwise.
+            e2._matcher_element = e2._make_matcher_element()
+
         # Then collect expansions with current_match set.
         matching = []
         for e in sequence_rule._sequence:
-- 
2.43.0


From bffd23b1d6063ad9af72aa40d9d309f429b68764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 56/73] fix: let expansions match other dictation after
 grafting sequence matches

---
 jsgf/ext/rules.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsgf/ext/rules.py b/jsgf/ext/rules.py
index f589a62..c5e8c87 100644
--- a/jsgf/ext/rules.py
+++ b/jsgf/ext/rules.py
@@ -287,6 +287,10 @@ class SequenceRule(Rule):
         # Now match on expansion using the matches for the sequence.
         expansion.matches(" ".join([e.current_match for e in matching]))
 
+        # Let the given expansion match other dictation again.
+        for e in dictation_in_exp:
+            e.use_current_match = False
+
 
 class PublicSequenceRule(SequenceRule):
     """
-- 
2.43.0


From f2aac5dd806fc6b2d4fac2076e7c6e7389270791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:14 +0000
Subject: [PATCH 57/73] fix: find the weights of alternatives whose hashes have
 changed

---
 jsgf/expansions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index b94642d..7b5d93e 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -2018,7 +2018,10 @@ class AlternativeSet(VariableChildExpansion):
         for e, w in self._weights.items():
             if e is child:
                 return w
-        return self._weights.get(child, default)
+        for e, w in self._weights.items():
+            if e == child:
+                return w
+        return default
 
     def _validate_weights(self):
         # Check that all alternatives have a weight. The rule for weights is
-- 
2.43.0


From cd0d3899e1db324d4b242a30c560f0e5b4b2da99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 58/73] fix: do not turn only alternatives with a weight of 0
 into nothing when expanding

---
 jsgf/ext/expansions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 372f957..e9748c8 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -424,9 +424,12 @@ def expand_dictation_expansion(expansion):
             # Traverse up the parent tree and remove copy_x or one of its ancestors
             # where there is another child
             while ancestor:
-                if len(ancestor.children) > 1:
+                if (len(ancestor.children) > 1 or
+                        isinstance(ancestor, AlternativeSet) and
+                        ancestor._get_weight(copy_x) == 0):
                     # An alternative can still be chosen without its optional
-                    # contents, so do not remove it.
+                    # contents, so do not remove it. Neither remove an only
+                    # alternative that is never matched.
                     if isinstance(ancestor, AlternativeSet):
                         replace_child(ancestor, copy_x, NullRef())
                     else:
-- 
2.43.0


From e22cdacad6c6f53f88100886d0ba51e0b52f23e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 59/73] fix: next literals of dictation before alternatives
 with VOID

---
 jsgf/ext/expansions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index e9748c8..9a21106 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -49,9 +49,10 @@ def _collect_first(e, dictation):
             result.add((words[0], e.case_sensitive))
         return result, not words
 
+    if isinstance(e, (NullRef, VoidRef)):
+        return result, isinstance(e, NullRef)
+
     if isinstance(e, NamedRuleRef):
-        if isinstance(e, (NullRef, VoidRef)):
-            return result, isinstance(e, NullRef)
         return _collect_first(e.referenced_rule.expansion, dictation)
 
     if isinstance(e, AlternativeSet):
-- 
2.43.0


From 12249b4aec1c88e68d2f8793de151621023c90a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 60/73] fix: matching repetitions in joint trees through
 references

---
 jsgf/expansions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 7b5d93e..1fbc022 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1783,7 +1783,8 @@ class Repeat(SingleChildExpansion):
 
         c = rep.child
         while c is not self:
-            if len(c.children) > 1:
+            # References have no children, even if their trees are joined.
+            if len(c.children) != 1:
                 return False
             c = c.children[0]
         return True
-- 
2.43.0


From 5633ff8beb386abd7f63c9bc79e4fa6708296f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 61/73] fix: discard calculations stored for joined trees when
 they are detached

---
 jsgf/expansions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 1fbc022..3546fb0 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -253,6 +253,10 @@ class JointTreeContext(object):
     def __exit__(self, exc_type, exc_val, exc_tb):
         map_expansion(self._root, self.detach_tree, TraversalOrder.PostOrder)
 
+        # Discard the calculations stored for the joined trees because they cannot be
+        # invalidated using the detached trees.
+        self._root.root_expansion._lookup_dict = None
+
 
 @functools.total_ordering
 class ChildList(object):
-- 
2.43.0


From 6bb2c87a9ce212d5f4457473330a9c3ca45aeb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:12 +0000
Subject: [PATCH 62/73] fix: find the original rules of rules whose hashes have
 changed

---
 jsgf/ext/grammars.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index 3e634be..3e6bc0e 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -23,7 +23,10 @@ class DictationGrammar(Grammar):
         """
         super(DictationGrammar, self).__init__(name, case_sensitive=case_sensitive)
         self._dictation_rules = []
-        self._original_rule_map = {}
+
+        # List of (rule, original rule) tuples. This is not a dictionary because the
+        # hashes of rules can change.
+        self._original_rules = []
         self._init_jsgf_only_grammar()
 
         if rules:
@@ -50,7 +53,7 @@ class DictationGrammar(Grammar):
         """
         return list(set(
                 self._dictation_rules + self._jsgf_only_grammar.rules +
-                list(self._original_rule_map.values())
+                [original for _, original in self._original_rules]
         ))
 
     @property
@@ -85,7 +88,7 @@ class DictationGrammar(Grammar):
         # the original rule map.
         if not dictation_in_expansion(rule.expansion):
             self._jsgf_only_grammar.add_rule(rule)
-            self._original_rule_map[rule] = rule
+            self._original_rules.append((rule, rule))
             return
 
         # Check if the rule is a SequenceRule already and do a few things with it.
@@ -96,7 +99,7 @@ class DictationGrammar(Grammar):
                 self._jsgf_only_grammar.add_rule(rule)
             else:
                 self._dictation_rules.append(rule)
-            self._original_rule_map[rule] = rule
+            self._original_rules.append((rule, rule))
             return
 
         # Expand the rule's expansion into a list of 1 or more expansions.
@@ -118,10 +121,10 @@ class DictationGrammar(Grammar):
 
                 # Keep track of the relationship between the original rule and its
                 # expanded rules
-                self._original_rule_map[r] = rule
+                self._original_rules.append((r, rule))
             else:
                 seq_rule = SequenceRule(new_name, rule.visible, x)
-                self._original_rule_map[seq_rule] = rule
+                self._original_rules.append((seq_rule, rule))
 
                 if not seq_rule.current_is_dictation_only:
                     # The sequence starts with a JSGF only rule and can be
@@ -137,7 +140,15 @@ class DictationGrammar(Grammar):
         :param rule: Rule
         :returns: Rule
         """
-        return self._original_rule_map[rule]
+        for k, v in self._original_rules:
+            if k is rule:
+                return v
+
+        # Use the first comparable rule, if there is one.
+        for k, v in self._original_rules:
+            if k == rule:
+                return v
+        raise KeyError(rule)
 
     def get_generated_rules(self, rule):
         """
@@ -146,7 +157,7 @@ class DictationGrammar(Grammar):
         :param rule: Rule
         :returns: generator
         """
-        for k, v in list(self._original_rule_map.items()):
+        for k, v in list(self._original_rules):
             if v is rule:
                 yield k
 
@@ -158,7 +169,7 @@ class DictationGrammar(Grammar):
         else:
             rule_name = rule.name
 
-        for k, v in list(self._original_rule_map.items()):
+        for k, v in list(self._original_rules):
             if v.name == rule_name:
                 if k in self._dictation_rules:
                     self._dictation_rules.remove(k)
@@ -167,7 +178,8 @@ class DictationGrammar(Grammar):
                 elif k in self._jsgf_only_grammar.rules:
                     self._jsgf_only_grammar.remove_rule(k, ignore_dependent)
 
-                self._original_rule_map.pop(k)
+                self._original_rules = [x for x in self._original_rules
+                                        if x[0] is not k]
 
     def _compile(self, compile_as_root_grammar):
         """
-- 
2.43.0


From 3ac2362022e3925da9c9452fb6b330a297fb6043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 63/73] fix: case sensitivity of sequence rules and of rules in
 dictation grammars

---
 jsgf/ext/grammars.py | 23 +++++++++++++++++++++--
 jsgf/ext/rules.py    |  9 +++++++++
 jsgf/rules.py        |  8 +++++++-
 3 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index 3e6bc0e..436fade 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -42,6 +42,21 @@ class DictationGrammar(Grammar):
         self._jsgf_only_grammar = Grammar(name=self.name,
                                           case_sensitive=self.case_sensitive)
 
+    @property
+    def case_sensitive(self):
+        return self._case_sensitive
+
+    @case_sensitive.setter
+    def case_sensitive(self, value):
+        value = bool(value)
+        self._case_sensitive = value
+
+        # Set the value for the grammar used for JSGF only rules too because it
+        # overrides the values of rules moved there.
+        self._jsgf_only_grammar.case_sensitive = value
+        for rule in self.rules:
+            rule.case_sensitive = value
+
     @property
     def rules(self):
         """
@@ -84,6 +99,9 @@ class DictationGrammar(Grammar):
                 raise GrammarError("JSGF grammars cannot have multiple rules with "
                                    "the same name")
 
+        # Set case sensitivity. Generated rules have the same value.
+        rule.case_sensitive = self.case_sensitive
+
         # If the rule is not a dictation rule, add it to the JSGF only grammar and
         # the original rule map.
         if not dictation_in_expansion(rule.expansion):
@@ -114,7 +132,7 @@ class DictationGrammar(Grammar):
             else:
                 new_name = "%s_%d" % (rule.name, i)
             if not dictation_in_expansion(x):
-                r = Rule(new_name, rule.visible, x)
+                r = Rule(new_name, rule.visible, x, rule.case_sensitive)
 
                 # Add this rule to the JSGF only grammar
                 self._jsgf_only_grammar.add_rule(r)
@@ -123,7 +141,8 @@ class DictationGrammar(Grammar):
                 # expanded rules
                 self._original_rules.append((r, rule))
             else:
-                seq_rule = SequenceRule(new_name, rule.visible, x)
+                seq_rule = SequenceRule(new_name, rule.visible, x,
+                                        rule.case_sensitive)
                 self._original_rules.append((seq_rule, rule))
 
                 if not seq_rule.current_is_dictation_only:
diff --git a/jsgf/ext/rules.py b/jsgf/ext/rules.py
index c5e8c87..30df031 100644
--- a/jsgf/ext/rules.py
+++ b/jsgf/ext/rules.py
@@ -16,6 +16,8 @@ class SequenceRule(Rule):
     that must be spoken in a sequence.
     """
     def __init__(self, name, visible, expansion, case_sensitive=False):
+        self._original_expansion = None
+        self._sequence = ()
         super(SequenceRule, self).__init__(name, visible, expansion, case_sensitive)
 
         # Keep the original expansion and use a copy of it for the sequence
@@ -64,6 +66,13 @@ class SequenceRule(Rule):
         return hash("%s%s%s" % (hash(self.name), hash(self.visible),
                                 hash(self.original_expansion)))
 
+    def _get_case_sensitive_expansions(self):
+        # Include the original expansion and every expansion in the sequence.
+        result = [self._expansion]
+        if self._original_expansion:
+            result.append(self._original_expansion)
+        return result + list(self._sequence)
+
     @property
     def expansion_sequence(self):
         """
diff --git a/jsgf/rules.py b/jsgf/rules.py
index fb4b897..7a7683c 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -195,7 +195,13 @@ class Rule(references.BaseRef):
 
         # Recursively operate on the rule expansion tree. Do *not* operate on
         # referenced rules directly.
-        map_expansion(self.expansion, func, shallow=True)
+        for expansion in self._get_case_sensitive_expansions():
+            map_expansion(expansion, func, shallow=True)
+
+    def _get_case_sensitive_expansions(self):
+        # Internal method to get the expansions that the case_sensitive property
+        # applies to.
+        return [self._expansion]
 
     def enable(self):
         """
-- 
2.43.0


From 880ad53e437e572701da3db89055ce402ee1203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:21 +0000
Subject: [PATCH 64/73] fix: enabling and disabling rules of dictation grammars

---
 jsgf/ext/grammars.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index 436fade..01635dd 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -180,6 +180,27 @@ class DictationGrammar(Grammar):
             if v is rule:
                 yield k
 
+    def _get_rules_by_name(self, rule):
+        # Get rules with the given rule's name as well as rules generated from them.
+        name = rule if isinstance(rule, string_types) else rule.name
+        result = []
+        for k, v in self._original_rules:
+            if v.name == name:
+                result.extend([k, v])
+            elif k.name == name:
+                result.append(k)
+        return result
+
+    def enable_rule(self, rule):
+        super(DictationGrammar, self).enable_rule(rule)
+        for r in self._get_rules_by_name(rule):
+            r.enable()
+
+    def disable_rule(self, rule):
+        super(DictationGrammar, self).disable_rule(rule)
+        for r in self._get_rules_by_name(rule):
+            r.disable()
+
     def remove_rule(self, rule, ignore_dependent=False):
         # Find the rules generated from this rule and remove them wherever they are
         # as well as the original rule
-- 
2.43.0


From d5ae042b00eb36e9a45bcb41107624fec2025c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:52 +0000
Subject: [PATCH 65/73] fix: compile dictation grammars with their names,
 header values and imports

---
 jsgf/ext/grammars.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index 01635dd..aea7d29 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -29,6 +29,10 @@ class DictationGrammar(Grammar):
         self._original_rules = []
         self._init_jsgf_only_grammar()
 
+        # Share import statements and imported rules with the internal grammar.
+        self._jsgf_only_grammar._imports = self._imports
+        self._jsgf_only_grammar._import_env = self._import_env
+
         if rules:
             self.add_rules(*rules)
 
@@ -230,6 +234,13 @@ class DictationGrammar(Grammar):
         """
         self.rearrange_rules()
 
+        # Use this grammar's name and header values.
+        grammar = self._jsgf_only_grammar
+        grammar.name = self.name
+        grammar.jsgf_version = self.jsgf_version
+        grammar.charset_name = self.charset_name
+        grammar.language_name = self.language_name
+
         try:
             # Compile the grammar
             if compile_as_root_grammar:
-- 
2.43.0


From 8fb61a5b046e692380f300fb1edd5712a94d5beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:19 +0000
Subject: [PATCH 66/73] fix: reset the sequence rules of dictation grammars
 which are not visible

---
 jsgf/ext/grammars.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index aea7d29..7714639 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -292,7 +292,8 @@ class DictationGrammar(Grammar):
         Reset each ``SequenceRule`` in this grammar so that they can accept matches
         again.
         """
-        for r in self._jsgf_only_grammar.match_rules + self._dictation_rules:
+        # Include rules which are not visible.
+        for r in self._jsgf_only_grammar.rules + self._dictation_rules:
             if isinstance(r, SequenceRule):
                 r.restart_sequence()
 
-- 
2.43.0


From 9ea9c294e3f89883de727232360dab420aac5c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:25 +0000
Subject: [PATCH 67/73] fix: references to rules by object kept the old name of
 a renamed rule

Compiled text referenced a rule that does not exist, and copies of such a
reference were not equal to it.
---
 jsgf/expansions.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 3546fb0..05806ca 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1593,6 +1593,24 @@ class RuleRef(NamedRuleRef):
         super(RuleRef, self).__init__(referenced_rule.name)
         self._referenced_rule = referenced_rule
 
+        # Use the name of the rule, which can be changed, unless another name is set.
+        self._name = None
+
+    @property
+    def name(self):
+        """
+        The name of the referenced rule, unless another name was set.
+
+        :returns: str
+        """
+        if self._name is None:
+            return self.referenced_rule.name
+        return self._name
+
+    @name.setter
+    def name(self, value):
+        references.BaseRef.name.fset(self, value)
+
     @property
     def referenced_rule(self):
         return self._referenced_rule
@@ -1603,6 +1621,7 @@ class RuleRef(NamedRuleRef):
 
     def __copy__(self):
         e = type(self)(self.referenced_rule)
+        e._name = self._name
         e.tag = self.tag
         return e
 
-- 
2.43.0


From 3a91e69a233d006bb7404b0d95c9b1be022b60c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:53 +0000
Subject: [PATCH 68/73] fix: alternatives accepted weights that are not numbers

NaN and infinite weights compile to text that cannot be parsed.
---
 jsgf/expansions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 05806ca..7ba604a 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1976,6 +1976,8 @@ class AlternativeSet(VariableChildExpansion):
         weight = float(weight)
         if weight < 0:
             raise TypeError("weight value '%s' is a negative number" % weight)
+        if math.isnan(weight) or math.isinf(weight):
+            raise TypeError("weight value '%s' is not a finite number" % weight)
 
         # Use the alternative as the key for _weights.
         if isinstance(child, integer_types):
-- 
2.43.0


From 361062d616cf64053bb721f0227b5a8759a4a92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:48 +0000
Subject: [PATCH 69/73] fix: child lists could not be added to each other

---
 jsgf/expansions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 7ba604a..460615e 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -297,6 +297,9 @@ class ChildList(object):
         return not(self._list)
 
     def __add__(self, other):
+        # Child lists are not lists, so they cannot be added to one.
+        if isinstance(other, ChildList):
+            other = other._list
         return self._list + other
 
     def __iadd__(self, other):
-- 
2.43.0


From 3be58f13655713d2a008339efee7c024f806fdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:54 +0000
Subject: [PATCH 70/73] fix: comparing rules and grammars with other objects
 raised AttributeError

---
 jsgf/grammars.py | 3 ++-
 jsgf/rules.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index ce31424..f5a2c97 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -444,7 +444,8 @@ class Grammar(references.BaseRef):
         return self.__str__()
 
     def __eq__(self, other):
-        return (self.name == other.name and self.jsgf_header == other.jsgf_header
+        return (isinstance(other, Grammar)
+                and self.name == other.name and self.jsgf_header == other.jsgf_header
                 and self.rules == other.rules and self.imports == other.imports
                 and self.case_sensitive == other.case_sensitive)
 
diff --git a/jsgf/rules.py b/jsgf/rules.py
index 7a7683c..c210bfd 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -421,7 +421,8 @@ class Rule(references.BaseRef):
         return len(self.dependent_rules)
 
     def __eq__(self, other):
-        return (self.name == other.name and
+        return (isinstance(other, Rule) and
+                self.name == other.name and
                 self.expansion == other.expansion and
                 self.visible == other.visible and
                 self.case_sensitive == other.case_sensitive)
-- 
2.43.0


From 2818ec2cd292d98d44a88fdf9ebee424f60534ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:04 +0000
Subject: [PATCH 71/73] fix: the rules of dictation grammars were listed in the
 random order of a set

Looking up a name shared by a rule and the rule generated from it found one
or the other.
---
 jsgf/ext/grammars.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index 7714639..705bd8b 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -70,10 +70,15 @@ class DictationGrammar(Grammar):
 
         :returns: list
         """
-        return list(set(
-                self._dictation_rules + self._jsgf_only_grammar.rules +
-                [original for _, original in self._original_rules]
-        ))
+        # Use the order in which rules were added, rather than the order of a set.
+        # That can be different each time a program is run.
+        result, seen = [], set()
+        for pair in self._original_rules:
+            for rule in pair:
+                if rule not in seen:
+                    seen.add(rule)
+                    result.append(rule)
+        return result
 
     @property
     def match_rules(self):
-- 
2.43.0


From 371bfad2e09737efc2595a682f157416590ef64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:07 +0000
Subject: [PATCH 72/73] fix: dictation grammars ignored the removal of unknown
 rules

Grammar.remove_rule raises GrammarError, as documented.
---
 jsgf/ext/grammars.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index 705bd8b..15e70a1 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -218,6 +218,10 @@ class DictationGrammar(Grammar):
         else:
             rule_name = rule.name
 
+        if not any(v.name == rule_name for _, v in self._original_rules):
+            raise GrammarError("'%s' is not a rule added to Grammar '%s'"
+                               % (rule, self))
+
         for k, v in list(self._original_rules):
             if v.name == rule_name:
                 if k in self._dictation_rules:
-- 
2.43.0


From 8b5f53bf549c306f2c46b36ca57cd2430cae1c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:33 +0000
Subject: [PATCH 73/73] fix: deep copies of rules and grammars could not
 resolve their references

---
 jsgf/rules.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index c210bfd..30ffe73 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -5,10 +5,12 @@ This module contains classes for compiling and matching JSpeech Grammar Format
 rules.
 """
 
+from copy import deepcopy
+
 from .errors import GrammarError, JSGFImportError
 from . import references
 from .expansions import Expansion, Literal, NamedRuleRef, filter_expansion, \
-    map_expansion, TraversalOrder
+    flat_map_expansion, map_expansion, TraversalOrder
 
 
 class Rule(references.BaseRef):
@@ -420,6 +422,22 @@ class Rule(references.BaseRef):
         """
         return len(self.dependent_rules)
 
+    def __deepcopy__(self, memo):
+        result = type(self).__new__(type(self))
+        memo[id(self)] = result
+        for key, value in self.__dict__.items():
+            result.__dict__[key] = deepcopy(value, memo)
+
+        # Copies of expansions do not belong to any rule, so make those of this
+        # rule's expansions belong to the copy.
+        for expansion in self._get_case_sensitive_expansions():
+            for x, y in zip(flat_map_expansion(expansion, shallow=True),
+                            flat_map_expansion(deepcopy(expansion, memo),
+                                               shallow=True)):
+                if x.rule is self:
+                    y.rule = result
+        return result
+
     def __eq__(self, other):
         return (isinstance(other, Rule) and
                 self.name == other.name and
-- 
2.43.0

