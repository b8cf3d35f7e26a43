From 7e96d44de2289e85882cb1e18cca72adca8b3bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:30 +0000
Subject: [PATCH 01/33] fix: SimpleCache.Clear no longer replaces the sync.Map
 under concurrent users

---
 cache.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cache.go b/cache.go
index 5c9f60c..d0b201f 100644
--- a/cache.go
+++ b/cache.go
@@ -7,7 +7,6 @@ import (
 // SimpleCache is a simple in-memory cache that uses a sync.Map to store key-value pairs.
 // It is safe for concurrent use, but it is grow-only.
 type SimpleCache struct {
-	mu    sync.Mutex
 	items sync.Map
 }
 
@@ -31,7 +30,8 @@ func (c *SimpleCache) Set(key string, data string) {
 
 // Clear removes all items from the cache.
 func (c *SimpleCache) Clear() {
-	c.mu.Lock()
-	defer c.mu.Unlock()
-	c.items = sync.Map{}
+	c.items.Range(func(key, _ any) bool {
+		c.items.Delete(key)
+		return true
+	})
 }
-- 
2.43.0


From a491c969d21aed629c86275fbb1f13b9b61608d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:31 +0000
Subject: [PATCH 02/33] fix: Merge reads the rules and fills the cache under a
 read lock

---
 merge.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index 8cd99b9..4db2c35 100644
--- a/merge.go
+++ b/merge.go
@@ -23,7 +23,7 @@ type Cache interface {
 
 // Merger is a struct that resolves conflicting css rules.
 type Merger struct {
-	mu         sync.Mutex // mutex is only used when adding rules
+	mu         sync.RWMutex // guards rules; also keeps results of old rules out of a cleared cache
 	rules      map[string]cascadia.CssRule
 	cache      Cache
 	properties map[string]props.Property
@@ -206,6 +206,11 @@ func (r *Merger) Merge(inClass string) string {
 			return val
 		}
 	}
+
+	// held until the result is in the cache, so that AddRules cannot clear the cache in between
+	r.mu.RLock()
+	defer r.mu.RUnlock()
+
 	split := strings.Split(strings.TrimSpace(inClass), " ")
 	if len(split) < 2 {
 		return inClass
-- 
2.43.0


From 6ba38808df2bee4e6ea3b13c52f1888f9534d82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 03/33] fix: an at-rule without a prelude no longer panics

---
 internal/cascadia/rules.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 09c55d2..8bf601b 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -83,9 +83,6 @@ func parseAtRuleName(data []byte, values []css.Token) (string, string) {
 	if string(data) != "@media" && string(data) != "@supports" {
 		return "", ""
 	}
-	if len(values) == 0 {
-		panic("no values")
-	}
 	ruleBuilder := strings.Builder{}
 	for _, val := range values {
 		ruleBuilder.Write(val.Data)
-- 
2.43.0


From 1e30b0800812e0080040420860423e630e80d811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 04/33] fix: unclosed skipped blocks end with the input,
 skipped rules yield no rule

---
 internal/cascadia/rules.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 8bf601b..220b011 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -134,14 +134,17 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 	ruleSetErr := false
 	for {
 		gt, _, data := p.Next()
-		if ignore && gt != css.EndAtRuleGrammar {
+		// the end of the input ends skipped blocks too, even when they are not closed properly
+		eof := gt == css.ErrorGrammar && !p.HasParseError()
+		if ignore && gt != css.EndAtRuleGrammar && !eof {
 			continue
 		}
 
-		if ruleSetErr && gt != css.EndRulesetGrammar {
-			continue
-		} else if ruleSetErr && gt == css.EndRulesetGrammar {
+		if ruleSetErr && gt == css.EndRulesetGrammar {
 			ruleSetErr = false
+			continue
+		} else if ruleSetErr && !eof {
+			continue
 		}
 
 		switch gt {
-- 
2.43.0


From dfdc6ccfeb542e5d4844472c3bfec8a5fb2e8cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:33 +0000
Subject: [PATCH 05/33] fix: rules in nested at-rules carry the conditions of
 all enclosing at-rules

---
 internal/cascadia/rules.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 220b011..d6374be 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -129,14 +129,19 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 	rules := make([]CssRule, 0)
 	var err error
 	var currentRule CssRule
-	var atRuleCondition string
-	ignore := false
+	var atRuleConditions []string // conditions of the open at-rules, outermost first
+	ignore := 0                   // depth of the ignored at-rule and the at-rules inside it
 	ruleSetErr := false
 	for {
 		gt, _, data := p.Next()
 		// the end of the input ends skipped blocks too, even when they are not closed properly
 		eof := gt == css.ErrorGrammar && !p.HasParseError()
-		if ignore && gt != css.EndAtRuleGrammar && !eof {
+		if ignore > 0 && !eof {
+			if gt == css.BeginAtRuleGrammar {
+				ignore++
+			} else if gt == css.EndAtRuleGrammar {
+				ignore--
+			}
 			continue
 		}
 
@@ -160,17 +165,17 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 		case css.BeginAtRuleGrammar:
 			name, condition := parseAtRuleName(data, p.Values())
 			if name == "" {
-				atRuleCondition = ""
-				ignore = true
+				ignore++
 				continue
 			}
-			atRuleCondition = condition
+			atRuleConditions = append(atRuleConditions, condition)
 		case css.EndAtRuleGrammar:
-			atRuleCondition = ""
-			ignore = false
+			if n := len(atRuleConditions); n > 0 {
+				atRuleConditions = atRuleConditions[:n-1]
+			}
 		case css.BeginRulesetGrammar:
 			currentRule = CssRule{}
-			currentRule.condition = atRuleCondition
+			currentRule.condition = strings.Join(atRuleConditions, "{")
 			sel, err := getSelector(data, p.Values())
 			if err != nil {
 				log.Println("error parsing rule:", err) // TODO: LOG this better
-- 
2.43.0


From 2e0a765d1727563bbd62b1612507850f5a5e0217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:34 +0000
Subject: [PATCH 06/33] fix: @supports and @media conditions with the same text
 are different conditions

---
 internal/cascadia/rules.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index d6374be..fbc0fe8 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -168,6 +168,10 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 				ignore++
 				continue
 			}
+			if name != "@media" {
+				// conditions without a name are media queries
+				condition = name + " " + condition
+			}
 			atRuleConditions = append(atRuleConditions, condition)
 		case css.EndAtRuleGrammar:
 			if n := len(atRuleConditions); n > 0 {
-- 
2.43.0


From 72a1603d86b971e85062581336f138181938ede5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:35 +0000
Subject: [PATCH 07/33] fix: every selector of a comma-separated list yields a
 rule

---
 internal/cascadia/rules.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index fbc0fe8..c1bc2c9 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -67,13 +67,15 @@ type CssDeclaration struct {
 	Value    string // Value is the value for the declaration (e.g., "red")
 }
 
-// getSelector parses the selector from the tokens
-func getSelector(data []byte, tokens []css.Token) (Sel, error) {
+// getSelectors parses the selectors from the tokens. preceding is the text of the
+// selector list up to the tokens, because the CSS parser splits it at each comma.
+func getSelectors(preceding string, tokens []css.Token) (SelectorGroup, error) {
 	fullSelector := strings.Builder{}
+	fullSelector.WriteString(preceding)
 	for _, val := range tokens {
 		fullSelector.Write(val.Data)
 	}
-	casc, err := ParseWithPseudoElement(fullSelector.String())
+	casc, err := ParseGroupWithPseudoElements(fullSelector.String())
 	return casc, err
 }
 
@@ -129,8 +131,10 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 	rules := make([]CssRule, 0)
 	var err error
 	var currentRule CssRule
-	var atRuleConditions []string // conditions of the open at-rules, outermost first
-	ignore := 0                   // depth of the ignored at-rule and the at-rules inside it
+	var selectors SelectorGroup      // the selectors of the current rule
+	var selectorList strings.Builder // the part of a selector list up to the last comma
+	var atRuleConditions []string    // conditions of the open at-rules, outermost first
+	ignore := 0                      // depth of the ignored at-rule and the at-rules inside it
 	ruleSetErr := false
 	for {
 		gt, _, data := p.Next()
@@ -177,22 +181,31 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 			if n := len(atRuleConditions); n > 0 {
 				atRuleConditions = atRuleConditions[:n-1]
 			}
+		case css.QualifiedRuleGrammar:
+			for _, val := range p.Values() {
+				selectorList.Write(val.Data)
+			}
+			selectorList.WriteByte(',')
 		case css.BeginRulesetGrammar:
 			currentRule = CssRule{}
 			currentRule.condition = strings.Join(atRuleConditions, "{")
-			sel, err := getSelector(data, p.Values())
+			sels, err := getSelectors(selectorList.String(), p.Values())
+			selectorList.Reset()
 			if err != nil {
 				log.Println("error parsing rule:", err) // TODO: LOG this better
 				ruleSetErr = true
 				currentRule = CssRule{}
 				continue
 			}
-			currentRule.Selector = sel
+			selectors = sels
 		case css.DeclarationGrammar:
 			declaration := buildDeclaration(p, data)
 			currentRule.Declarations = append(currentRule.Declarations, declaration)
 		case css.EndRulesetGrammar:
-			rules = append(rules, currentRule)
+			for _, sel := range selectors {
+				currentRule.Selector = sel
+				rules = append(rules, currentRule)
+			}
 		case css.CustomPropertyGrammar:
 			declaration := buildDeclaration(p, data)
 			currentRule.Declarations = append(currentRule.Declarations, declaration)
-- 
2.43.0


From 7c40abda5d9761f49d1f81cdf949f9325a5d5a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 08/33] fix: a skipped rule is skipped together with the blocks
 nested in it

---
 internal/cascadia/rules.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index c1bc2c9..bbf5e57 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -135,27 +135,20 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 	var selectorList strings.Builder // the part of a selector list up to the last comma
 	var atRuleConditions []string    // conditions of the open at-rules, outermost first
 	ignore := 0                      // depth of the ignored at-rule and the at-rules inside it
-	ruleSetErr := false
 	for {
 		gt, _, data := p.Next()
 		// the end of the input ends skipped blocks too, even when they are not closed properly
 		eof := gt == css.ErrorGrammar && !p.HasParseError()
 		if ignore > 0 && !eof {
-			if gt == css.BeginAtRuleGrammar {
+			switch gt {
+			case css.BeginAtRuleGrammar, css.BeginRulesetGrammar:
 				ignore++
-			} else if gt == css.EndAtRuleGrammar {
+			case css.EndAtRuleGrammar, css.EndRulesetGrammar:
 				ignore--
 			}
 			continue
 		}
 
-		if ruleSetErr && gt == css.EndRulesetGrammar {
-			ruleSetErr = false
-			continue
-		} else if ruleSetErr && !eof {
-			continue
-		}
-
 		switch gt {
 		case css.ErrorGrammar:
 			err = p.Err()
@@ -193,7 +186,7 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 			selectorList.Reset()
 			if err != nil {
 				log.Println("error parsing rule:", err) // TODO: LOG this better
-				ruleSetErr = true
+				ignore++
 				currentRule = CssRule{}
 				continue
 			}
-- 
2.43.0


From 6b34397b269d4882c851f21707d05c858bfefbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:35 +0000
Subject: [PATCH 09/33] fix: the at-rule condition also applies to compound and
 combined selectors

---
 internal/cascadia/rules.go | 2 +-
 merge.go                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index bbf5e57..fd901f2 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -45,7 +45,7 @@ func (r CssRule) GetSelector() string {
 
 func (r CssRule) GetCondition() string {
 	if t, ok := r.Selector.(CompoundSelector); ok {
-		return t.PseudoElementsString()
+		return r.condition + t.PseudoElementsString()
 	}
 	return r.condition
 }
diff --git a/merge.go b/merge.go
index 4db2c35..9859c7b 100644
--- a/merge.go
+++ b/merge.go
@@ -188,7 +188,7 @@ func propModifier(class string, rule cascadia.CssRule) string {
 	} else {
 		// use the selector with the class name removed to codify what the selector is being applied to
 		s := cascadia.CssUnescape([]byte(rule.Selector.String()))
-		return strings.Replace(s, class, "", 1)
+		return rule.GetCondition() + strings.Replace(s, class, "", 1)
 	}
 }
 
-- 
2.43.0


From 5f5f934d8e8f42c7b578c7bcc58e3a3829cbb41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 10/33] fix: a pseudo-element is part of the circumstance a
 rule applies in

---
 internal/cascadia/selector.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/cascadia/selector.go b/internal/cascadia/selector.go
index 8981252..9359b9b 100644
--- a/internal/cascadia/selector.go
+++ b/internal/cascadia/selector.go
@@ -440,6 +440,9 @@ func (c CompoundSelector) PseudoElementsString() string {
 		strs = append(strs, sel.String())
 	}
 	slices.Sort[[]string](strs)
+	if c.pseudoElement != "" {
+		strs = append(strs, "::"+c.pseudoElement)
+	}
 	return strings.Join(strs, "")
 }
 
-- 
2.43.0


From b5a0b2682bdfb7efdaf684a9e017e7790642f7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:02 +0000
Subject: [PATCH 11/33] fix: the selector context of a class no longer depends
 on where its name occurs in the text

---
 internal/cascadia/serialize.go | 39 ++++++++++++++++++++++++++++++++++
 merge.go                       |  5 ++---
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/internal/cascadia/serialize.go b/internal/cascadia/serialize.go
index 45186fe..00800e1 100644
--- a/internal/cascadia/serialize.go
+++ b/internal/cascadia/serialize.go
@@ -239,3 +239,42 @@ func (c SelectorGroup) String() string {
 	}
 	return strings.Join(ck, ", ")
 }
+
+// ContextString serializes the selector with each occurrence of the class selector
+// for the given class replaced by "&".
+func ContextString(sel Sel, class string) string {
+	switch t := sel.(type) {
+	case ClassSelector:
+		if t.Class == class {
+			return "&"
+		}
+	case IsPseudoClassSelector:
+		return fmt.Sprintf(":is(%s)", contextStrings(t.match, class, ", "))
+	case WherePseudoClassSelector:
+		return fmt.Sprintf(":where(%s)", contextStrings(t.match, class, ", "))
+	case CompoundSelector:
+		if len(t.selectors) == 0 {
+			return t.String()
+		}
+		s := contextStrings(t.selectors, class, "")
+		if t.pseudoElement != "" {
+			s += "::" + t.pseudoElement
+		}
+		return s
+	case CombinedSelector:
+		s := ContextString(t.first, class)
+		if t.second != nil {
+			s += fmt.Sprintf(" %c %s", t.combinator, ContextString(t.second, class))
+		}
+		return s
+	}
+	return sel.String()
+}
+
+func contextStrings(sels []Sel, class string, sep string) string {
+	ck := make([]string, len(sels))
+	for i, s := range sels {
+		ck[i] = ContextString(s, class)
+	}
+	return strings.Join(ck, sep)
+}
diff --git a/merge.go b/merge.go
index 9859c7b..2341e03 100644
--- a/merge.go
+++ b/merge.go
@@ -186,9 +186,8 @@ func propModifier(class string, rule cascadia.CssRule) string {
 		// if the rule has a condition (:hover, :focus, etc.), add the condition to the property name
 		return rule.GetCondition()
 	} else {
-		// use the selector with the class name removed to codify what the selector is being applied to
-		s := cascadia.CssUnescape([]byte(rule.Selector.String()))
-		return rule.GetCondition() + strings.Replace(s, class, "", 1)
+		// use the selector without the class to codify what the selector is being applied to
+		return rule.GetCondition() + cascadia.ContextString(rule.Selector, class)
 	}
 }
 
-- 
2.43.0


From 7ff59df76eb4be8715a830976195e5d1872e9a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:32 +0000
Subject: [PATCH 12/33] fix: :is() and :where() around pseudo-classes are part
 of the circumstance

---
 merge.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/merge.go b/merge.go
index 2341e03..10ad1e0 100644
--- a/merge.go
+++ b/merge.go
@@ -150,12 +150,11 @@ func getCustomVarsInDec(dec cascadia.CssDeclaration) []string {
 // with a class and one or more pseudo element or class.
 // It returns true if the selector is a class with pseudo elements or classes.
 func classWithPseudo(sel cascadia.Sel) bool {
-	_, ok := sel.(cascadia.CompoundSelector)
+	compound, ok := sel.(cascadia.CompoundSelector)
 	if !ok {
 		return false
 	}
-	selectors := walk(sel)
-	for i, s := range selectors {
+	for i, s := range compound.Selectors() {
 		if i == 0 {
 			_, firstIsClass := s.(cascadia.ClassSelector)
 			if !firstIsClass {
-- 
2.43.0


From 4d1d02667db26568831c8529ec9616956fd3ccf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 13/33] fix: the class list is split at any run of ASCII
 whitespace

---
 merge.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index 10ad1e0..d576a6c 100644
--- a/merge.go
+++ b/merge.go
@@ -190,6 +190,15 @@ func propModifier(class string, rule cascadia.CssRule) string {
 	}
 }
 
+// isClassSeparator reports whether r separates the classes of a class list (ASCII whitespace in HTML).
+func isClassSeparator(r rune) bool {
+	switch r {
+	case ' ', '\t', '\n', '\f', '\r':
+		return true
+	}
+	return false
+}
+
 // Merge resolves conflicting css class rules.
 // It takes a string of space-separated class names.
 // Returns a string of space-separated class names with the conflicting classes removed.
@@ -209,7 +218,7 @@ func (r *Merger) Merge(inClass string) string {
 	r.mu.RLock()
 	defer r.mu.RUnlock()
 
-	split := strings.Split(strings.TrimSpace(inClass), " ")
+	split := strings.FieldsFunc(inClass, isClassSeparator)
 	if len(split) < 2 {
 		return inClass
 	}
-- 
2.43.0


From d491ea8c57dc075c2753c67633a8802788b316aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:55 +0000
Subject: [PATCH 14/33] fix: classes sharing a rule are no longer mistaken for
 one another

---
 merge.go | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/merge.go b/merge.go
index d576a6c..41d1633 100644
--- a/merge.go
+++ b/merge.go
@@ -224,13 +224,12 @@ func (r *Merger) Merge(inClass string) string {
 	}
 
 	keepClasses := make([]string, 0, len(split))
-	selectorToClass := make(map[string]string, len(split))
 
 	// propsToClasses is a map of properties that are shared between classes
 	// The property name may have a condition (pseudo or media) appended to it (e.g., "height:hover": ["h-10", "h-20"])
-	propsToSelectors := make(map[string]string, len(split))
-	importantPropsToSelectors := make(map[string]string, len(split))
-	customVarsToSelectors := make(map[string]string, len(split)) // map of custom vars to the class that set them
+	propsToClasses := make(map[string]string, len(split))
+	importantPropsToClasses := make(map[string]string, len(split))
+	customVarsToClasses := make(map[string]string, len(split)) // map of custom vars to the class that set them
 	propsToCustomVars := make(map[string][]string, len(split))   // map of props to the custom vars that it uses
 	for _, class := range split {
 		rule, ok := r.rules[class]
@@ -240,7 +239,6 @@ func (r *Merger) Merge(inClass string) string {
 			continue
 		}
 
-		selectorToClass[rule.Selector.String()] = class
 		propMod := propModifier(class, rule)
 
 		for _, prop := range r.getAffectedProps(rule) {
@@ -258,45 +256,42 @@ func (r *Merger) Merge(inClass string) string {
 
 				// if the property is marked !important, add the class to the importantProps map
 				if importantRegex.MatchString(dec.Value) {
-					importantPropsToSelectors[prop] = rule.Selector.String()
+					importantPropsToClasses[prop] = class
 				}
 			}
 
 			// if it has a custom prop, add it to the customVars map
 			if strings.HasPrefix(prop, "--") {
-				customVarsToSelectors[prop] = rule.Selector.String()
+				customVarsToClasses[prop] = class
 				continue
 			}
 
 			// add all classes to the propsToClasses map
-			propsToSelectors[prop] = rule.Selector.String()
+			propsToClasses[prop] = class
 		}
 	}
 
 	// keep the last class in the list for each property
 	// importantly, this keeps classes that uniquely define a property, even if it has properties that conflict with other classes
-	for _, sel := range propsToSelectors {
-		class := selectorToClass[sel]
+	for _, class := range propsToClasses {
 		keepClasses = append(keepClasses, class)
 	}
 
 	// If a class has an !important property, it is kept unless another class comes later in the class string and it is marked !important on the same property.
-	for _, sel := range importantPropsToSelectors {
+	for _, class := range importantPropsToClasses {
 		// This does not remove the class that the the important class is overriding,
 		// but it shouldn't matter because the important class will override the other,
 		// and the other class may have other properties that are not being overridden
-		class := selectorToClass[sel]
 		keepClasses = append(keepClasses, class)
 	}
 
 	// keep the class that sets the last definition of each custom property if that custom property is actually used
-	for custVar, sel := range customVarsToSelectors {
+	for custVar, class := range customVarsToClasses {
 		for _, vars := range propsToCustomVars {
 			// if the custom property is actually used, keep the class that sets it
 			if !slices.Contains(vars, custVar) {
 				continue
 			}
-			class := selectorToClass[sel]
 			keepClasses = append(keepClasses, class)
 			break
 		}
-- 
2.43.0


From e2d5c297a7544272b14bff360bc220c5954ca156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 15/33] fix: !important and var() count for the declaration
 they are in, not for the whole rule

---
 merge.go | 50 +++++++++++++++++++++++---------------------------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/merge.go b/merge.go
index 41d1633..49837a9 100644
--- a/merge.go
+++ b/merge.go
@@ -112,20 +112,16 @@ func (r *Merger) AddRules(reader io.Reader, inline bool) error {
 	return nil
 }
 
-func (r *Merger) getAffectedProps(rule cascadia.CssRule) []string {
-	affectedProps := make([]string, 0, len(rule.Declarations)*4) // 4 is arbitrary. reducing allocations
-	for _, dec := range rule.Declarations {
-		prop, ok := r.properties[dec.Property]
-		if !ok {
-			// Allowing these through, maybe they shouldn't be but
-			// this allows properties like stroke, fill, etc. to be used
-			// which are not in the mdn official list of props
-			// IMPORTANT: we are relying on this to let custom properties through
-			affectedProps = append(affectedProps, dec.Property)
-		}
-		affectedProps = append(affectedProps, prop.ComputedProps()...)
+func (r *Merger) getAffectedProps(dec cascadia.CssDeclaration) []string {
+	prop, ok := r.properties[dec.Property]
+	if !ok {
+		// Allowing these through, maybe they shouldn't be but
+		// this allows properties like stroke, fill, etc. to be used
+		// which are not in the mdn official list of props
+		// IMPORTANT: we are relying on this to let custom properties through
+		return []string{dec.Property}
 	}
-	return unique(affectedProps)
+	return prop.ComputedProps()
 }
 
 var importantRegex = regexp.MustCompile(`!important`)      // matches !important in a css declaration value
@@ -241,33 +237,33 @@ func (r *Merger) Merge(inClass string) string {
 
 		propMod := propModifier(class, rule)
 
-		for _, prop := range r.getAffectedProps(rule) {
+		for _, dec := range rule.Declarations {
+			customVars := getCustomVarsInDec(dec)
+			important := importantRegex.MatchString(dec.Value)
 
-			prop = prop + propMod
-
-			for _, dec := range rule.Declarations {
+			for _, prop := range r.getAffectedProps(dec) {
+				prop = prop + propMod
 
 				if !strings.HasPrefix(prop, "--") {
 					// if the property has a custom var, add it to the propsToCustomVars map
-					customVars := getCustomVarsInDec(dec)
 					// overwrite the customVars so we prioritize the last class that sets the property
 					propsToCustomVars[prop] = customVars
 				}
 
 				// if the property is marked !important, add the class to the importantProps map
-				if importantRegex.MatchString(dec.Value) {
+				if important {
 					importantPropsToClasses[prop] = class
 				}
-			}
 
-			// if it has a custom prop, add it to the customVars map
-			if strings.HasPrefix(prop, "--") {
-				customVarsToClasses[prop] = class
-				continue
-			}
+				// if it has a custom prop, add it to the customVars map
+				if strings.HasPrefix(prop, "--") {
+					customVarsToClasses[prop] = class
+					continue
+				}
 
-			// add all classes to the propsToClasses map
-			propsToClasses[prop] = class
+				// add all classes to the propsToClasses map
+				propsToClasses[prop] = class
+			}
 		}
 	}
 
-- 
2.43.0


From c9c5d9fd7c0aff02936fac159261d9da3383f54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 16/33] fix: !important is recognised in any case, and not
 inside a string

---
 merge.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/merge.go b/merge.go
index 49837a9..6fb1298 100644
--- a/merge.go
+++ b/merge.go
@@ -124,8 +124,8 @@ func (r *Merger) getAffectedProps(dec cascadia.CssDeclaration) []string {
 	return prop.ComputedProps()
 }
 
-var importantRegex = regexp.MustCompile(`!important`)      // matches !important in a css declaration value
-var customVarRegex = regexp.MustCompile(`var\((--[\w-]+)`) // matches custom variables in a css declaration value
+var importantRegex = regexp.MustCompile(`(?i)!\s*important$`) // matches !important in a css declaration value
+var customVarRegex = regexp.MustCompile(`var\((--[\w-]+)`)    // matches custom variables in a css declaration value
 
 func getCustomVarsInDec(dec cascadia.CssDeclaration) []string {
 	matches := customVarRegex.FindAllStringSubmatch(dec.Value, -1)
@@ -226,7 +226,7 @@ func (r *Merger) Merge(inClass string) string {
 	propsToClasses := make(map[string]string, len(split))
 	importantPropsToClasses := make(map[string]string, len(split))
 	customVarsToClasses := make(map[string]string, len(split)) // map of custom vars to the class that set them
-	propsToCustomVars := make(map[string][]string, len(split))   // map of props to the custom vars that it uses
+	propsToCustomVars := make(map[string][]string, len(split)) // map of props to the custom vars that it uses
 	for _, class := range split {
 		rule, ok := r.rules[class]
 		if !ok {
-- 
2.43.0


From b398ad801ca425655e60d213d1fab77ddc275437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 17/33] fix: custom properties are kept when used under another
 condition, or through custom properties

---
 merge.go | 66 +++++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 44 insertions(+), 22 deletions(-)

diff --git a/merge.go b/merge.go
index 6fb1298..97cb011 100644
--- a/merge.go
+++ b/merge.go
@@ -225,8 +225,9 @@ func (r *Merger) Merge(inClass string) string {
 	// The property name may have a condition (pseudo or media) appended to it (e.g., "height:hover": ["h-10", "h-20"])
 	propsToClasses := make(map[string]string, len(split))
 	importantPropsToClasses := make(map[string]string, len(split))
-	customVarsToClasses := make(map[string]string, len(split)) // map of custom vars to the class that set them
-	propsToCustomVars := make(map[string][]string, len(split)) // map of props to the custom vars that it uses
+	customVarsToClasses := make(map[string]map[string]string, len(split)) // map of custom vars to the classes that set them, by propMod
+	propsToCustomVars := make(map[string][]string, len(split))            // map of props to the custom vars that it uses
+	importantPropsToCustomVars := make(map[string][]string, len(split))   // the same for important props
 	for _, class := range split {
 		rule, ok := r.rules[class]
 		if !ok {
@@ -241,35 +242,45 @@ func (r *Merger) Merge(inClass string) string {
 			customVars := getCustomVarsInDec(dec)
 			important := importantRegex.MatchString(dec.Value)
 
-			for _, prop := range r.getAffectedProps(dec) {
-				prop = prop + propMod
+			for _, name := range r.getAffectedProps(dec) {
+				prop := name + propMod
 
-				if !strings.HasPrefix(prop, "--") {
-					// if the property has a custom var, add it to the propsToCustomVars map
-					// overwrite the customVars so we prioritize the last class that sets the property
-					propsToCustomVars[prop] = customVars
+				// if the property has a custom var, add it to the propsToCustomVars map
+				// overwrite the customVars so we prioritize the last class that sets the property
+				if propsToClasses[prop] != class {
+					propsToCustomVars[prop] = nil
 				}
+				propsToCustomVars[prop] = append(propsToCustomVars[prop], customVars...)
+
+				// add all classes to the propsToClasses map
+				propsToClasses[prop] = class
 
 				// if the property is marked !important, add the class to the importantProps map
 				if important {
+					if importantPropsToClasses[prop] != class {
+						importantPropsToCustomVars[prop] = nil
+					}
+					importantPropsToCustomVars[prop] = append(importantPropsToCustomVars[prop], customVars...)
 					importantPropsToClasses[prop] = class
 				}
 
 				// if it has a custom prop, add it to the customVars map
-				if strings.HasPrefix(prop, "--") {
-					customVarsToClasses[prop] = class
-					continue
+				if strings.HasPrefix(name, "--") {
+					if customVarsToClasses[name] == nil {
+						customVarsToClasses[name] = make(map[string]string, 1)
+					}
+					customVarsToClasses[name][propMod] = class
 				}
-
-				// add all classes to the propsToClasses map
-				propsToClasses[prop] = class
 			}
 		}
 	}
 
 	// keep the last class in the list for each property
 	// importantly, this keeps classes that uniquely define a property, even if it has properties that conflict with other classes
-	for _, class := range propsToClasses {
+	for prop, class := range propsToClasses {
+		if strings.HasPrefix(prop, "--") {
+			continue // custom properties are only kept if they are used, see below
+		}
 		keepClasses = append(keepClasses, class)
 	}
 
@@ -281,16 +292,27 @@ func (r *Merger) Merge(inClass string) string {
 		keepClasses = append(keepClasses, class)
 	}
 
-	// keep the class that sets the last definition of each custom property if that custom property is actually used
-	for custVar, class := range customVarsToClasses {
-		for _, vars := range propsToCustomVars {
-			// if the custom property is actually used, keep the class that sets it
-			if !slices.Contains(vars, custVar) {
-				continue
+	// collect the custom properties that are used by the properties that are kept
+	usedVars := make([]string, 0, len(customVarsToClasses))
+	for _, propVars := range []map[string][]string{propsToCustomVars, importantPropsToCustomVars} {
+		for prop, vars := range propVars {
+			if !strings.HasPrefix(prop, "--") {
+				usedVars = append(usedVars, vars...)
 			}
+		}
+	}
+
+	// keep the class that sets the last definition of each custom property if that custom property is actually used
+	for len(usedVars) > 0 {
+		custVar := usedVars[0]
+		usedVars = usedVars[1:]
+		for propMod, class := range customVarsToClasses[custVar] {
 			keepClasses = append(keepClasses, class)
-			break
+			// the definition may use other custom properties
+			usedVars = append(usedVars, propsToCustomVars[custVar+propMod]...)
+			usedVars = append(usedVars, importantPropsToCustomVars[custVar+propMod]...)
 		}
+		delete(customVarsToClasses, custVar) // each custom property needs to be visited once
 	}
 
 	keepClasses = unique(keepClasses)
-- 
2.43.0


From 4d3beaf8e719b4571c5b3efe98b916f0779c448c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:22 +0000
Subject: [PATCH 18/33] fix: var() with spaces, capitals or escaped and
 non-ASCII names is recognised

---
 internal/cascadia/rules.go | 2 +-
 merge.go                   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index fd901f2..47ef99b 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -212,6 +212,6 @@ func buildDeclaration(p *css.Parser, data []byte) CssDeclaration {
 		vals.Write(val.Data)
 	}
 	s := normalizeWhitespace(vals.String())
-	declaration := CssDeclaration{Property: string(data), Value: CssUnescape([]byte(s))}
+	declaration := CssDeclaration{Property: CssUnescape(data), Value: CssUnescape([]byte(s))}
 	return declaration
 }
diff --git a/merge.go b/merge.go
index 97cb011..e795280 100644
--- a/merge.go
+++ b/merge.go
@@ -124,8 +124,8 @@ func (r *Merger) getAffectedProps(dec cascadia.CssDeclaration) []string {
 	return prop.ComputedProps()
 }
 
-var importantRegex = regexp.MustCompile(`(?i)!\s*important$`) // matches !important in a css declaration value
-var customVarRegex = regexp.MustCompile(`var\((--[\w-]+)`)    // matches custom variables in a css declaration value
+var importantRegex = regexp.MustCompile(`(?i)!\s*important$`)         // matches !important in a css declaration value
+var customVarRegex = regexp.MustCompile(`(?i:var)\(\s*(--[^\s,()]+)`) // matches custom variables in a css declaration value
 
 func getCustomVarsInDec(dec cascadia.CssDeclaration) []string {
 	matches := customVarRegex.FindAllStringSubmatch(dec.Value, -1)
-- 
2.43.0


From 261eac4d091a2e58ba3741afb6760a22c4f0820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:19 +0000
Subject: [PATCH 19/33] fix: shorthands made of shorthands cover the longhands
 of those

---
 merge.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/merge.go b/merge.go
index e795280..4984809 100644
--- a/merge.go
+++ b/merge.go
@@ -112,16 +112,26 @@ func (r *Merger) AddRules(reader io.Reader, inline bool) error {
 	return nil
 }
 
-func (r *Merger) getAffectedProps(dec cascadia.CssDeclaration) []string {
-	prop, ok := r.properties[dec.Property]
+func (r *Merger) getAffectedProps(name string) []string {
+	prop, ok := r.properties[name]
 	if !ok {
 		// Allowing these through, maybe they shouldn't be but
 		// this allows properties like stroke, fill, etc. to be used
 		// which are not in the mdn official list of props
 		// IMPORTANT: we are relying on this to let custom properties through
-		return []string{dec.Property}
+		return []string{name}
 	}
-	return prop.ComputedProps()
+	computed := prop.ComputedProps()
+	affectedProps := make([]string, 0, len(computed)*4) // 4 is arbitrary. reducing allocations
+	for _, c := range computed {
+		if c == name {
+			affectedProps = append(affectedProps, c)
+			continue
+		}
+		// shorthands may cover other shorthands (e.g., border covers border-width)
+		affectedProps = append(affectedProps, r.getAffectedProps(c)...)
+	}
+	return affectedProps
 }
 
 var importantRegex = regexp.MustCompile(`(?i)!\s*important$`)         // matches !important in a css declaration value
@@ -242,7 +252,7 @@ func (r *Merger) Merge(inClass string) string {
 			customVars := getCustomVarsInDec(dec)
 			important := importantRegex.MatchString(dec.Value)
 
-			for _, name := range r.getAffectedProps(dec) {
+			for _, name := range r.getAffectedProps(dec.Property) {
 				prop := name + propMod
 
 				// if the property has a custom var, add it to the propsToCustomVars map
-- 
2.43.0


From 5711d7a1a6a02578a21d3fa1cf7b2b45db72cf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 20/33] fix: logical border shorthands cover their own
 longhands

---
 internal/props/gen/properties.json | 54 ++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/internal/props/gen/properties.json b/internal/props/gen/properties.json
index 3308c26..0b2731b 100644
--- a/internal/props/gen/properties.json
+++ b/internal/props/gen/properties.json
@@ -1243,9 +1243,9 @@
       ],
       "appliesto": "allElements",
       "computed": [
-        "border-width",
-        "border-style",
-        "color"
+        "border-block-start-width",
+        "border-block-start-style",
+        "border-block-start-color"
       ],
       "order": "uniqueOrder",
       "status": "nonstandard",
@@ -2486,7 +2486,10 @@
       ],
       "initial": "currentcolor",
       "appliesto": "allElements",
-      "computed": "computedColor",
+      "computed": [
+        "border-block-start-color",
+        "border-block-end-color"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-block-color"
@@ -2502,7 +2505,10 @@
       ],
       "initial": "none",
       "appliesto": "allElements",
-      "computed": "asSpecified",
+      "computed": [
+        "border-block-start-style",
+        "border-block-end-style"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-block-style"
@@ -2518,7 +2524,10 @@
       ],
       "initial": "medium",
       "appliesto": "allElements",
-      "computed": "absoluteLengthZeroIfBorderStyleNoneOrHidden",
+      "computed": [
+        "border-block-start-width",
+        "border-block-end-width"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-block-width"
@@ -2543,9 +2552,9 @@
       ],
       "appliesto": "allElements",
       "computed": [
-        "border-top-width",
-        "border-top-style",
-        "border-top-color"
+        "border-block-end-width",
+        "border-block-end-style",
+        "border-block-end-color"
       ],
       "order": "uniqueOrder",
       "status": "standard",
@@ -2619,8 +2628,8 @@
       ],
       "appliesto": "allElements",
       "computed": [
-        "border-width",
-        "border-style",
+        "border-block-start-width",
+        "border-block-start-style",
         "border-block-start-color"
       ],
       "order": "uniqueOrder",
@@ -3072,8 +3081,8 @@
       ],
       "appliesto": "allElements",
       "computed": [
-        "border-width",
-        "border-style",
+        "border-inline-end-width",
+        "border-inline-end-style",
         "border-inline-end-color"
       ],
       "order": "uniqueOrder",
@@ -3091,7 +3100,10 @@
       ],
       "initial": "currentcolor",
       "appliesto": "allElements",
-      "computed": "computedColor",
+      "computed": [
+        "border-inline-start-color",
+        "border-inline-end-color"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-inline-color"
@@ -3107,7 +3119,10 @@
       ],
       "initial": "none",
       "appliesto": "allElements",
-      "computed": "asSpecified",
+      "computed": [
+        "border-inline-start-style",
+        "border-inline-end-style"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-inline-style"
@@ -3123,7 +3138,10 @@
       ],
       "initial": "medium",
       "appliesto": "allElements",
-      "computed": "absoluteLengthZeroIfBorderStyleNoneOrHidden",
+      "computed": [
+        "border-inline-start-width",
+        "border-inline-end-width"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-inline-width"
@@ -3196,8 +3214,8 @@
       ],
       "appliesto": "allElements",
       "computed": [
-        "border-width",
-        "border-style",
+        "border-inline-start-width",
+        "border-inline-start-style",
         "border-inline-start-color"
       ],
       "order": "uniqueOrder",
-- 
2.43.0


From d653bae0cc59c7788826781613495b3e77985e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 21/33] fix: empty attribute values match nothing with ~=, ^=,
 $= and *=

---
 internal/cascadia/selector.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/cascadia/selector.go b/internal/cascadia/selector.go
index 9359b9b..8595957 100644
--- a/internal/cascadia/selector.go
+++ b/internal/cascadia/selector.go
@@ -291,6 +291,9 @@ func attributeNotEqualMatch(key, val string, n *html.Node, ignoreCase bool) bool
 
 // returns true if s is a whitespace-separated list that includes val.
 func matchInclude(val string, s string, ignoreCase bool) bool {
+	if val == "" {
+		return false
+	}
 	for s != "" {
 		i := strings.IndexAny(s, " \t\r\n\f")
 		if i == -1 {
@@ -326,7 +329,7 @@ func attributeDashMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 func attributePrefixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 	return matchAttribute(n, key,
 		func(s string) bool {
-			if strings.TrimSpace(s) == "" {
+			if val == "" || strings.TrimSpace(s) == "" {
 				return false
 			}
 			if ignoreCase {
@@ -341,7 +344,7 @@ func attributePrefixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 func attributeSuffixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 	return matchAttribute(n, key,
 		func(s string) bool {
-			if strings.TrimSpace(s) == "" {
+			if val == "" || strings.TrimSpace(s) == "" {
 				return false
 			}
 			if ignoreCase {
@@ -356,7 +359,7 @@ func attributeSuffixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 func attributeSubstringMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 	return matchAttribute(n, key,
 		func(s string) bool {
-			if strings.TrimSpace(s) == "" {
+			if val == "" || strings.TrimSpace(s) == "" {
 				return false
 			}
 			if ignoreCase {
-- 
2.43.0


From 7ade2c9968c650d61ac3c5520876eede46cfa91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 22/33] fix: *|* is accepted at the end of a selector

---
 internal/cascadia/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index 4591ef9..ae46efe 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -820,7 +820,7 @@ func (p *parser) parseSimpleSelectorSequence() (Sel, error) {
 	case '*':
 		// It's the universal selector. Just skip over it, since it doesn't affect the meaning.
 		p.i++
-		if p.i+2 < len(p.s) && p.s[p.i:p.i+2] == "|*" { // other version of universal selector
+		if p.i+2 <= len(p.s) && p.s[p.i:p.i+2] == "|*" { // other version of universal selector
 			p.i += 2
 		}
 	case '#', '.', '[', ':':
-- 
2.43.0


From 4a8d1e7ad5a5c71f875aab5d8cf758df2e43bb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 23/33] fix: an escaped NUL denotes U+FFFD

---
 internal/cascadia/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index ae46efe..19d8760 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -36,6 +36,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 // a parser for CSS selectors
@@ -78,6 +79,9 @@ func (p *parser) parseEscape() (result string, err error) {
 			}
 		}
 		p.i = i
+		if v == 0 {
+			v = utf8.RuneError
+		}
 		return string(rune(v)), nil
 	}
 
-- 
2.43.0


From a497521580bbd3ef48893f8b6d23cba7ab1327b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:46 +0000
Subject: [PATCH 24/33] fix: serialized selectors escape names and strings so
 that they parse again

---
 internal/cascadia/serialize.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/internal/cascadia/serialize.go b/internal/cascadia/serialize.go
index 00800e1..72872ba 100644
--- a/internal/cascadia/serialize.go
+++ b/internal/cascadia/serialize.go
@@ -44,14 +44,28 @@ func init() {
 	for _, s := range ",!\"#$%&'()*+ -./:;<=>?@[\\]^`{|}~" {
 		pairs = append(pairs, string(s), "\\"+string(s))
 	}
+	pairs = append(pairs, newlineEscapes...)
 	specialCharReplacer = strings.NewReplacer(pairs...)
 }
 
-// espace special CSS char
-func escape(s string) string { return specialCharReplacer.Replace(s) }
+// newlines can only be escaped by their code point
+var newlineEscapes = []string{"\n", "\\a ", "\f", "\\c ", "\r", "\\d "}
+
+// escape special CSS char
+func escape(s string) string {
+	if s != "" && '0' <= s[0] && s[0] <= '9' { // a digit cannot start an identifier
+		return fmt.Sprintf("\\%x ", s[0]) + specialCharReplacer.Replace(s[1:])
+	}
+	return specialCharReplacer.Replace(s)
+}
+
+var stringReplacer = strings.NewReplacer(append([]string{`"`, `\"`, `\`, `\\`}, newlineEscapes...)...)
+
+// quote returns s as a CSS string
+func quote(s string) string { return `"` + stringReplacer.Replace(s) + `"` }
 
 func (c TagSelector) String() string {
-	return c.tag
+	return escape(c.tag)
 }
 
 func (c IdSelector) String() string {
@@ -67,7 +81,7 @@ func (c AttrSelector) String() string {
 	if c.operation == "#=" {
 		val = c.regexp.String()
 	} else if c.operation != "" {
-		val = fmt.Sprintf(`"%s"`, val)
+		val = quote(val)
 	}
 
 	ignoreCase := ""
@@ -76,7 +90,7 @@ func (c AttrSelector) String() string {
 		ignoreCase = " i"
 	}
 
-	return fmt.Sprintf(`[%s%s%s%s]`, c.key, c.operation, val, ignoreCase)
+	return fmt.Sprintf(`[%s%s%s%s]`, escape(c.key), c.operation, val, ignoreCase)
 }
 
 func (c IsPseudoClassSelector) String() string {
@@ -96,7 +110,7 @@ func (c ContainsPseudoClassSelector) String() string {
 	if c.own {
 		s += "Own"
 	}
-	return fmt.Sprintf(`:%s("%s")`, s, c.value)
+	return fmt.Sprintf(`:%s(%s)`, s, quote(c.value))
 }
 
 func (c RegexpPseudoClassSelector) String() string {
@@ -162,7 +176,7 @@ func (c LinkPseudoClassSelector) String() string {
 }
 
 func (c LangPseudoClassSelector) String() string {
-	return fmt.Sprintf(":lang(%s)", c.lang)
+	return fmt.Sprintf(":lang(%s)", escape(c.lang))
 }
 
 func (c EnabledPseudoClassSelector) String() string {
-- 
2.43.0


From cfbdb83c5d08a9901246b0d51bb723f72d1a32c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:47 +0000
Subject: [PATCH 25/33] fix: :popover-open is serialized under the name the
 parser accepts

---
 internal/cascadia/serialize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cascadia/serialize.go b/internal/cascadia/serialize.go
index 72872ba..9261f56 100644
--- a/internal/cascadia/serialize.go
+++ b/internal/cascadia/serialize.go
@@ -216,7 +216,7 @@ func (c ReadOnlyPseudoClassSelector) String() string {
 }
 
 func (c PopoverPseudoClassSelector) String() string {
-	return ":popover"
+	return ":popover-open"
 }
 
 func (c abstractPseudoClass) String() string {
-- 
2.43.0


From 596dfc93ce9745d21379328a0712e127a4dad24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 26/33] fix: an empty regular expression at the end of a
 selector is accepted

---
 internal/cascadia/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index 19d8760..3981e2e 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -253,7 +253,7 @@ loop:
 // unmatched closing ')' or ']' which is not consumed
 func (p *parser) parseRegex() (rx *regexp.Regexp, err error) {
 	i := p.i
-	if len(p.s) < i+2 {
+	if len(p.s) < i+1 {
 		return nil, errors.New("expected regular expression, found EOF instead")
 	}
 
-- 
2.43.0


From fb656cdb77806cc3ca4a3b29612b4b35d1913325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 27/33] fix: control characters in serialized names are escaped

---
 internal/cascadia/serialize.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/cascadia/serialize.go b/internal/cascadia/serialize.go
index 9261f56..13a5470 100644
--- a/internal/cascadia/serialize.go
+++ b/internal/cascadia/serialize.go
@@ -44,13 +44,13 @@ func init() {
 	for _, s := range ",!\"#$%&'()*+ -./:;<=>?@[\\]^`{|}~" {
 		pairs = append(pairs, string(s), "\\"+string(s))
 	}
-	pairs = append(pairs, newlineEscapes...)
+	for c := 1; c < ' '; c++ { // control characters are escaped by their code point
+		pairs = append(pairs, string(rune(c)), fmt.Sprintf("\\%x ", c))
+	}
+	pairs = append(pairs, "\x7f", "\\7f ", "\x00", "\\\x00")
 	specialCharReplacer = strings.NewReplacer(pairs...)
 }
 
-// newlines can only be escaped by their code point
-var newlineEscapes = []string{"\n", "\\a ", "\f", "\\c ", "\r", "\\d "}
-
 // escape special CSS char
 func escape(s string) string {
 	if s != "" && '0' <= s[0] && s[0] <= '9' { // a digit cannot start an identifier
@@ -59,7 +59,7 @@ func escape(s string) string {
 	return specialCharReplacer.Replace(s)
 }
 
-var stringReplacer = strings.NewReplacer(append([]string{`"`, `\"`, `\`, `\\`}, newlineEscapes...)...)
+var stringReplacer = strings.NewReplacer(`"`, `\"`, `\`, `\\`, "\n", `\a `, "\f", `\c `, "\r", `\d `)
 
 // quote returns s as a CSS string
 func quote(s string) string { return `"` + stringReplacer.Replace(s) + `"` }
-- 
2.43.0


From a58ee41f2f3cad546c082243b557b967c9d65bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:39 +0000
Subject: [PATCH 28/33] fix: the i flag of attribute selectors ignores the case
 of ASCII letters only

---
 internal/cascadia/selector.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/cascadia/selector.go b/internal/cascadia/selector.go
index 8595957..1f03da2 100644
--- a/internal/cascadia/selector.go
+++ b/internal/cascadia/selector.go
@@ -256,7 +256,7 @@ func (t AttrSelector) Match(n *html.Node) bool {
 // the real attribute is the attribute value found in the code parsed
 func matchInsensitiveValue(userAttr string, realAttr string, ignoreCase bool) bool {
 	if ignoreCase {
-		return strings.EqualFold(userAttr, realAttr)
+		return toLowerASCII(userAttr) == toLowerASCII(realAttr)
 	}
 	return userAttr == realAttr
 
@@ -333,7 +333,7 @@ func attributePrefixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 				return false
 			}
 			if ignoreCase {
-				return strings.HasPrefix(strings.ToLower(s), strings.ToLower(val))
+				return strings.HasPrefix(toLowerASCII(s), toLowerASCII(val))
 			}
 			return strings.HasPrefix(s, val)
 		})
@@ -348,7 +348,7 @@ func attributeSuffixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 				return false
 			}
 			if ignoreCase {
-				return strings.HasSuffix(strings.ToLower(s), strings.ToLower(val))
+				return strings.HasSuffix(toLowerASCII(s), toLowerASCII(val))
 			}
 			return strings.HasSuffix(s, val)
 		})
@@ -363,7 +363,7 @@ func attributeSubstringMatch(key, val string, n *html.Node, ignoreCase bool) boo
 				return false
 			}
 			if ignoreCase {
-				return strings.Contains(strings.ToLower(s), strings.ToLower(val))
+				return strings.Contains(toLowerASCII(s), toLowerASCII(val))
 			}
 			return strings.Contains(s, val)
 		})
-- 
2.43.0


From 9889fc2c2ba95b836998b5cdf9679d17093b6694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 29/33] fix: :lang follows the nearest lang attribute, in any
 letter case

---
 internal/cascadia/pseudo_classes.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/cascadia/pseudo_classes.go b/internal/cascadia/pseudo_classes.go
index 78b9427..1efc218 100644
--- a/internal/cascadia/pseudo_classes.go
+++ b/internal/cascadia/pseudo_classes.go
@@ -470,13 +470,13 @@ type LangPseudoClassSelector struct {
 }
 
 func (s LangPseudoClassSelector) Match(n *html.Node) bool {
-	own := matchAttribute(n, "lang", func(val string) bool {
-		return val == s.lang || strings.HasPrefix(val, s.lang+"-")
-	})
-	if n.Parent == nil {
-		return own
+	if hasAttr(n, "lang") {
+		return matchAttribute(n, "lang", func(val string) bool {
+			val = toLowerASCII(val)
+			return val == s.lang || strings.HasPrefix(val, s.lang+"-")
+		})
 	}
-	return own || s.Match(n.Parent)
+	return n.Parent != nil && s.Match(n.Parent)
 }
 
 type EnabledPseudoClassSelector struct {
-- 
2.43.0


From f9d2055ca8e6c817005325ac1acab370044ac6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 30/33] fix: a property whose name has escaped characters is
 not mistaken for one in another circumstance

---
 merge.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/merge.go b/merge.go
index 4984809..855a13f 100644
--- a/merge.go
+++ b/merge.go
@@ -183,6 +183,10 @@ func isClass(sel cascadia.Sel) bool {
 	return false
 }
 
+// propModSep separates a property from the circumstance it is set in. It cannot be part of a property,
+// unlike the characters circumstances begin with, which may be escaped in a property.
+const propModSep = "\x00"
+
 // propModifier returns a string representing the circumstance in which the class applies.
 // This may be pseudo elements like hover, focus, etc. or, in the case of a combination selector,
 // it can be the selector with the class name removed
@@ -232,7 +236,7 @@ func (r *Merger) Merge(inClass string) string {
 	keepClasses := make([]string, 0, len(split))
 
 	// propsToClasses is a map of properties that are shared between classes
-	// The property name may have a condition (pseudo or media) appended to it (e.g., "height:hover": ["h-10", "h-20"])
+	// The property name may have a condition (pseudo or media) appended to it (e.g., "height\x00:hover": ["h-10", "h-20"])
 	propsToClasses := make(map[string]string, len(split))
 	importantPropsToClasses := make(map[string]string, len(split))
 	customVarsToClasses := make(map[string]map[string]string, len(split)) // map of custom vars to the classes that set them, by propMod
@@ -253,7 +257,7 @@ func (r *Merger) Merge(inClass string) string {
 			important := importantRegex.MatchString(dec.Value)
 
 			for _, name := range r.getAffectedProps(dec.Property) {
-				prop := name + propMod
+				prop := name + propModSep + propMod
 
 				// if the property has a custom var, add it to the propsToCustomVars map
 				// overwrite the customVars so we prioritize the last class that sets the property
@@ -319,8 +323,8 @@ func (r *Merger) Merge(inClass string) string {
 		for propMod, class := range customVarsToClasses[custVar] {
 			keepClasses = append(keepClasses, class)
 			// the definition may use other custom properties
-			usedVars = append(usedVars, propsToCustomVars[custVar+propMod]...)
-			usedVars = append(usedVars, importantPropsToCustomVars[custVar+propMod]...)
+			usedVars = append(usedVars, propsToCustomVars[custVar+propModSep+propMod]...)
+			usedVars = append(usedVars, importantPropsToCustomVars[custVar+propModSep+propMod]...)
 		}
 		delete(customVarsToClasses, custVar) // each custom property needs to be visited once
 	}
-- 
2.43.0


From 374de6682c50d48e1023484123739367feba50d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 31/33] fix: escapes in property names are decoded, those in
 values are kept

---
 internal/cascadia/rules.go | 42 +++++++++++++++-----------------------
 merge.go                   |  6 +++---
 2 files changed, 19 insertions(+), 29 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 47ef99b..604f2dc 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -1,7 +1,6 @@
 package cascadia
 
 import (
-	"bytes"
 	"fmt"
 	"io"
 	"log"
@@ -92,32 +91,19 @@ func parseAtRuleName(data []byte, values []css.Token) (string, string) {
 	return string(data), ruleBuilder.String()
 }
 
+// CssUnescape returns the name that b is written as, with its escape sequences replaced by the characters they stand for.
 func CssUnescape(b []byte) string {
-
-	var buf bytes.Buffer
-
-	var i int
-	for i = 0; i < len(b); i++ {
-		if b[i] == '\\' {
-			// set up buf with the stuff we've already scanned
-			buf.Grow(len(b))
-			buf.Write(b[:i])
-			goto foundEsc
-		}
-		continue
-	}
-	// no escaping needed
-	return string(b)
-
-foundEsc:
-	inEsc := false
-	for ; i < len(b); i++ {
-		if b[i] == '\\' && !inEsc {
-			inEsc = true
-			continue
+	var buf strings.Builder
+	p := &parser{s: string(b)}
+	for p.i < len(p.s) {
+		if p.s[p.i] == '\\' {
+			if c, err := p.parseEscape(); err == nil {
+				buf.WriteString(c)
+				continue
+			}
 		}
-		buf.WriteByte(b[i])
-		inEsc = false
+		buf.WriteByte(p.s[p.i])
+		p.i++
 	}
 	return buf.String()
 }
@@ -212,6 +198,10 @@ func buildDeclaration(p *css.Parser, data []byte) CssDeclaration {
 		vals.Write(val.Data)
 	}
 	s := normalizeWhitespace(vals.String())
-	declaration := CssDeclaration{Property: CssUnescape(data), Value: CssUnescape([]byte(s))}
+	// the value stays as it is written: what is escaped in it may mean something else unescaped
+	declaration := CssDeclaration{Property: CssUnescape(data), Value: s}
+	if !strings.HasPrefix(declaration.Property, "--") {
+		declaration.Property = toLowerASCII(declaration.Property)
+	}
 	return declaration
 }
diff --git a/merge.go b/merge.go
index 855a13f..9373fb0 100644
--- a/merge.go
+++ b/merge.go
@@ -134,8 +134,8 @@ func (r *Merger) getAffectedProps(name string) []string {
 	return affectedProps
 }
 
-var importantRegex = regexp.MustCompile(`(?i)!\s*important$`)         // matches !important in a css declaration value
-var customVarRegex = regexp.MustCompile(`(?i:var)\(\s*(--[^\s,()]+)`) // matches custom variables in a css declaration value
+var importantRegex = regexp.MustCompile(`(?i)(?:^|[^\\])(?:\\\\)*!\s*important$`)                     // matches !important in a css declaration value
+var customVarRegex = regexp.MustCompile(`(?i:var)\(\s*(--(?:\\[0-9a-fA-F]{1,6}\s?|\\.|[^\s,()\\])+)`) // matches custom variables in a css declaration value
 
 func getCustomVarsInDec(dec cascadia.CssDeclaration) []string {
 	matches := customVarRegex.FindAllStringSubmatch(dec.Value, -1)
@@ -147,7 +147,7 @@ func getCustomVarsInDec(dec cascadia.CssDeclaration) []string {
 		if len(match) < 2 {
 			continue
 		}
-		vars = append(vars, match[1])
+		vars = append(vars, cascadia.CssUnescape([]byte(match[1])))
 	}
 	return vars
 }
-- 
2.43.0


From 26e000d9387fd3cd0fdc52234e91633aa55ce09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:41 +0000
Subject: [PATCH 32/33] fix: ToCssFormat escapes the names of properties

---
 internal/cascadia/rules.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 604f2dc..9d47ca6 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -52,7 +52,7 @@ func (r CssRule) GetCondition() string {
 func (r CssRule) ToCssFormat() string {
 	dec := strings.Builder{}
 	for i, d := range r.Declarations {
-		dec.WriteString(fmt.Sprintf("%s: %s;", d.Property, d.Value))
+		dec.WriteString(fmt.Sprintf("%s: %s;", escapeProperty(d.Property), d.Value))
 		if i < len(r.Declarations)-1 {
 			dec.WriteByte(' ')
 		}
@@ -60,6 +60,18 @@ func (r CssRule) ToCssFormat() string {
 	return fmt.Sprintf("%s { %s }", r.Selector.String(), dec.String())
 }
 
+// escapeProperty returns the name of a property as it is written in CSS.
+func escapeProperty(name string) string {
+	rest := strings.TrimPrefix(strings.TrimPrefix(name, "-"), "-")
+	if rest != "" && nameStart(rest[0]) && !strings.Contains(escape(strings.ReplaceAll(rest, "-", "")), `\`) {
+		return name
+	}
+	if strings.HasPrefix(name, "--") && len(name) > len("--") {
+		return "--" + escape(name[len("--"):])
+	}
+	return escape(name)
+}
+
 // CssDeclaration represents a CSS declaration, which includes a property and a value.
 type CssDeclaration struct {
 	Property string // Property is the property for the declaration (e.g., "color")
-- 
2.43.0


From 969c3933ee82621664a93896bb395b09869a6768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:02 +0000
Subject: [PATCH 33/33] fix: loading CSS from a buffer leaves the byte behind
 its data alone

---
 internal/cascadia/rules.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 9d47ca6..0c140d6 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -125,7 +125,9 @@ func normalizeWhitespace(s string) string {
 }
 
 func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
-	p := css.NewParser(parse.NewInput(r), inline)
+	in := parse.NewInput(r)
+	defer in.Restore() // of a buffer, the byte behind the data is overwritten while it is parsed
+	p := css.NewParser(in, inline)
 	rules := make([]CssRule, 0)
 	var err error
 	var currentRule CssRule
-- 
2.43.0

