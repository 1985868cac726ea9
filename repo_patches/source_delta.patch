From 77f12607770ae72f2cfb333c612fccb21b7b5b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:42 +0000
Subject: [PATCH 1/7] fix: SimpleCache.Clear raced with Get and Set

Clear overwrote the sync.Map in place, without the sync.Map's own
synchronisation, while Get and Set could be using it.
---
 cache.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cache.go b/cache.go
index 5c9f60c..f5389f4 100644
--- a/cache.go
+++ b/cache.go
@@ -7,7 +7,7 @@ import (
 // SimpleCache is a simple in-memory cache that uses a sync.Map to store key-value pairs.
 // It is safe for concurrent use, but it is grow-only.
 type SimpleCache struct {
-	mu    sync.Mutex
+	mu    sync.RWMutex // Clear replaces items while holding it exclusively
 	items sync.Map
 }
 
@@ -18,6 +18,8 @@ func NewCache() *SimpleCache {
 
 // Get returns the value for the given key, and a boolean indicating whether the key was found.
 func (c *SimpleCache) Get(key string) (string, bool) {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
 	if value, ok := c.items.Load(key); ok {
 		return value.(string), true
 	}
@@ -26,6 +28,8 @@ func (c *SimpleCache) Get(key string) (string, bool) {
 
 // Set sets the value for the given key.
 func (c *SimpleCache) Set(key string, data string) {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
 	c.items.Store(key, data)
 }
 
-- 
2.43.0


From 0cadee424eadcc85ab0e277004c6094e839178e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:42 +0000
Subject: [PATCH 2/7] fix: do not hold the lock while reading the stylesheet

A stream that stalls blocked every other AddRules call.
---
 merge.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index 8cd99b9..28e7f4d 100644
--- a/merge.go
+++ b/merge.go
@@ -91,12 +91,14 @@ func walk(selector cascadia.Sel) []cascadia.Sel {
 // If the cache is not nil, it is cleared.
 // New rules with the same class will overwrite existing rules.
 func (r *Merger) AddRules(reader io.Reader, inline bool) error {
+	// Read and parse the stream before taking the lock: a slow reader must not hold up anyone else.
+	rules, err := cascadia.ExtractRules(reader, inline)
+
 	r.mu.Lock()
 	defer r.mu.Unlock()
 	if r.cache != nil {
 		r.cache.Clear()
 	}
-	rules, err := cascadia.ExtractRules(reader, inline)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From ced1722a58ac895378979b01c14c9d04eb283486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:42 +0000
Subject: [PATCH 3/7] fix: Merge and Rules raced with AddRules

Merge read the rules map with no lock while AddRules wrote to it, and could
store a result computed from the old rules in the cache after AddRules had
cleared it, so that later calls kept returning the old answer.
---
 merge.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/merge.go b/merge.go
index 28e7f4d..f78ada9 100644
--- a/merge.go
+++ b/merge.go
@@ -23,8 +23,8 @@ type Cache interface {
 
 // Merger is a struct that resolves conflicting css rules.
 type Merger struct {
-	mu         sync.Mutex // mutex is only used when adding rules
-	rules      map[string]cascadia.CssRule
+	mu         sync.RWMutex                // guards rules, and keeps outdated results out of the cache
+	rules      map[string]cascadia.CssRule // never modified in place: AddRules replaces it
 	cache      Cache
 	properties map[string]props.Property
 	keepSort   bool // keep the original sort order of the classes
@@ -49,8 +49,11 @@ func NewMerger(cache Cache, keepSort bool) *Merger {
 	}
 }
 
-// Rules returns the map of css class rules with class names as keys and CssRule structs as values
+// Rules returns the map of css class rules with class names as keys and CssRule structs as values.
+// The map is a snapshot: rules that are added later do not appear in it.
 func (r *Merger) Rules() map[string]cascadia.CssRule {
+	r.mu.RLock()
+	defer r.mu.RUnlock()
 	return r.rules
 }
 
@@ -102,15 +105,21 @@ func (r *Merger) AddRules(reader io.Reader, inline bool) error {
 	if err != nil {
 		return err
 	}
+	// work on a copy, so that a map handed out by Rules never changes
+	updated := make(map[string]cascadia.CssRule, len(r.rules)+len(rules))
+	for class, rule := range r.rules {
+		updated[class] = rule
+	}
 	for _, rule := range rules {
 		selectors := walk(rule.Selector)
 		for _, selector := range selectors {
 			if t, ok := selector.(cascadia.ClassSelector); ok {
-				r.rules[t.Class] = rule
+				updated[t.Class] = rule
 			}
 		}
 
 	}
+	r.rules = updated
 	return nil
 }
 
@@ -213,6 +222,11 @@ func (r *Merger) Merge(inClass string) string {
 		return inClass
 	}
 
+	// Held until the result is in the cache: AddRules clears the cache, and a result
+	// computed from the rules before that must not be stored after it.
+	r.mu.RLock()
+	defer r.mu.RUnlock()
+
 	keepClasses := make([]string, 0, len(split))
 	selectorToClass := make(map[string]string, len(split))
 
-- 
2.43.0


From 9e3822118e1c54089f7b16ed8c6d7724dddd32e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:42 +0000
Subject: [PATCH 4/7] fix: an at-rule with no condition panicked

'@media {...}' is valid CSS: an empty media query list always applies.
---
 internal/cascadia/rules.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 09c55d2..8bf601b 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -83,9 +83,6 @@ func parseAtRuleName(data []byte, values []css.Token) (string, string) {
 	if string(data) != "@media" && string(data) != "@supports" {
 		return "", ""
 	}
-	if len(values) == 0 {
-		panic("no values")
-	}
 	ruleBuilder := strings.Builder{}
 	for _, val := range values {
 		ruleBuilder.Write(val.Data)
-- 
2.43.0


From 75501163af2eb934cd3b6debe157de595bcf0061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:42 +0000
Subject: [PATCH 5/7] fix: ExtractRules looped forever when the input ended
 inside a skipped rule

A stray closing bracket can make the parser drop the level that is being
skipped, so the end of the rule is never reported. The end of the input is.
---
 internal/cascadia/rules.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 8bf601b..8959d10 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -134,11 +134,12 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 	ruleSetErr := false
 	for {
 		gt, _, data := p.Next()
-		if ignore && gt != css.EndAtRuleGrammar {
+		end := gt == css.ErrorGrammar && !p.HasParseError() // end of the input, or it could not be read
+		if ignore && gt != css.EndAtRuleGrammar && !end {
 			continue
 		}
 
-		if ruleSetErr && gt != css.EndRulesetGrammar {
+		if ruleSetErr && gt != css.EndRulesetGrammar && !end {
 			continue
 		} else if ruleSetErr && gt == css.EndRulesetGrammar {
 			ruleSetErr = false
-- 
2.43.0


From 855d48a779f1aa7462bbcfd0e6b373e88e890b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:42 +0000
Subject: [PATCH 6/7] fix: the stylesheet's own memory was written to

parse.NewInput puts a NUL behind the contents of a *bytes.Buffer, in memory
that belongs to the caller, and leaves the buffer unread.
---
 internal/cascadia/rules.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 8959d10..873cff5 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -125,6 +125,11 @@ func normalizeWhitespace(s string) string {
 }
 
 func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
+	// parse.NewInput takes the memory of a reader that has a Bytes method, such as a *bytes.Buffer,
+	// writes past its end and does not consume the reader. Hide everything but Read from it.
+	if r != nil {
+		r = struct{ io.Reader }{r}
+	}
 	p := css.NewParser(parse.NewInput(r), inline)
 	rules := make([]CssRule, 0)
 	var err error
-- 
2.43.0


From 30f7224e5af45fa3492c34eee0a18c273628c09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:15 +0000
Subject: [PATCH 7/7] fix: a deeply nested selector exhausted the stack

A selector of about two million nested :not( took down the whole process.
---
 internal/cascadia/parser.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index 4591ef9..c9491ab 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -40,8 +40,9 @@ import (
 
 // a parser for CSS selectors
 type parser struct {
-	s string // the source text
-	i int    // the current position
+	s     string // the source text
+	i     int    // the current position
+	depth int    // how many selector groups the current position is nested in
 
 	// if `false`, parsing a pseudo-element
 	// returns an error.
@@ -470,6 +471,7 @@ var (
 	errExpectedParenthesis        = errors.New("expected '(' but didn't find it")
 	errExpectedClosingParenthesis = errors.New("expected ')' but didn't find it")
 	errUnmatchedParenthesis       = errors.New("unmatched '('")
+	errNestedTooDeeply            = errors.New("selectors are nested too deeply")
 )
 
 // parsePseudoclassSelector parses a pseudoclass selector like :not(p) or a pseudo-element
@@ -924,8 +926,18 @@ func (p *parser) parseSelector() (Sel, error) {
 	}
 }
 
+// maxDepth limits how deeply selector groups may be nested, because every level takes
+// up stack, and Go ends the whole process when the stack is exhausted.
+const maxDepth = 1000
+
 // parseSelectorGroup parses a group of selectors, separated by commas.
 func (p *parser) parseSelectorGroup() (SelectorGroup, error) {
+	if p.depth >= maxDepth {
+		return nil, errNestedTooDeeply
+	}
+	p.depth++
+	defer func() { p.depth-- }()
+
 	current, err := p.parseSelector()
 	if err != nil {
 		return nil, err
-- 
2.43.0

