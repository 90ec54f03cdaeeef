From bc63c1548f55996a389c8966687cd1ff6960f783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 1/9] fix: compute FOLLOW through every symbol that can be
 empty

Only the symbol right after the processed rule was looked at. With
<S> ::= <A> <B> <C> and all three possibly empty, 'c' was missing from
FOLLOW(A), so the sentence "c" was rejected. And FOLLOW(S) was added as
soon as one next symbol could be empty, even if the rest of the sequence
could not.
---
 pkg/bnf/tablegen/tablegen.go | 36 +++++-------------------------------
 1 file changed, 5 insertions(+), 31 deletions(-)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index 049b9ce..14180fc 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -143,34 +143,6 @@ func (tg *tableGenerator) findFirsts() error {
 	return nil
 }
 
-// symbolFirsts
-// Helper function to get firsts for symbol assuming
-// firsts sets already calculated
-func (tg *tableGenerator) symbolFirsts(symbol *bnf.Symbol) (bs.ByteSet, error) {
-	var ret bs.ByteSet
-	switch v := (*symbol).(type) {
-	case bnf.SymbolTerminal:
-		if len(v.Name) == 0 {
-			return ret, fmt.Errorf("terminal with empty string check grammar")
-		}
-		return terminalFirsts(v), nil
-
-	case bnf.SymbolNothing:
-		return bs.New(EOS), nil
-
-	case bnf.SymbolNonTerminal:
-		ruleIndex, ok := tg.ruleMap[v.Name]
-		if !ok {
-			return ret,
-				fmt.Errorf("no rules defined for non terminal <%s>", v.Name)
-		}
-		return tg.firsts[ruleIndex], nil
-
-	default:
-		return ret, fmt.Errorf("symbol of unknown type: %T", v)
-	}
-}
-
 func (tg *tableGenerator,
 ) ruleFollowsInSequence(
 	ruleIndex int,
@@ -229,14 +201,16 @@ func (tg *tableGenerator,
 		}
 
 		// rule 2
-		// get firsts for next symbol in sequance (can be itself)
-		nextFirsts, err := tg.symbolFirsts(&(*sequence).Symbols[i+1])
+		// get firsts for rest of sequance after processed rule
+		// (can contain itself)
+		rest := bnf.Sequence{Symbols: (*sequence).Symbols[i+1:]}
+		nextFirsts, err := tg.sequenceFirsts(&rest)
 		if err != nil {
 			return err
 		}
 
 		// rule 4
-		// if next symbol (q) 's firsts contain empty string (Є)
+		// if rest of sequence (q) 's firsts contain empty string (Є)
 		// add to target rule's follows it's firsts w/o empty
 		// and follow set for sequence's rule (A)
 		//
-- 
2.43.0


From d8db5eb3ccd6587d0744aaebb6a3d7c50c4fc0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 2/9] fix: refuse a grammar with two non-empty alternatives for
 one cell

A cell was only guarded when an alternative that can be empty was added
to it. Two alternatives starting with the same byte (or one starting
with a byte from FOLLOW after one that can be empty) were silently
appended to each other: <S> ::= "a" "b" | "a" "c" accepted only "abac",
and <T> ::= <T> "B" | "_" made the parser expand forever.
---
 pkg/bnf/tablegen/tablegen.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index 14180fc..a57e949 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -320,6 +320,11 @@ func (tg *tableGenerator,
 		}
 
 		for _, term := range seqFirsts.Bytes() {
+			if _, ok := res[byte(term)]; ok {
+				return res,
+					fmt.Errorf("grammar lead to multiple parser op " +
+						"sets per table cell")
+			}
 			for _, symbol := range sequence.Symbols {
 				switch v := symbol.(type) {
 				case bnf.SymbolTerminal:
-- 
2.43.0


From c5cbe8c50c8a2fd929d79aa2274a51b925443796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 3/9] fix: do not print the conflicting cell to standard output

Leftover debug output: FromGrammar reports the conflict as an error.
---
 pkg/bnf/tablegen/tablegen.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index a57e949..d32dd00 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -307,8 +307,7 @@ func (tg *tableGenerator,
 			seqFollows := tg.follows[ruleIndex]
 
 			for _, followTerm := range seqFollows.Bytes() {
-				if v, ok := res[byte(followTerm)]; ok {
-					fmt.Println(v)
+				if _, ok := res[byte(followTerm)]; ok {
 					return res,
 						fmt.Errorf("grammar lead to multiple parser op " +
 							"sets per table cell")
-- 
2.43.0


From bf169c3a2ae8d8014c8fd9fb516d30b74cf8b2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 4/9] fix: do not take a NUL byte in the input for the end of
 input

Peeking past the end gives 0, so everything from a NUL byte on was
ignored after a complete sentence ("A::=C\0junk" was accepted), and a
NUL in a terminal matched beyond the end, giving nodes that end outside
of the source.
---
 pkg/parser/parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index f462f08..61ce625 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -210,6 +210,10 @@ func (s *ll1parserScanner) peek() byte {
 	return s.src[s.offset]
 }
 
+func (s *ll1parserScanner) atEnd() bool {
+	return s.offset >= len(s.src)
+}
+
 func (s *ll1parserScanner) next() {
 	s.offset++
 }
@@ -350,7 +354,7 @@ func (p *realParser) processFunction(f function_t) {
 }
 
 func (p *realParser) processEOS() (cst.Node, *map[int]string, error) {
-	if p.scanner.peek() != byte(0) {
+	if !p.scanner.atEnd() {
 		// fmt.Println("expected end of input got: ", in.Peek())
 		// Parsing error Unexpected EOF
 		return nil, nil, fmt.Errorf("expected end of input got %s",
@@ -372,7 +376,7 @@ func (p *realParser) processEOS() (cst.Node, *map[int]string, error) {
 }
 
 func (p *realParser) processChar(c opChar_t) error {
-	if c.Value() != p.scanner.peek() {
+	if p.scanner.atEnd() || c.Value() != p.scanner.peek() {
 		// Parsing error
 		return fmt.Errorf("expected char %s, got %s",
 		                  charCode(c.Value()),
-- 
2.43.0


From 01e955ddaa56ca93c64c24c1d827ad26725be282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 5/9] fix: return a copy of parser's names from Parse

Every successful Parse wrote the names of built-in nodes to the map given
to NewLL1Parser and handed that map out: simultaneous parses crashed with
concurrent map writes, a change made to a result affected the parser, and
a parser created without names panicked.
---
 pkg/parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 61ce625..7b27414 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -368,7 +368,11 @@ func (p *realParser) processEOS() (cst.Node, *map[int]string, error) {
 		return nil, nil, fmt.Errorf("prod stack empty")
 	}
 
-	ret_names := p.names
+	// parser's names are shared between parses and owned by it's creator
+	ret_names := make(map[int]string, len(p.names) + 2)
+	for k, v := range p.names {
+		ret_names[k] = v
+	}
 	ret_names[builtinTerminal] = "_literal"
 	ret_names[builtinNothing]  = "_nothing"
 
-- 
2.43.0


From 98182ad4547d4a849e7051cabac0877cf84fa30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 6/9] fix: report grammars on which table generation panicked

FromGrammar panicked on a grammar without rules (index out of range), on
a terminal with an empty string (index out of range) and on the empty
string after a symbol that can not be empty ("uncreachable"), e.g. for
the valid BNF text <S> ::= "a" "".
---
 pkg/bnf/tablegen/tablegen.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index d32dd00..c76d673 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -388,10 +388,45 @@ func (tg *tableGenerator) Run() (table *map[int]map[byte][]parser.ParserOp,
 	return tg.makeTable()
 }
 
+// checkGrammar
+// Reports flaws of grammar for which no table can be generated
+func checkGrammar(g bnf.Grammar) error {
+	if len(g.Rules) == 0 {
+		return errors.New("grammar has no rules")
+	}
+
+	for _, rule := range g.Rules {
+		for _, sequence := range rule.Tail.Sequences {
+			for _, symbol := range sequence.Symbols {
+				switch v := symbol.(type) {
+				case bnf.SymbolTerminal:
+					if len(v.Name) == 0 {
+						return fmt.Errorf("terminal with empty string in <%s>",
+							rule.Head.Name)
+					}
+
+				case bnf.SymbolNothing:
+					if len(sequence.Symbols) > 1 {
+						return fmt.Errorf("empty string is not a single "+
+							"sequence symbol in <%s>", rule.Head.Name)
+					}
+				}
+			}
+		}
+	}
+
+	return nil
+}
+
 func FromGrammar(g bnf.Grammar) (table *map[int]map[byte][]parser.ParserOp,
 	rowNames *map[int]string,
 	err error) {
 
+	err = checkGrammar(g)
+	if err != nil {
+		return nil, nil, err
+	}
+
 	ruleHeads := collectRuleHeads(g)
 
 	var tablegen tableGenerator
-- 
2.43.0


From e2ed41be22918524a4975665d4707793b0506f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 7/9] fix: report flaws of a grammar that were silently ignored

- of several rules for one name only the last was used by others, and the
  others had no name in the names returned
- an undefined name was missed in an alternative that derives no string
- a terminal starting with NUL was taken for an empty alternative, since
  0 stands for both empty and end of input
---
 pkg/bnf/tablegen/tablegen.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index c76d673..99e5031 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -395,6 +395,15 @@ func checkGrammar(g bnf.Grammar) error {
 		return errors.New("grammar has no rules")
 	}
 
+	defined := map[string]bool{}
+	for _, rule := range g.Rules {
+		if defined[rule.Head.Name] {
+			return fmt.Errorf("multiple rules defined for non terminal <%s>",
+				rule.Head.Name)
+		}
+		defined[rule.Head.Name] = true
+	}
+
 	for _, rule := range g.Rules {
 		for _, sequence := range rule.Tail.Sequences {
 			for _, symbol := range sequence.Symbols {
@@ -404,6 +413,17 @@ func checkGrammar(g bnf.Grammar) error {
 						return fmt.Errorf("terminal with empty string in <%s>",
 							rule.Head.Name)
 					}
+					if v.Name[0] == EOS {
+						return fmt.Errorf("terminal starting with NUL, which "+
+							"denotes end of input in a table, in <%s>",
+							rule.Head.Name)
+					}
+
+				case bnf.SymbolNonTerminal:
+					if !defined[v.Name] {
+						return fmt.Errorf("no rules defined for "+
+							"non terminal <%s>", v.Name)
+					}
 
 				case bnf.SymbolNothing:
 					if len(sequence.Symbols) > 1 {
-- 
2.43.0


From 7843cb5d28a943fc7ec28d4993dac9855e819a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 8/9] fix: take the type of escape sequences from the bindings

It was hard coded to 16, the number it has in the shipped BNF grammar, so
bindings for a grammar with another numbering lost escapes (or failed on
whatever has number 16 there).
---
 pkg/bnf/fromcst/fromcst.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/bnf/fromcst/fromcst.go b/pkg/bnf/fromcst/fromcst.go
index bb03b31..868ef19 100644
--- a/pkg/bnf/fromcst/fromcst.go
+++ b/pkg/bnf/fromcst/fromcst.go
@@ -88,6 +88,9 @@ type BNFCSTtoASTBindings struct {
 
 	SymbolNonTerminalType int
 
+	// nonterminal containing full escape sequence inside of a terminal
+	EscapeSequenceType int
+
 	// Content of this type (single character striung) will be used to replace
 	// with corresponding value from EscapeMapping
 	EscapeCharacterType int
@@ -164,7 +167,9 @@ func (b BNFCSTtoASTBindings) parseTerminalName(symbol cst.Node, str string) (str
 	err := lrTraverse(
 		symbol,
 		func(int) bool { return false },
-		func(n int) bool { return n == 16 || n == parser.BuiltinTerminal },
+		func(n int) bool {
+			return n == b.EscapeSequenceType || n == parser.BuiltinTerminal
+		},
 		fOnNode)
 
 	return sb.String(), err
@@ -333,6 +338,7 @@ func SelfCSTtoASTBindings() BNFCSTtoASTBindings {
 		SequencesSymbolType:     9,
 		SymbolTerminalTypes:     []int{11, 12},
 		SymbolNonTerminalType:   18,
+		EscapeSequenceType:      16,
 		EscapeCharacterType:     17,
 		EscapeMapping: map[string]string{
 			`t`: "\t",
-- 
2.43.0


From 6a1e32c52be06720a137a35a21f771fbeefd3fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 9/9] fix: do not reorder the caller's IgnoreNodeTypes in ToAST

---
 pkg/bnf/fromcst/fromcst.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/bnf/fromcst/fromcst.go b/pkg/bnf/fromcst/fromcst.go
index 868ef19..37d4476 100644
--- a/pkg/bnf/fromcst/fromcst.go
+++ b/pkg/bnf/fromcst/fromcst.go
@@ -306,6 +306,8 @@ func (b BNFCSTtoASTBindings) parseRule(rule cst.Node, str string) (*bnf.Rule, er
 
 func (b BNFCSTtoASTBindings) ToAST(root cst.Node, str string) (*bnf.Grammar, error) {
 
+	// sort a copy: the slice is shared with the caller's bindings
+	b.IgnoreNodeTypes = append([]int{}, b.IgnoreNodeTypes...)
 	sort.Sort(sort.IntSlice(b.IgnoreNodeTypes))
 
 	var res bnf.Grammar
-- 
2.43.0

