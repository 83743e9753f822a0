From 5f75fc3e7d92a2990c32264d2fcb3f1c218fb09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:40 +0000
Subject: [PATCH 01/38] fix: do not panic on an "if" whose only argument is
 empty parentheses

---
 util.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util.go b/util.go
index b7af673..1b190eb 100644
--- a/util.go
+++ b/util.go
@@ -80,6 +80,11 @@ func prepareIfArgs(d *Directive) *Directive {
 		if len(d.Args[e]) == 0 {
 			e--
 		}
+		if b > e {
+			// nothing is left of a single argument such as "()"
+			d.Args = []string{}
+			return d
+		}
 		d.Args = d.Args[b : e+1]
 	}
 	return d
-- 
2.43.0


From 489bcb6be0bbd4dd2450874dd78462d70543213a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:46 +0000
Subject: [PATCH 02/38] fix: do not share block contexts between sibling blocks

---
 analyze.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/analyze.go b/analyze.go
index 9f28476..00b5b8b 100644
--- a/analyze.go
+++ b/analyze.go
@@ -135,8 +135,11 @@ func enterBlockCtx(stmt *Directive, ctx blockCtx) blockCtx {
 	if len(ctx) > 0 && ctx[0] == "http" && stmt.Directive == "location" {
 		return blockCtx{"http", "location"}
 	}
-	// no other block contexts can be nested like location so just append it
-	return append(ctx, stmt.Directive)
+	// no other block contexts can be nested like location so just append it;
+	// copy because ctx may still be referenced by files queued for inclusion
+	inner := make(blockCtx, 0, len(ctx)+1)
+	inner = append(inner, ctx...)
+	return append(inner, stmt.Directive)
 }
 
 //nolint:gocyclo,funlen,gocognit
-- 
2.43.0


From 82f765321d8f11a23b3b1c88c6291499f85abc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:38 +0000
Subject: [PATCH 03/38] fix: keep the nesting right after invalid, ignored and
 unterminated statements

A rejected block directive is consumed with its contents, and a "}" that
ends a statement also closes the enclosing block.
---
 parse.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/parse.go b/parse.go
index 58302d3..e97355f 100644
--- a/parse.go
+++ b/parse.go
@@ -312,6 +312,10 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 					if t.Value == "{" && !t.IsQuoted {
 						_, _ = p.parse(parsing, tokens, nil, true)
 					}
+					// the terminator also closed the enclosing block
+					if t.Value == "}" && !t.IsQuoted {
+						break
+					}
 					continue
 				}
 				stmt.IsMapBlockParameter = true
@@ -326,6 +330,10 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 			if t.Value == "{" && !t.IsQuoted {
 				_, _ = p.parse(parsing, tokens, nil, true)
 			}
+			// the terminator also closed the enclosing block
+			if t.Value == "}" && !t.IsQuoted {
+				break
+			}
 			continue
 		}
 
@@ -334,13 +342,13 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 
 		if perr, ok := err.(*ParseError); ok && !p.options.StopParsingOnError {
 			p.handleError(parsing, perr)
-			// if it was a block but shouldn"t have been then consume
-			if strings.HasSuffix(perr.What, ` is not terminated by ";"`) {
-				if t.Value != "}" && !t.IsQuoted {
-					_, _ = p.parse(parsing, tokens, nil, true)
-				} else {
-					break
-				}
+			// if it was a block then consume it, its contents are not part of the enclosing block
+			if t.Value == "{" && !t.IsQuoted {
+				_, _ = p.parse(parsing, tokens, nil, true)
+			}
+			// the terminator also closed the enclosing block
+			if t.Value == "}" && !t.IsQuoted {
+				break
 			}
 			// keep on parsin'
 			continue
@@ -443,6 +451,11 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 				Comment:   &comment,
 			})
 		}
+
+		// the terminator of an unchecked statement also closed the enclosing block
+		if t.Value == "}" && !t.IsQuoted {
+			break
+		}
 	}
 
 	return parsed, nil
-- 
2.43.0


From 5c0ffbb9640b691045972a2b239c39a90b4f5ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:09 +0000
Subject: [PATCH 04/38] fix: report lexer errors found in arguments and in
 consumed blocks

---
 lex.go   |  7 ++++++-
 parse.go | 61 +++++++++++++++++++++++++++++++++++++++-----------------
 2 files changed, 49 insertions(+), 19 deletions(-)

diff --git a/lex.go b/lex.go
index 4b69cbe..1299607 100644
--- a/lex.go
+++ b/lex.go
@@ -331,7 +331,12 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 		emit(tokenStartLine, lexState == inQuote, nil)
 	}
 	if depth > 0 {
-		emit(tokenStartLine, false, &ParseError{File: &lexerFile, What: `unexpected end of file, expecting "}"`, Line: &tokenLine})
+		emit(tokenStartLine, false, &ParseError{
+			File:        &lexerFile,
+			What:        `unexpected end of file, expecting "}"`,
+			Line:        &tokenLine,
+			originalErr: ErrPrematureLexEnd,
+		})
 	}
 
 	close(tokenCh)
diff --git a/parse.go b/parse.go
index e97355f..9cc64eb 100644
--- a/parse.go
+++ b/parse.go
@@ -216,19 +216,7 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 	// parse recursively by pulling from a flat stream of tokens
 	for t := range tokens {
 		if t.Error != nil {
-			var perr *ParseError
-			if errors.As(t.Error, &perr) {
-				perr.File = &parsing.File
-				perr.BlockCtx = ctx.getLastBlock()
-				return nil, perr
-			}
-			return nil, &ParseError{
-				What:        t.Error.Error(),
-				File:        &parsing.File,
-				Line:        &t.Line,
-				originalErr: t.Error,
-				BlockCtx:    ctx.getLastBlock(),
-			}
+			return nil, lexError(parsing, t, ctx)
 		}
 
 		var commentsInArgs []string
@@ -242,7 +230,9 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 		if consume {
 			// if we find a block inside this context, consume it too
 			if t.Value == "{" && !t.IsQuoted {
-				_, _ = p.parse(parsing, tokens, nil, true)
+				if _, err := p.parse(parsing, tokens, ctx, true); err != nil {
+					return nil, err
+				}
 			}
 			continue
 		}
@@ -282,7 +272,19 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 				BlockCtx:    ctx.getLastBlock(),
 			}
 		}
-		for t.IsQuoted || (t.Value != "{" && t.Value != ";" && t.Value != "}") {
+		for t.Error != nil || t.IsQuoted || (t.Value != "{" && t.Value != ";" && t.Value != "}") {
+			if errors.Is(t.Error, ErrPrematureLexEnd) {
+				return nil, &ParseError{
+					What:        ErrPrematureLexEnd.Error(),
+					File:        &parsing.File,
+					Line:        &stmt.Line,
+					originalErr: ErrPrematureLexEnd,
+					BlockCtx:    ctx.getLastBlock(),
+				}
+			}
+			if t.Error != nil {
+				return nil, lexError(parsing, t, ctx)
+			}
 			if !strings.HasPrefix(t.Value, "#") || t.IsQuoted {
 				stmt.Args = append(stmt.Args, t.Value)
 			} else if p.options.ParseComments {
@@ -310,7 +312,9 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 					p.handleError(parsing, mapErr)
 					// consume invalid block
 					if t.Value == "{" && !t.IsQuoted {
-						_, _ = p.parse(parsing, tokens, nil, true)
+						if _, err := p.parse(parsing, tokens, ctx, true); err != nil {
+							return nil, err
+						}
 					}
 					// the terminator also closed the enclosing block
 					if t.Value == "}" && !t.IsQuoted {
@@ -328,7 +332,9 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 		if contains(p.options.IgnoreDirectives, stmt.Directive) {
 			// if this directive was a block consume it too
 			if t.Value == "{" && !t.IsQuoted {
-				_, _ = p.parse(parsing, tokens, nil, true)
+				if _, err := p.parse(parsing, tokens, ctx, true); err != nil {
+					return nil, err
+				}
 			}
 			// the terminator also closed the enclosing block
 			if t.Value == "}" && !t.IsQuoted {
@@ -344,7 +350,9 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 			p.handleError(parsing, perr)
 			// if it was a block then consume it, its contents are not part of the enclosing block
 			if t.Value == "{" && !t.IsQuoted {
-				_, _ = p.parse(parsing, tokens, nil, true)
+				if _, err := p.parse(parsing, tokens, ctx, true); err != nil {
+					return nil, err
+				}
 			}
 			// the terminator also closed the enclosing block
 			if t.Value == "}" && !t.IsQuoted {
@@ -461,6 +469,23 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 	return parsed, nil
 }
 
+// lexError converts the error of a token into the error reported for the file being parsed.
+func lexError(parsing *Config, t NgxToken, ctx blockCtx) error {
+	var perr *ParseError
+	if errors.As(t.Error, &perr) {
+		perr.File = &parsing.File
+		perr.BlockCtx = ctx.getLastBlock()
+		return perr
+	}
+	return &ParseError{
+		What:        t.Error.Error(),
+		File:        &parsing.File,
+		Line:        &t.Line,
+		originalErr: t.Error,
+		BlockCtx:    ctx.getLastBlock(),
+	}
+}
+
 // isAcyclic performs a topological sort to check if there are cycles created by configs' includes.
 // First, it adds any files who are not being referenced by another file to a queue (in degree of 0).
 // For every file in the queue, it will remove the reference it has towards its neighbors.
-- 
2.43.0


From f272ea8256cf5a2b1bebe61c305a34478efc87a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:33 +0000
Subject: [PATCH 05/38] fix: report errors of the reader being lexed instead of
 truncating the config

---
 lex.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lex.go b/lex.go
index 1299607..e248d30 100644
--- a/lex.go
+++ b/lex.go
@@ -330,6 +330,12 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 	if token.Len() > 0 {
 		emit(tokenStartLine, lexState == inQuote, nil)
 	}
+	if err := scanner.Err(); err != nil {
+		// the input is incomplete, do not pass off what was read as the whole of it
+		emit(tokenLine, false, err)
+		close(tokenCh)
+		return
+	}
 	if depth > 0 {
 		emit(tokenStartLine, false, &ParseError{
 			File:        &lexerFile,
-- 
2.43.0


From 02cc76a05a4e631a6a36b9a6b86cb7900a05e32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:38 +0000
Subject: [PATCH 06/38] fix: reject negative include indices and include cycles
 when combining, and leave no goroutines behind

---
 util.go | 86 ++++++++++++++++++++++++++++-----------------------------
 1 file changed, 42 insertions(+), 44 deletions(-)

diff --git a/util.go b/util.go
index 1b190eb..f150e85 100644
--- a/util.go
+++ b/util.go
@@ -13,11 +13,6 @@ import (
 	"unicode"
 )
 
-type included struct {
-	directive *Directive
-	err       error
-}
-
 func contains(xs []string, x string) bool {
 	for _, s := range xs {
 		if s == x {
@@ -120,12 +115,11 @@ func combineConfigs(old *Payload) (*Payload, error) {
 		}
 	}
 
-	for incl := range performIncludes(old, combined.File, old.Config[0].Parsed) {
-		if incl.err != nil {
-			return nil, incl.err
-		}
-		combined.Parsed = append(combined.Parsed, incl.directive)
+	parsed, err := performIncludes(old, combined.File, old.Config[0].Parsed, []int{0})
+	if err != nil {
+		return nil, err
 	}
+	combined.Parsed = append(combined.Parsed, parsed...)
 
 	return &Payload{
 		Status: status,
@@ -134,44 +128,48 @@ func combineConfigs(old *Payload) (*Payload, error) {
 	}, nil
 }
 
-func performIncludes(old *Payload, fromfile string, block Directives) chan included {
-	c := make(chan included)
-	go func() {
-		defer close(c)
-		for _, d := range block {
-			dir := *d
-			if dir.IsBlock() {
-				nblock := Directives{}
-				for incl := range performIncludes(old, fromfile, dir.Block) {
-					if incl.err != nil {
-						c <- incl
-						return
-					}
-					nblock = append(nblock, incl.directive)
-				}
-				dir.Block = nblock
+// performIncludes returns block with its include directives replaced by the contents of the included configs.
+// The indices of the configs being included are kept in active.
+func performIncludes(old *Payload, fromfile string, block Directives, active []int) (Directives, error) {
+	parsed := Directives{}
+	for _, d := range block {
+		dir := *d
+		if dir.IsBlock() {
+			nblock, err := performIncludes(old, fromfile, dir.Block, active)
+			if err != nil {
+				return nil, err
 			}
-			if !dir.IsInclude() {
-				c <- included{directive: &dir}
-				continue
+			dir.Block = nblock
+		}
+		if !dir.IsInclude() {
+			parsed = append(parsed, &dir)
+			continue
+		}
+		for _, idx := range dir.Includes {
+			if idx < 0 || idx >= len(old.Config) {
+				return nil, &ParseError{
+					What:      fmt.Sprintf("include config with index: %d", idx),
+					File:      &fromfile,
+					Line:      &dir.Line,
+					Statement: dir.String(),
+				}
 			}
-			for _, idx := range dir.Includes {
-				if idx >= len(old.Config) {
-					c <- included{
-						err: &ParseError{
-							What:      fmt.Sprintf("include config with index: %d", idx),
-							File:      &fromfile,
-							Line:      &dir.Line,
-							Statement: dir.String(),
-						},
+			for _, a := range active {
+				if a == idx {
+					return nil, &ParseError{
+						What:      fmt.Sprintf("include cycle of config with index: %d", idx),
+						File:      &fromfile,
+						Line:      &dir.Line,
+						Statement: dir.String(),
 					}
-					return
-				}
-				for incl := range performIncludes(old, old.Config[idx].File, old.Config[idx].Parsed) {
-					c <- incl
 				}
 			}
+			included, err := performIncludes(old, old.Config[idx].File, old.Config[idx].Parsed, append(active[:len(active):len(active)], idx))
+			if err != nil {
+				return nil, err
+			}
+			parsed = append(parsed, included...)
 		}
-	}()
-	return c
+	}
+	return parsed, nil
 }
-- 
2.43.0


From a5a4c80196f22658b3102ac74c68bf3cda95d52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 07/38] fix: do not leave the lexer behind when parsing stops
 early

---
 parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse.go b/parse.go
index 9cc64eb..6569344 100644
--- a/parse.go
+++ b/parse.go
@@ -177,6 +177,9 @@ func Parse(filename string, options *ParseOptions) (*Payload, error) {
 			Parsed: Directives{},
 		}
 		parsed, err := p.parse(&config, tokens, incl.ctx, false)
+		// let the lexer finish, after an error there may be more tokens than its channel holds
+		for range tokens { //nolint:revive
+		}
 		if err != nil {
 			if options.StopParsingOnError {
 				return nil, err
-- 
2.43.0


From 6efd8d88017b747ea212e7ecea064e490b9ec1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 08/38] fix: do not modify the options of the caller

---
 build.go | 8 ++++++++
 parse.go | 5 ++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/build.go b/build.go
index 0544817..91c50cc 100644
--- a/build.go
+++ b/build.go
@@ -85,6 +85,10 @@ func BuildFiles(payload Payload, dir string, options *BuildOptions) error {
 		dir = cwd
 	}
 
+	// the options belong to the caller, who may be using them concurrently
+	opts := *options
+	options = &opts
+
 	for _, o := range options.Builders {
 		o.applyBuildOptions(options)
 	}
@@ -126,6 +130,10 @@ func BuildFiles(payload Payload, dir string, options *BuildOptions) error {
 
 // Build creates an NGINX config from a crossplane.Config.
 func Build(w io.Writer, config Config, options *BuildOptions) error {
+	// the options belong to the caller, who may be using them concurrently
+	opts := *options
+	options = &opts
+
 	if options.Indent == 0 {
 		options.Indent = 4
 	}
diff --git a/parse.go b/parse.go
index 6569344..fd3694f 100644
--- a/parse.go
+++ b/parse.go
@@ -123,7 +123,10 @@ func Parse(filename string, options *ParseOptions) (*Payload, error) {
 		Config: []Config{},
 	}
 	if options.Glob == nil {
-		options.Glob = filepath.Glob
+		// the options belong to the caller, who may be using them concurrently
+		opts := *options
+		opts.Glob = filepath.Glob
+		options = &opts
 	}
 
 	handleError := func(config *Config, err error) {
-- 
2.43.0


From 983004766960da5c24ae734e25322d93e0b04e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:47 +0000
Subject: [PATCH 09/38] fix: quote arguments so that they are read back
 unchanged

---
 build.go |  5 +++--
 util.go  | 45 +++++++++++++++++++++++++++++++++++++--------
 2 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/build.go b/build.go
index 91c50cc..8a676b1 100644
--- a/build.go
+++ b/build.go
@@ -246,7 +246,7 @@ func Enquote(arg string) string {
 	if !needsQuote(arg) {
 		return arg
 	}
-	return strings.ReplaceAll(repr(arg), `\\`, `\`)
+	return repr(arg)
 }
 
 //nolint:gocyclo
@@ -268,7 +268,8 @@ func needsQuote(s string) bool {
 	char, off := utf8.DecodeRuneInString(chars)
 
 	// arguments can't start with variable expansion syntax
-	if unicode.IsSpace(char) || strings.ContainsRune("{};\"'", char) || strings.HasPrefix(chars, "${") {
+	// nor can they look like a comment
+	if unicode.IsSpace(char) || strings.ContainsRune("{};\"'#", char) || strings.HasPrefix(chars, "${") {
 		return true
 	}
 
diff --git a/util.go b/util.go
index f150e85..0449405 100644
--- a/util.go
+++ b/util.go
@@ -30,17 +30,46 @@ func isEOL(s string) bool {
 	return strings.HasSuffix(s, "\n")
 }
 
+// repr puts s in quotes. Escape sequences in s are kept as they are, so a quote that already follows a backslash
+// must not be the one used.
 func repr(s string) string {
-	q := fmt.Sprintf("%q", s)
-	for _, char := range s {
-		if char == '"' {
-			q = strings.ReplaceAll(q, `\"`, `"`)
-			q = strings.ReplaceAll(q, `'`, `\'`)
-			q = `'` + q[1:len(q)-1] + `'`
-			return q
+	quote := byte('"')
+	if strings.Contains(s, `"`) && !hasEscaped(s, '\'') || hasEscaped(s, '"') {
+		quote = '\''
+	}
+	sb := strings.Builder{}
+	sb.WriteByte(quote)
+	for i := 0; i < len(s); i++ {
+		switch c := s[i]; {
+		case c == '\\' && i+1 < len(s) && s[i+1] != quote:
+			sb.WriteString(s[i : i+2])
+			i++
+		case c == '\\':
+			sb.WriteString(`\\`)
+		case c == quote:
+			sb.WriteByte('\\')
+			sb.WriteByte(c)
+		case c == '\r':
+			sb.WriteString(`\r`)
+		default:
+			sb.WriteByte(c)
 		}
 	}
-	return q
+	sb.WriteByte(quote)
+	return sb.String()
+}
+
+// hasEscaped tells whether s has a backslash followed by c.
+func hasEscaped(s string, c byte) bool {
+	for i := 0; i+1 < len(s); i++ {
+		if s[i] == '\\' {
+			if s[i+1] == c {
+				return true
+			}
+			i++
+		}
+	}
+	return false
 }
 
 func validFlag(s string) bool {
-- 
2.43.0


From 3873fcf4c335964ecfad7d1b4a9e6c32f0f1c27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:59 +0000
Subject: [PATCH 10/38] fix: keep quotes of the first argument of "if" from
 becoming part of it

---
 build.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/build.go b/build.go
index 8a676b1..f4eeb10 100644
--- a/build.go
+++ b/build.go
@@ -198,10 +198,12 @@ func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth i
 			if directive == "if" {
 				_, _ = sb.WriteString(" (")
 				for i, arg := range stmt.Args {
-					if i > 0 {
+					quoted := Enquote(arg)
+					// a quote right after the parenthesis would not be taken as one
+					if i > 0 || quoted != arg {
 						_, _ = sb.WriteString(" ")
 					}
-					_, _ = sb.WriteString(Enquote(arg))
+					_, _ = sb.WriteString(quoted)
 				}
 				_, _ = sb.WriteString(")")
 			} else {
-- 
2.43.0


From 88cf47da79648123716599daad542753be620d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:05 +0000
Subject: [PATCH 11/38] fix: keep empty blocks in JSON

---
 types.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/types.go b/types.go
index 5d6dc64..28c116b 100644
--- a/types.go
+++ b/types.go
@@ -8,6 +8,7 @@
 package crossplane
 
 import (
+	"encoding/json"
 	"fmt"
 	"strings"
 )
@@ -144,3 +145,15 @@ func (d *Directive) String() string {
 func (p *Payload) Combined() (*Payload, error) {
 	return combineConfigs(p)
 }
+
+// MarshalJSON keeps an empty block, which would otherwise be read back as a directive that is not a block.
+func (d *Directive) MarshalJSON() ([]byte, error) {
+	type directive Directive
+	if !d.IsBlock() || len(d.Block) > 0 {
+		return json.Marshal((*directive)(d))
+	}
+	return json.Marshal(struct {
+		*directive
+		Block Directives `json:"block"`
+	}{(*directive)(d), d.Block})
+}
-- 
2.43.0


From a06b79b3e1b871c1dead77aabde7a5bdf2624bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:46 +0000
Subject: [PATCH 12/38] fix: recognise directives for external lexers by
 position, not by line

---
 lex.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lex.go b/lex.go
index e248d30..55fd897 100644
--- a/lex.go
+++ b/lex.go
@@ -163,7 +163,6 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 			la = scanner.Text()
 			if isEOL(la) {
 				tokenLine++
-				nextTokenIsDirective = true
 			}
 		} else {
 			readNext = true
@@ -220,7 +219,6 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 				newToken = false
 				if la == "#" {
 					token.WriteString(la)
-					nextTokenIsDirective = false
 					lexState = inComment
 					tokenStartLine = tokenLine
 					continue
@@ -318,6 +316,7 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 		case inQuote:
 			if la == quote {
 				emit(tokenStartLine, true, nil)
+				nextTokenIsDirective = false
 				continue
 			}
 			if la == "\\"+quote {
-- 
2.43.0


From 1fa649ab548f0cfd48bcf99a98191d407bf400d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:27 +0000
Subject: [PATCH 13/38] fix: hand over to external lexers only at the end of
 the directive name

---
 lex.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/lex.go b/lex.go
index 55fd897..1d52934 100644
--- a/lex.go
+++ b/lex.go
@@ -107,11 +107,16 @@ func Lex(reader io.Reader) chan NgxToken {
 type SubScanner struct {
 	scanner   *bufio.Scanner
 	tokenLine int
+	rescan    bool // the current token of scanner has not been scanned yet
 }
 
 // Scan advances the scanner to the next token which will be available though the Text method. It returns false
 // when the scan stops by reaching the end of input.
 func (e *SubScanner) Scan() bool {
+	if e.rescan {
+		e.rescan = false
+		return true
+	}
 	if !e.scanner.Scan() {
 		return false
 	}
@@ -184,23 +189,19 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 
 		if token.Len() > 0 {
 			tokenStr := token.String()
-			if nextTokenIsDirective {
+			// the directive must be complete
+			complete := lexState == inWord && (isSpace(la) || la == "{") || lexState == inQuote && la == quote
+			if nextTokenIsDirective && complete {
 				if ext, ok := options.extLexers[tokenStr]; ok {
-					// saving lex state before emitting tokenStr to know if we encountered start quote
-					lastLexState := lexState
 					emit(tokenStartLine, lexState == inQuote, nil)
 
-					externalScanner := &SubScanner{scanner: scanner, tokenLine: tokenLine}
+					externalScanner := &SubScanner{scanner: scanner, tokenLine: tokenLine, rescan: la == "{"}
 					extTokenCh := ext.Lex(externalScanner, tokenStr)
 					for tok := range extTokenCh {
 						tokenCh <- tok
 					}
 					tokenLine = externalScanner.tokenLine
-
-					// if we detected a start quote and current char after external lexer processing is end quote we skip it
-					if lastLexState == inQuote && la == quote {
-						continue
-					}
+					continue
 				}
 			}
 		}
-- 
2.43.0


From 35332df59a58c217f8f88ff718ede5c964290a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:59 +0000
Subject: [PATCH 14/38] fix: reject files and statements that start with ";" or
 "{"

---
 lex.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lex.go b/lex.go
index 1d52934..9f1d96a 100644
--- a/lex.go
+++ b/lex.go
@@ -143,7 +143,7 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 
 	lexState := skipSpace
 	newToken := false
-	dupSpecialChar := false
+	dupSpecialChar := true // a statement can't start with a special character
 	readNext := true
 	esc := false
 	depth := 0
@@ -199,6 +199,7 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 					extTokenCh := ext.Lex(externalScanner, tokenStr)
 					for tok := range extTokenCh {
 						tokenCh <- tok
+						dupSpecialChar = !tok.IsQuoted && (tok.Value == ";" || tok.Value == "{" || tok.Value == "}")
 					}
 					tokenLine = externalScanner.tokenLine
 					continue
-- 
2.43.0


From f70d220a259869c191975ea1bf9a16f78096e776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:06 +0000
Subject: [PATCH 15/38] fix: do not overlook a quote opened at the very end of
 a file

---
 lex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex.go b/lex.go
index 9f1d96a..0d6a957 100644
--- a/lex.go
+++ b/lex.go
@@ -328,7 +328,7 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 		}
 	}
 
-	if token.Len() > 0 {
+	if token.Len() > 0 || lexState == inQuote {
 		emit(tokenStartLine, lexState == inQuote, nil)
 	}
 	if err := scanner.Err(); err != nil {
-- 
2.43.0


From d7c6c17a7ca4cc9f1b9f8daed9690f1746acc8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:55 +0000
Subject: [PATCH 16/38] fix: record the line on which a token starts

---
 lex.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lex.go b/lex.go
index 0d6a957..9c37853 100644
--- a/lex.go
+++ b/lex.go
@@ -214,6 +214,9 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 				newToken = true
 				readNext = false // re-eval
 				tokenStartLine = tokenLine
+				if isEOL(la) {
+					tokenStartLine-- // the token starts with a backslash on the line before
+				}
 			}
 			continue
 		case inWord:
@@ -262,6 +265,7 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 				// if token complete yield it and reset token buffer
 				if token.Len() > 0 {
 					emit(tokenStartLine, false, nil)
+					tokenStartLine = tokenLine
 				}
 
 				// only '}' can be repeated
-- 
2.43.0


From 8e8c0130e3182c0720b3e6b2a77c86ce0fab844f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:23 +0000
Subject: [PATCH 17/38] fix: do not HTML-escape generated Go code

---
 internal/generator/generator_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/generator_util.go b/internal/generator/generator_util.go
index 615265b..68e25b2 100644
--- a/internal/generator/generator_util.go
+++ b/internal/generator/generator_util.go
@@ -11,13 +11,13 @@ import (
 	_ "embed"
 	"errors"
 	"fmt"
-	"html/template"
 	"io"
 	"io/fs"
 	"os"
 	"path/filepath"
 	"regexp"
 	"strings"
+	"text/template"
 )
 
 // A Mask is a list of string, includes several variable names,
-- 
2.43.0


From 431e230556bb0ac834c0f416ff11da0d79b3b4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:38 +0000
Subject: [PATCH 18/38] fix: recognise comments in generator sources by where
 they start

---
 internal/generator/generator_util.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/internal/generator/generator_util.go b/internal/generator/generator_util.go
index 68e25b2..940a3a3 100644
--- a/internal/generator/generator_util.go
+++ b/internal/generator/generator_util.go
@@ -44,11 +44,10 @@ var (
 	//   {bitmask1|bitmask2|...},
 	//   ... },
 	// this regex extracts {directive_name} and {bitmask1|bitmask2|...}.
-	singleDirectiveExtracter = regexp.MustCompile(`ngx_string\("(.*?)"\).*?,(.*?),`)
+	singleDirectiveExtracter = regexp.MustCompile(`ngx_string\(\s*"(.*?)"\s*\).*?,(.*?),`)
 
-	singleLineCommentExtracter = regexp.MustCompile(`//.*`)
-
-	multiLineCommentExtracter = regexp.MustCompile(`/\*[\s\S]*?\*/`)
+	// Extract comments, and the string and character literals in which there are no comments.
+	commentExtracter = regexp.MustCompile(`"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'|//.*|/\*[\s\S]*?\*/`)
 )
 
 // Template of support file. A support file contains a map from
@@ -109,10 +108,14 @@ func masksFromFile(path string) (directive2Masks map[string][]Mask, err error) {
 	strContent := string(byteContent)
 
 	// Remove comments
-	strContent = singleLineCommentExtracter.ReplaceAllString(strContent, "")
-	strContent = multiLineCommentExtracter.ReplaceAllString(strContent, "")
-	strContent = strings.ReplaceAll(strContent, "\r\n", "")
-	strContent = strings.ReplaceAll(strContent, "\n", "")
+	strContent = commentExtracter.ReplaceAllStringFunc(strContent, func(s string) string {
+		if s[0] == '/' {
+			return " "
+		}
+		return s
+	})
+	strContent = strings.ReplaceAll(strContent, "\r\n", " ")
+	strContent = strings.ReplaceAll(strContent, "\n", " ")
 
 	// Extract directives definition code blocks, each code block contains a list of directives definition
 	blocks := directivesDefineBlockExtracter.FindAllStringSubmatch(strContent, -1)
-- 
2.43.0


From 87791bfaf0df28b38b4429abf3e7fdd7b5fda8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:30 +0000
Subject: [PATCH 19/38] fix: end lexing at an error of an external lexer

---
 lex.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lex.go b/lex.go
index 9c37853..76de7cd 100644
--- a/lex.go
+++ b/lex.go
@@ -197,10 +197,19 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 
 					externalScanner := &SubScanner{scanner: scanner, tokenLine: tokenLine, rescan: la == "{"}
 					extTokenCh := ext.Lex(externalScanner, tokenStr)
+					failed := false
 					for tok := range extTokenCh {
+						if failed {
+							continue
+						}
 						tokenCh <- tok
+						failed = tok.Error != nil
 						dupSpecialChar = !tok.IsQuoted && (tok.Value == ";" || tok.Value == "{" || tok.Value == "}")
 					}
+					if failed {
+						close(tokenCh)
+						return
+					}
 					tokenLine = externalScanner.tokenLine
 					continue
 				}
-- 
2.43.0


From 1fb2a958bef3608487a25df56ff4fc84c9c5420a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:57 +0000
Subject: [PATCH 20/38] fix: lex all Lua block directives known to the Lua
 match function

precontent_by_lua_block, proxy_ssl_certificate_by_lua_block and
proxy_ssl_verify_by_lua_block are in the generated table, but their blocks
were lexed as NGINX configuration.
---
 analyze_lua_directives.gen.go            | 6 +++---
 lua.go                                   | 3 +++
 scripts/generate/configs/lua_config.json | 5 ++++-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/analyze_lua_directives.gen.go b/analyze_lua_directives.gen.go
index 424b9dd..3c01a63 100644
--- a/analyze_lua_directives.gen.go
+++ b/analyze_lua_directives.gen.go
@@ -209,7 +209,7 @@ var luaDirectives = map[string][]uint{
         ngxHTTPMainConf | ngxConfTake1,
     },
     "precontent_by_lua_block": {
-        ngxHTTPMainConf | ngxHTTPSrvConf | ngxHTTPLocConf | ngxHTTPLifConf | ngxConfBlock | ngxConfNoArgs,
+        ngxHTTPMainConf | ngxHTTPSrvConf | ngxHTTPLocConf | ngxHTTPLifConf | ngxConfTake1,
     },
     "precontent_by_lua_file": {
         ngxHTTPMainConf | ngxHTTPSrvConf | ngxHTTPLocConf | ngxHTTPLifConf | ngxConfTake1,
@@ -218,13 +218,13 @@ var luaDirectives = map[string][]uint{
         ngxHTTPMainConf | ngxConfFlag,
     },
     "proxy_ssl_certificate_by_lua_block": {
-        ngxHTTPLocConf | ngxHTTPLifConf | ngxConfBlock | ngxConfNoArgs,
+        ngxHTTPLocConf | ngxHTTPLifConf | ngxConfTake1,
     },
     "proxy_ssl_certificate_by_lua_file": {
         ngxHTTPLocConf | ngxHTTPLifConf | ngxConfTake1,
     },
     "proxy_ssl_verify_by_lua_block": {
-        ngxHTTPLocConf | ngxHTTPLifConf | ngxConfBlock | ngxConfNoArgs,
+        ngxHTTPLocConf | ngxHTTPLifConf | ngxConfTake1,
     },
     "proxy_ssl_verify_by_lua_file": {
         ngxHTTPLocConf | ngxHTTPLifConf | ngxConfTake1,
diff --git a/lua.go b/lua.go
index dd4a45b..8e257a2 100644
--- a/lua.go
+++ b/lua.go
@@ -40,6 +40,9 @@ func (l *Lua) directiveNames() []string {
 		"ssl_certificate_by_lua_block",
 		"ssl_session_fetch_by_lua_block",
 		"ssl_session_store_by_lua_block",
+		"precontent_by_lua_block",
+		"proxy_ssl_certificate_by_lua_block",
+		"proxy_ssl_verify_by_lua_block",
 	}
 }
 
diff --git a/scripts/generate/configs/lua_config.json b/scripts/generate/configs/lua_config.json
index f368065..07eeeb7 100644
--- a/scripts/generate/configs/lua_config.json
+++ b/scripts/generate/configs/lua_config.json
@@ -17,7 +17,10 @@
         "access_by_lua_block":[["ngxHTTPMainConf", "ngxHTTPSrvConf", "ngxHTTPLocConf", "ngxHTTPLifConf", "ngxConfTake1"]],
         "balancer_by_lua_block":[["ngxHTTPUpsConf", "ngxConfTake1"]],
         "server_rewrite_by_lua_block":[["ngxHTTPMainConf", "ngxHTTPSrvConf", "ngxConfTake1"]],
-        "exit_worker_by_lua_block":[["ngxHTTPMainConf", "ngxConfTake1"]]
+        "exit_worker_by_lua_block":[["ngxHTTPMainConf", "ngxConfTake1"]],
+        "precontent_by_lua_block":[["ngxHTTPMainConf", "ngxHTTPSrvConf", "ngxHTTPLocConf", "ngxHTTPLifConf", "ngxConfTake1"]],
+        "proxy_ssl_certificate_by_lua_block":[["ngxHTTPLocConf", "ngxHTTPLifConf", "ngxConfTake1"]],
+        "proxy_ssl_verify_by_lua_block":[["ngxHTTPLocConf", "ngxHTTPLifConf", "ngxConfTake1"]]
     },
     "matchFuncComment":"MatchLuaLatest is a MatchFunc for latest version of Lua."
 }
-- 
2.43.0


From 1869ba23ded268f0baf32787f9898ebf02f76517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:27 +0000
Subject: [PATCH 21/38] fix: variable of set_by_lua_block: brace glued to it,
 line, omission

The variable had the line of the white space after it, a block directly after
it became part of it, and without a variable the opening brace was taken for it.
---
 lua.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/lua.go b/lua.go
index 8e257a2..a08a7e3 100644
--- a/lua.go
+++ b/lua.go
@@ -70,26 +70,35 @@ func (l *Lua) Lex(s *SubScanner, matchedToken string) <-chan NgxToken {
 		// ignore potential hardcoded credentials linter warning for "set_by_lua_block"
 		if matchedToken == setByLuaBlock /* #nosec G101 */ {
 			arg := ""
+			argLine := 0
 			for {
 				if !s.Scan() {
 					return
 				}
 				next := s.Text()
 				if isSpace(next) {
-					if arg != "" {
-						tokenCh <- NgxToken{Value: arg, Line: s.Line(), IsQuoted: false}
-						break
+					if arg == "" {
+						continue
 					}
-
-					for isSpace(next) {
-						if !s.Scan() {
-							return
-						}
-						next = s.Text()
+					break
+				}
+				delimiter := next == "{" || next == ";" || next == "}"
+				if delimiter && !strings.HasPrefix(arg+next, "${") {
+					if arg == "" || next != "{" {
+						lineno := s.Line()
+						tokenCh <- NgxToken{Error: &ParseError{File: &lexerFile, What: fmt.Sprintf(`unexpected "%s"`, next), Line: &lineno}}
+						return
 					}
+					// the block follows its variable directly
+					s.rescan = true
+					break
+				}
+				if arg == "" {
+					argLine = s.Line()
 				}
 				arg += next
 			}
+			tokenCh <- NgxToken{Value: arg, Line: argLine, IsQuoted: false}
 		}
 
 		// check that Lua block starts correctly
-- 
2.43.0


From 14287c1509e56198678fcb581fe2efa84529a5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:59 +0000
Subject: [PATCH 22/38] fix: let the lexer report read errors inside Lua blocks

The Lua lexer reported them without the original error, once for every
character that was left in the buffer.
---
 lua.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/lua.go b/lua.go
index a08a7e3..15cf3e7 100644
--- a/lua.go
+++ b/lua.go
@@ -126,10 +126,6 @@ func (l *Lua) Lex(s *SubScanner, matchedToken string) <-chan NgxToken {
 			}
 
 			next := s.Text()
-			if err := s.Err(); err != nil {
-				lineno := s.Line()
-				tokenCh <- NgxToken{Error: &ParseError{File: &lexerFile, What: err.Error(), Line: &lineno}}
-			}
 
 			switch {
 			case next == "{" && !inQuotes:
-- 
2.43.0


From a6f50d73539bb134e83dc7d0a428f92c4fad8e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:37 +0000
Subject: [PATCH 23/38] fix: keep comments among the values of map-like block
 entries

---
 parse.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/parse.go b/parse.go
index fd3694f..9cc1d0c 100644
--- a/parse.go
+++ b/parse.go
@@ -329,7 +329,7 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 					continue
 				}
 				stmt.IsMapBlockParameter = true
-				parsed = append(parsed, stmt)
+				parsed = appendComments(append(parsed, stmt), stmt, commentsInArgs)
 				continue
 			}
 		}
@@ -455,16 +455,7 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 		parsed = append(parsed, stmt)
 
 		// add all comments found inside args after stmt is added
-		for _, comment := range commentsInArgs {
-			comment := comment
-			parsed = append(parsed, &Directive{
-				Directive: "#",
-				Line:      stmt.Line,
-				Args:      []string{},
-				File:      fileName,
-				Comment:   &comment,
-			})
-		}
+		parsed = appendComments(parsed, stmt, commentsInArgs)
 
 		// the terminator of an unchecked statement also closed the enclosing block
 		if t.Value == "}" && !t.IsQuoted {
@@ -475,6 +466,21 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 	return parsed, nil
 }
 
+// appendComments adds the comments found inside the args of stmt.
+func appendComments(parsed Directives, stmt *Directive, comments []string) Directives {
+	for _, comment := range comments {
+		comment := comment
+		parsed = append(parsed, &Directive{
+			Directive: "#",
+			Line:      stmt.Line,
+			Args:      []string{},
+			File:      stmt.File,
+			Comment:   &comment,
+		})
+	}
+	return parsed
+}
+
 // lexError converts the error of a token into the error reported for the file being parsed.
 func lexError(parsing *Config, t NgxToken, ctx blockCtx) error {
 	var perr *ParseError
-- 
2.43.0


From c20534d62405fddb1ff0a3a020c83a64912a10fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:29 +0000
Subject: [PATCH 24/38] fix: a bad include statement does not discard the rest
 of its file

An include pattern that cannot be matched and an include without arguments
(arguments not being checked) made the whole file be dropped, the former
without a line number.
---
 parse.go | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/parse.go b/parse.go
index 9cc1d0c..eb0b276 100644
--- a/parse.go
+++ b/parse.go
@@ -351,6 +351,19 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 
 		// raise errors if this statement is invalid
 		err = analyze(parsing.File, stmt, t.Value, ctx, p.options)
+		if err == nil && !p.options.SingleFile && stmt.Directive == "include" && len(stmt.Args) == 0 {
+			err = &ParseError{
+				What: fmt.Sprintf(`invalid number of arguments in "%s" directive in %s:%d`,
+					stmt.Directive,
+					parsing.File,
+					stmt.Line,
+				),
+				File:      &parsing.File,
+				Line:      &stmt.Line,
+				Statement: stmt.String(),
+				BlockCtx:  ctx.getLastBlock(),
+			}
+		}
 
 		if perr, ok := err.(*ParseError); ok && !p.options.StopParsingOnError {
 			p.handleError(parsing, perr)
@@ -377,20 +390,6 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 
 		// add "includes" to the payload if this is an include statement
 		if !p.options.SingleFile && stmt.Directive == "include" {
-			if len(stmt.Args) == 0 {
-				return nil, &ParseError{
-					What: fmt.Sprintf(`invalid number of arguments in "%s" directive in %s:%d`,
-						stmt.Directive,
-						parsing.File,
-						stmt.Line,
-					),
-					File:      &parsing.File,
-					Line:      &stmt.Line,
-					Statement: stmt.String(),
-					BlockCtx:  ctx.getLastBlock(),
-				}
-			}
-
 			pattern := stmt.Args[0]
 			if !filepath.IsAbs(pattern) {
 				pattern = filepath.Join(p.configDir, pattern)
@@ -399,10 +398,23 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 			// get names of all included files
 			var fnames []string
 			if hasMagic.MatchString(pattern) {
-				fnames, err = p.options.Glob(pattern)
+				matches, err := p.options.Glob(pattern)
 				if err != nil {
-					return nil, err
+					perr := &ParseError{
+						What:        err.Error(),
+						File:        &parsing.File,
+						Line:        &stmt.Line,
+						Statement:   stmt.String(),
+						BlockCtx:    ctx.getLastBlock(),
+						originalErr: err,
+					}
+					if p.options.StopParsingOnError {
+						return nil, perr
+					}
+					p.handleError(parsing, perr)
 				}
+				// the slice belongs to the Glob function
+				fnames = append(fnames, matches...)
 				sort.Strings(fnames)
 			} else {
 				// if the file pattern was explicit, nginx will check
-- 
2.43.0


From 106a5f4eb6b4542d93baad9ebda76d1e1749472c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:07 +0000
Subject: [PATCH 25/38] fix: do not mistake blocks with odd names for known
 contexts

A block named "" was taken for the main context and one named "http>server"
for a server block in http.
---
 analyze.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/analyze.go b/analyze.go
index 00b5b8b..885837f 100644
--- a/analyze.go
+++ b/analyze.go
@@ -54,6 +54,8 @@ package crossplane
 
 import (
 	"fmt"
+	"strconv"
+	"strings"
 )
 
 // bit masks for different directive argument styles.
@@ -139,7 +141,12 @@ func enterBlockCtx(stmt *Directive, ctx blockCtx) blockCtx {
 	// copy because ctx may still be referenced by files queued for inclusion
 	inner := make(blockCtx, 0, len(ctx)+1)
 	inner = append(inner, ctx...)
-	return append(inner, stmt.Directive)
+	name := stmt.Directive
+	if name == "" || strings.Contains(name, ">") {
+		// must not be mistaken for known contexts
+		name = strconv.Quote(name)
+	}
+	return append(inner, name)
 }
 
 //nolint:gocyclo,funlen,gocognit
-- 
2.43.0


From a4d8a7750f1c611f209d8bb60533521ac750963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:20 +0000
Subject: [PATCH 26/38] fix: see that the first character of a value can be a
 backslash

---
 build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build.go b/build.go
index f4eeb10..83de461 100644
--- a/build.go
+++ b/build.go
@@ -278,7 +278,7 @@ func needsQuote(s string) bool {
 	chars = chars[off:]
 
 	expanding := false
-	var prev rune
+	prev := char // the second character may be escaped by the first
 	for _, c := range chars {
 		char = c
 
-- 
2.43.0


From 7deb287b3ac76941faef4c1f248278ecd7a2ad32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:26 +0000
Subject: [PATCH 27/38] fix: build entries of map-like blocks named if like any
 other

---
 build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build.go b/build.go
index 83de461..5c18759 100644
--- a/build.go
+++ b/build.go
@@ -195,7 +195,7 @@ func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth i
 			_, _ = sb.WriteString(directive)
 
 			// special handling for if statements
-			if directive == "if" {
+			if directive == "if" && !stmt.IsMapBlockParameter {
 				_, _ = sb.WriteString(" (")
 				for i, arg := range stmt.Args {
 					quoted := Enquote(arg)
-- 
2.43.0


From 5f63ae7fd3480e3b996e9d002d24e7826ab6ff6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:30 +0000
Subject: [PATCH 28/38] fix: keep an escaped white space at the end of the
 arguments of if

---
 build.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/build.go b/build.go
index 5c18759..e41ca4e 100644
--- a/build.go
+++ b/build.go
@@ -204,6 +204,10 @@ func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth i
 						_, _ = sb.WriteString(" ")
 					}
 					_, _ = sb.WriteString(quoted)
+					// an escaped white space right before the parenthesis would be taken off with it
+					if i == len(stmt.Args)-1 && strings.TrimRightFunc(quoted, unicode.IsSpace) != quoted {
+						_, _ = sb.WriteString(" ")
+					}
 				}
 				_, _ = sb.WriteString(")")
 			} else {
-- 
2.43.0


From 26e499d4211cf64bf5993f8d20c3b38212ac8119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:36 +0000
Subject: [PATCH 29/38] fix: write values that cannot be quoted as words where
 they are words

---
 build.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/build.go b/build.go
index e41ca4e..ccd60ae 100644
--- a/build.go
+++ b/build.go
@@ -199,6 +199,19 @@ func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth i
 				_, _ = sb.WriteString(" (")
 				for i, arg := range stmt.Args {
 					quoted := Enquote(arg)
+					if !quotable(arg) {
+						// next to the parentheses, it can be part of a word
+						word := arg
+						if i == 0 {
+							word = "(" + word
+						}
+						if i == len(stmt.Args)-1 {
+							word += ")"
+						}
+						if isWord(word) {
+							quoted = arg
+						}
+					}
 					// a quote right after the parenthesis would not be taken as one
 					if i > 0 || quoted != arg {
 						_, _ = sb.WriteString(" ")
@@ -249,12 +262,32 @@ func margin(options *BuildOptions, depth int) string {
 }
 
 func Enquote(arg string) string {
-	if !needsQuote(arg) {
+	if !needsQuote(arg) || !quotable(arg) && isWord(arg) {
 		return arg
 	}
 	return repr(arg)
 }
 
+// quotable tells whether there are quotes in which s can be put without becoming another value: a backslash before a
+// quote of the same kind, or at the end, would belong to that quote.
+func quotable(s string) bool {
+	backslashes := len(s) - len(strings.TrimRight(s, `\`))
+	return backslashes%2 == 0 && !(hasEscaped(s, '"') && hasEscaped(s, '\''))
+}
+
+// isWord tells whether s is a single unquoted token when written as it is.
+func isWord(s string) bool {
+	var values []string
+	for t := range Lex(strings.NewReader(s + ";")) {
+		if t.Error != nil || t.IsQuoted {
+			values = nil
+			continue
+		}
+		values = append(values, t.Value)
+	}
+	return equals(values, []string{s, ";"})
+}
+
 //nolint:gocyclo
 func needsQuote(s string) bool {
 	if s == "" {
-- 
2.43.0


From bd9438beb4ef668a8c697b25a30377de0924bb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:36 +0000
Subject: [PATCH 30/38] fix: keep empty blocks in JSON of directives encoded by
 value

---
 types.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/types.go b/types.go
index 28c116b..2b97dd0 100644
--- a/types.go
+++ b/types.go
@@ -147,13 +147,13 @@ func (p *Payload) Combined() (*Payload, error) {
 }
 
 // MarshalJSON keeps an empty block, which would otherwise be read back as a directive that is not a block.
-func (d *Directive) MarshalJSON() ([]byte, error) {
+func (d Directive) MarshalJSON() ([]byte, error) {
 	type directive Directive
 	if !d.IsBlock() || len(d.Block) > 0 {
-		return json.Marshal((*directive)(d))
+		return json.Marshal(directive(d))
 	}
 	return json.Marshal(struct {
-		*directive
+		directive
 		Block Directives `json:"block"`
-	}{(*directive)(d), d.Block})
+	}{directive(d), d.Block})
 }
-- 
2.43.0


From 68994fa91ac05d45cc217f8c22a8011c7282530c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:09 +0000
Subject: [PATCH 31/38] fix: a directive without a block does not equal one
 with an empty block

---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 2b97dd0..5f3341e 100644
--- a/types.go
+++ b/types.go
@@ -104,7 +104,7 @@ func (d *Directive) Equal(a *Directive) bool {
 		return false
 	case !equals(a.Args, d.Args):
 		return false
-	case len(a.Block) != len(d.Block):
+	case a.IsBlock() != d.IsBlock() || len(a.Block) != len(d.Block):
 		return false
 	case len(a.Includes) != len(d.Includes):
 		return false
-- 
2.43.0


From 72fab966273b16081687d68a8a9b79f8964746f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:49 +0000
Subject: [PATCH 32/38] fix: do not join comments of different files of a
 combined payload

---
 build.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/build.go b/build.go
index ccd60ae..af21d85 100644
--- a/build.go
+++ b/build.go
@@ -152,7 +152,7 @@ func Build(w io.Writer, config Config, options *BuildOptions) error {
 	}
 
 	body := strings.Builder{}
-	buildBlock(&body, nil, config.Parsed, 0, 0, options)
+	buildBlock(&body, nil, config.Parsed, 0, &Directive{}, options)
 
 	bodyStr := body.String()
 	if len(bodyStr) > 0 && bodyStr[len(bodyStr)-1] == '\n' {
@@ -164,11 +164,11 @@ func Build(w io.Writer, config Config, options *BuildOptions) error {
 }
 
 //nolint:gocognit
-func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth int, lastLine int, options *BuildOptions) {
+func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth int, last *Directive, options *BuildOptions) {
 	for i, stmt := range block {
 		directive := Enquote(stmt.Directive)
 		// if the this statement is a comment on the same line as the preview, do not emit EOL for this stmt
-		if stmt.Line == lastLine && stmt.IsComment() {
+		if stmt.Line == last.Line && stmt.File == last.File && stmt.IsComment() {
 			_, _ = sb.WriteString(" #")
 			_, _ = sb.WriteString(*stmt.Comment)
 			// sb.WriteString("\n")
@@ -235,14 +235,14 @@ func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth i
 			} else {
 				_, _ = sb.WriteString(" {")
 				stmt := stmt
-				buildBlock(sb, stmt, stmt.Block, depth+1, stmt.Line, options)
+				buildBlock(sb, stmt, stmt.Block, depth+1, stmt, options)
 				_, _ = sb.WriteString("\n")
 				_, _ = sb.WriteString(margin(options, depth))
 				_, _ = sb.WriteString("}")
 			}
 		}
 
-		lastLine = stmt.Line
+		last = stmt
 	}
 }
 
-- 
2.43.0


From 757bffc9e20b1aed21cb042150065307c185a056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:27 +0000
Subject: [PATCH 33/38] fix: find builders of directives whose names need
 quotes

---
 build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build.go b/build.go
index af21d85..15f2f03 100644
--- a/build.go
+++ b/build.go
@@ -182,7 +182,7 @@ func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth i
 		_, _ = sb.WriteString(margin(options, depth))
 
 		if options.extBuilders != nil {
-			if ext, ok := options.extBuilders[directive]; ok {
+			if ext, ok := options.extBuilders[stmt.Directive]; ok {
 				_, _ = sb.WriteString(ext.Build(stmt))
 				continue
 			}
-- 
2.43.0


From 5c65466819085d7ccdf066b0cf695e613d48dde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:52 +0000
Subject: [PATCH 34/38] fix: accept spaces around the brackets of C arrays and
 before the parenthesis of ngx_string in the generator

---
 internal/generator/generator_util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/generator/generator_util.go b/internal/generator/generator_util.go
index 940a3a3..8614dbe 100644
--- a/internal/generator/generator_util.go
+++ b/internal/generator/generator_util.go
@@ -37,14 +37,14 @@ var (
 	// Extract single directive definition block
 	// static ngx_command_t  {name}[] = {definition}
 	// this regex extracts {name} and {definition}.
-	directivesDefineBlockExtracter = regexp.MustCompile(`ngx_command_t\s+(\w+)\[\]\s*=\s*{(.*?)}\s*;`)
+	directivesDefineBlockExtracter = regexp.MustCompile(`ngx_command_t\s+(\w+)\s*\[\s*\]\s*=\s*{(.*?)}\s*;`)
 
 	// Extract one directive definition and attributes from extracted block
 	// { ngx_string({directive_name}),
 	//   {bitmask1|bitmask2|...},
 	//   ... },
 	// this regex extracts {directive_name} and {bitmask1|bitmask2|...}.
-	singleDirectiveExtracter = regexp.MustCompile(`ngx_string\(\s*"(.*?)"\s*\).*?,(.*?),`)
+	singleDirectiveExtracter = regexp.MustCompile(`ngx_string\s*\(\s*"(.*?)"\s*\).*?,(.*?),`)
 
 	// Extract comments, and the string and character literals in which there are no comments.
 	commentExtracter = regexp.MustCompile(`"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'|//.*|/\*[\s\S]*?\*/`)
-- 
2.43.0


From 1747477e45e5db3cada1f4b103a6c94751f3edb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:58 +0000
Subject: [PATCH 35/38] fix: define the mask ngxConfTake7, which generated code
 may use

---
 analyze.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/analyze.go b/analyze.go
index 885837f..0c0753b 100644
--- a/analyze.go
+++ b/analyze.go
@@ -67,13 +67,13 @@ const (
 	ngxConfTake4  = 0x00000010 // 4 args
 	ngxConfTake5  = 0x00000020 // 5 args
 	ngxConfTake6  = 0x00000040 // 6 args
-	// ngxConfTake7  = 0x00000080 // 7 args (currently unused).
-	ngxConfBlock = 0x00000100 // followed by block
-	ngxConfExpr  = 0x00000200 // directive followed by expression in parentheses `()`
-	ngxConfFlag  = 0x00000400 // 'on' or 'off'
-	ngxConfAny   = 0x00000800 // >=0 args
-	ngxConf1More = 0x00001000 // >=1 args
-	ngxConf2More = 0x00002000 // >=2 args
+	ngxConfTake7  = 0x00000080 // 7 args
+	ngxConfBlock  = 0x00000100 // followed by block
+	ngxConfExpr   = 0x00000200 // directive followed by expression in parentheses `()`
+	ngxConfFlag   = 0x00000400 // 'on' or 'off'
+	ngxConfAny    = 0x00000800 // >=0 args
+	ngxConf1More  = 0x00001000 // >=1 args
+	ngxConf2More  = 0x00002000 // >=2 args
 
 	// some helpful argument style aliases.
 	ngxConfTake12   = ngxConfTake1 | ngxConfTake2
-- 
2.43.0


From 900ab242ce04e9b538610facd7efca4f8cbf4c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:00 +0000
Subject: [PATCH 36/38] fix: keep all lines of MatchFuncComment in the comment
 of the generated function

---
 internal/generator/generator_util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/generator/generator_util.go b/internal/generator/generator_util.go
index 8614dbe..f50c4ea 100644
--- a/internal/generator/generator_util.go
+++ b/internal/generator/generator_util.go
@@ -216,7 +216,8 @@ func genFromSrcCode(codePath string, writer io.Writer, config GenerateConfig) er
 		Directive2Masks: directive2Masks,
 		MapVariableName: config.DirectiveMapName,
 		MatchFnName:     config.MatchFuncName,
-		MatchFnComment:  config.MatchFuncComment,
+		// every line has to be a comment
+		MatchFnComment: strings.ReplaceAll(config.MatchFuncComment, "\n", "\n// "),
 	})
 	if err != nil {
 		return err
-- 
2.43.0


From 791eb8eaf135f08844e36e21de3b709275c0f84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:49 +0000
Subject: [PATCH 37/38] fix: BuildFiles keeps the white space at the end of a
 comment at the end of the file

---
 build.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/build.go b/build.go
index 15f2f03..ff1d85a 100644
--- a/build.go
+++ b/build.go
@@ -116,7 +116,8 @@ func BuildFiles(payload Payload, dir string, options *BuildOptions) error {
 			return err
 		}
 
-		output := append(bytes.TrimRightFunc(buf.Bytes(), unicode.IsSpace), '\n')
+		// other white space at the end belongs to a comment
+		output := append(bytes.TrimRight(buf.Bytes(), "\n"), '\n')
 		if _, err := f.Write(output); err != nil {
 			return err
 		}
-- 
2.43.0


From 42eff0f944e43fc289b9ba4ce9e5e1e22f710b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:45 +0000
Subject: [PATCH 38/38] fix: the error of a file that cannot be included leads
 to its cause

---
 parse.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parse.go b/parse.go
index eb0b276..7d3626f 100644
--- a/parse.go
+++ b/parse.go
@@ -421,11 +421,12 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 				// that the included file can be opened and read
 				if f, err := p.openFile(pattern); err != nil {
 					perr := &ParseError{
-						What:      err.Error(),
-						File:      &parsing.File,
-						Line:      &stmt.Line,
-						Statement: stmt.String(),
-						BlockCtx:  ctx.getLastBlock(),
+						What:        err.Error(),
+						File:        &parsing.File,
+						Line:        &stmt.Line,
+						Statement:   stmt.String(),
+						BlockCtx:    ctx.getLastBlock(),
+						originalErr: err,
 					}
 					if !p.options.StopParsingOnError {
 						p.handleError(parsing, perr)
-- 
2.43.0

