From 65cdd6b1c87482fe52956a2cf72422f3fd0943f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:42 +0000
Subject: [PATCH 01/50] fix: do not duplicate bytes when a body spills from
 memory to file

The chunk that crossed the memory limit had its head written to the file
twice, once through the memory buffer and once directly. A failure to create
the file also left the head in memory, so a retried write corrupted the body.
---
 modsecurity/buffer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modsecurity/buffer.go b/modsecurity/buffer.go
index 27a982c..06fa031 100644
--- a/modsecurity/buffer.go
+++ b/modsecurity/buffer.go
@@ -44,15 +44,16 @@ func (b *buffer) Write(p []byte) (wn int, err error) {
 	case b.length+int64(len(p)) > b.fileLimit:
 		return 0, ErrOutOfFileLimit
 	case b.fileBuf == nil && b.length+int64(len(p)) > b.memLimit:
-		b.memBuf.Write(p[:b.memLimit-b.length])
 		b.fileBuf, err = ioutil.TempFile(b.dir, "modsecurity-buffer-*.data")
 		if err != nil {
+			b.fileBuf = nil
 			return 0, err
 		}
 		_, err = b.fileBuf.Write(b.memBuf.Bytes())
 		if err != nil {
 			return 0, err
 		}
+		b.memBuf.Write(p[:b.memLimit-b.length])
 		wn, err = b.fileBuf.Write(p)
 	case b.fileBuf == nil:
 		wn, err = b.memBuf.Write(p)
-- 
2.43.0


From cea443d621555bbc32b318f977030a2af48e2085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:42 +0000
Subject: [PATCH 02/50] fix: body reads advance instead of starting over

The buffer never recorded that reading had begun, so every Read rewound to the
first byte: a multipart body longer than one read was corrupted or looped for
ever, and writes after a read were not refused.
---
 modsecurity/buffer.go                        | 5 ++++-
 modsecurity/variables/request_body_parser.go | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/modsecurity/buffer.go b/modsecurity/buffer.go
index 06fa031..1d8fd9d 100644
--- a/modsecurity/buffer.go
+++ b/modsecurity/buffer.go
@@ -84,8 +84,11 @@ func (b *buffer) Len() int64 {
 }
 func (b *buffer) initRead() {
 	if !b.readed {
+		b.readed = true
 		b.memReader = bytes.NewReader(b.memBuf.Bytes())
-		b.fileBuf.Seek(0, 0)
+		if b.fileBuf != nil {
+			b.fileBuf.Seek(0, 0)
+		}
 	}
 	return
 }
diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index 80c3986..cd16afa 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -2,6 +2,7 @@ package variables
 
 import (
 	"fmt"
+	"io"
 	"mime"
 	"mime/multipart"
 	"net/http"
@@ -37,6 +38,10 @@ var parsers = map[int]*bodyParser{
 	bodyTypeMultipart: &bodyParser{
 		contentType: "multipart/",
 		parser: func(t *modsecurity.Transaction, params map[string]string) (interface{}, error) {
+			// the body may have been read before, always parse it from the start
+			if _, err := t.Request.Body.Seek(0, io.SeekStart); err != nil {
+				return nil, err
+			}
 			mr := multipart.NewReader(t.Request.Body, params["boundary"])
 			form, err := mr.ReadForm(t.Engine.RequestBodyInMem)
 			if err == multipart.ErrMessageTooLarge {
-- 
2.43.0


From 49208b1e2e71b673757250c7138b2e6006842130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:43 +0000
Subject: [PATCH 03/50] fix: closing a body that stayed in memory no longer
 panics

---
 modsecurity/buffer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modsecurity/buffer.go b/modsecurity/buffer.go
index 1d8fd9d..861f9d4 100644
--- a/modsecurity/buffer.go
+++ b/modsecurity/buffer.go
@@ -115,6 +115,9 @@ func (b *buffer) Seek(offset int64, whence int) (int64, error) {
 }
 
 func (b *buffer) Close() error {
+	if b.fileBuf == nil {
+		return nil
+	}
 	filename := b.fileBuf.Name()
 	err := b.fileBuf.Close()
 	err2 := os.Remove(filename)
-- 
2.43.0


From 6a104a7434f9199c68643e8648405db0de217df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:57 +0000
Subject: [PATCH 04/50] fix: inspecting a malformed request body twice gives
 one answer

The first variable to look at a malformed body saw nothing and the later ones
saw the cached partial result, which for multipart was a nil form that made
ARGS_POST_NAMES panic. What could be parsed is now seen every time.
---
 modsecurity/variables/request_body_parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index cd16afa..34c20aa 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -46,9 +46,11 @@ var parsers = map[int]*bodyParser{
 			form, err := mr.ReadForm(t.Engine.RequestBodyInMem)
 			if err == multipart.ErrMessageTooLarge {
 				t.AbortWithError(http.StatusRequestEntityTooLarge, err)
+			}
+			if err != nil {
 				return nil, err
 			}
-			return form, err
+			return form, nil
 		},
 	},
 }
@@ -81,7 +83,6 @@ func requestBodyParse(t *modsecurity.Transaction, types ...int) (int, interface{
 			t.VariableCache[cacheKey] = res
 			if err != nil {
 				t.RequestBodyError = err
-				break
 			}
 		}
 		if res != nil {
-- 
2.43.0


From 17b4431f3357739f034fb335d5058be9f5c1f929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:57 +0000
Subject: [PATCH 05/50] fix: remove the temporary files of multipart uploads
 after parsing

---
 modsecurity/variables/request_body_parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index 34c20aa..c8ec570 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -50,6 +50,8 @@ var parsers = map[int]*bodyParser{
 			if err != nil {
 				return nil, err
 			}
+			// only the values are inspected, do not keep uploaded files on disk
+			form.RemoveAll()
 			return form, nil
 		},
 	},
-- 
2.43.0


From 01e32073a808b1755a1c55cf025256ea4cf8f97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:30 +0000
Subject: [PATCH 06/50] fix: inspect parameters that net/url refuses to parse

url.ParseQuery drops a parameter with a malformed escape or a semicolon, and
all of them when there are more than 10000, so such a parameter (and then the
whole query string or body) was never shown to the rules.
---
 modsecurity/variables/args_get_names.go      |  2 +-
 modsecurity/variables/args_gets.go           |  2 +-
 modsecurity/variables/query.go               | 44 ++++++++++++++++++++
 modsecurity/variables/request_body_parser.go |  3 +-
 4 files changed, 47 insertions(+), 4 deletions(-)
 create mode 100644 modsecurity/variables/query.go

diff --git a/modsecurity/variables/args_get_names.go b/modsecurity/variables/args_get_names.go
index b058028..b93895b 100644
--- a/modsecurity/variables/args_get_names.go
+++ b/modsecurity/variables/args_get_names.go
@@ -19,5 +19,5 @@ func (v *VariableArgsGetNames) Fetch(t *modsecurity.Transaction) []string {
 	if t == nil || t.URL == nil {
 		return nil
 	}
-	return v.filter.Names(t.URL.Query())
+	return v.filter.Names(queryArgs(t))
 }
diff --git a/modsecurity/variables/args_gets.go b/modsecurity/variables/args_gets.go
index 1db9eb5..74e36b8 100644
--- a/modsecurity/variables/args_gets.go
+++ b/modsecurity/variables/args_gets.go
@@ -19,5 +19,5 @@ func (v *VariableArgsGet) Fetch(t *modsecurity.Transaction) []string {
 	if t == nil || t.URL == nil {
 		return nil
 	}
-	return v.filter.Fetch(t.URL.Query())
+	return v.filter.Fetch(queryArgs(t))
 }
diff --git a/modsecurity/variables/query.go b/modsecurity/variables/query.go
new file mode 100644
index 0000000..cb56e5e
--- /dev/null
+++ b/modsecurity/variables/query.go
@@ -0,0 +1,44 @@
+package variables
+
+import (
+	"errors"
+	"net/url"
+	"strings"
+
+	"github.com/senghoo/modsecurity-go/modsecurity"
+	"github.com/senghoo/modsecurity-go/utils"
+)
+
+var errMalformedQuery = errors.New("malformed url encoding")
+
+// parseQuery splits a query string or an urlencoded body into its parameters.
+// Unlike url.ParseQuery it drops nothing, as a parameter that is not inspected
+// is a way around the rules: malformed escapes are kept as they are.
+func parseQuery(query string) (url.Values, error) {
+	var err error
+	res := make(url.Values)
+	decode := func(s string) string {
+		decoded, malformed := utils.UrlDecode(s)
+		if malformed > 0 {
+			err = errMalformedQuery
+		}
+		return decoded
+	}
+	for _, pair := range strings.Split(query, "&") {
+		if pair == "" {
+			continue
+		}
+		name, val := pair, ""
+		if i := strings.Index(pair, "="); i >= 0 {
+			name, val = pair[:i], pair[i+1:]
+		}
+		name = decode(name)
+		res[name] = append(res[name], decode(val))
+	}
+	return res, err
+}
+
+func queryArgs(t *modsecurity.Transaction) url.Values {
+	args, _ := parseQuery(t.URL.RawQuery)
+	return args
+}
diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index c8ec570..d90dfd2 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -6,7 +6,6 @@ import (
 	"mime"
 	"mime/multipart"
 	"net/http"
-	"net/url"
 	"strings"
 
 	"github.com/senghoo/modsecurity-go/modsecurity"
@@ -32,7 +31,7 @@ var parsers = map[int]*bodyParser{
 				t.AbortWithError(http.StatusRequestEntityTooLarge, err)
 				return nil, err
 			}
-			return url.ParseQuery(body)
+			return parseQuery(body)
 		},
 	},
 	bodyTypeMultipart: &bodyParser{
-- 
2.43.0


From 3d164da33851a1718e07573dcdeabc337024dceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:30 +0000
Subject: [PATCH 07/50] fix: a selection by name and by pattern selects what
 either one names

With both kinds of selector on one variable a key had to satisfy both, so
ARGS:a|ARGS:/^b/ inspected nothing.
---
 modsecurity/variables/filter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modsecurity/variables/filter.go b/modsecurity/variables/filter.go
index 0fe135c..6b0c63d 100644
--- a/modsecurity/variables/filter.go
+++ b/modsecurity/variables/filter.go
@@ -76,8 +76,9 @@ func (f *filter) Names(vs map[string][]string) []string {
 func (f *filter) FetchWithNames(vs map[string][]string) map[string][]string {
 	var res = make(map[string][]string)
 	for k, v := range vs {
-		if (f.include != nil && !utils.StringInSlice(k, f.include)) ||
-			(f.includeRegex != nil && !utils.StringInRegexSlice(k, f.includeRegex)) {
+		if (f.include != nil || f.includeRegex != nil) &&
+			!utils.StringInSlice(k, f.include) &&
+			!utils.StringInRegexSlice(k, f.includeRegex) {
 			continue
 		}
 		if (f.exclude != nil && utils.StringInSlice(k, f.exclude)) ||
-- 
2.43.0


From 2b1787c76b08155fe8a8dd6fc7d88d6026f0b1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:46 +0000
Subject: [PATCH 08/50] fix: the target list of a rule is the union of its
 targets minus exclusions

A repeated variable was merged into one object, so ARGS|ARGS:a inspected a
only and &ARGS:a|&ARGS:b made one count; an exclusion without a selection
(REQUEST_URI|!ARGS_NAMES, &ARGS|!ARGS:a) added the very variable it names.
---
 seclang/variable.go | 69 +++++++++++++++++++++------------------------
 1 file changed, 32 insertions(+), 37 deletions(-)

diff --git a/seclang/variable.go b/seclang/variable.go
index 5408859..1993d39 100644
--- a/seclang/variable.go
+++ b/seclang/variable.go
@@ -44,54 +44,49 @@ func variableNoArgErrWrapper(f func() modsecurity.Variable) func(v *parser.Varia
 
 type VariableFactory func(*parser.Variable) (modsecurity.Variable, error)
 
+// applyVariables selects every listed variable and takes the exclusions away
+// from the variables of the same name, wherever in the list they stand.
 func (dr *DireRule) applyVariables(vs []*parser.Variable) error {
-	var (
-		has      bool
-		err      error
-		factory  VariableFactory
-		variable modsecurity.Variable
-	)
-	varMap := make(map[int]modsecurity.Variable)
-	countVarMap := make(map[int]modsecurity.Variable)
+	selected := make(map[int][]modsecurity.Variable)
+	removed := make(map[int]bool)
 	for _, v := range vs {
-		factory, has = variableFactorys[v.Tk]
+		if v.Exclusion && v.Index == "" {
+			removed[v.Tk] = true
+		}
+	}
+	for _, v := range vs {
+		factory, has := variableFactorys[v.Tk]
 		if !has {
 			return fmt.Errorf("variable %d is not implemented", v.Tk)
 		}
-		if !v.Count {
-			if variable, has = varMap[v.Tk]; !has {
-				if variable, err = factory(v); err != nil {
-					return err
-				}
-				varMap[v.Tk] = variable
-			}
-		} else {
-			if variable, has = countVarMap[v.Tk]; !has {
-				if variable, err = factory(v); err != nil {
-					return err
-				}
-				countVarMap[v.Tk] = variables.NewCountVariable(variable)
-			}
+		if v.Exclusion || (removed[v.Tk] && !v.Count) {
+			continue
+		}
+		variable, err := factory(v)
+		if err != nil {
+			return err
 		}
 		if v.Index != "" {
-			if !v.Exclusion {
-				err := variable.Include(v.Index)
-				if err != nil {
-					return err
-				}
-			} else {
-				err := variable.Exclude(v.Index)
-				if err != nil {
-					return err
-				}
+			if err := variable.Include(v.Index); err != nil {
+				return err
 			}
 		}
-	}
-	for _, variable := range varMap {
+		if v.Count {
+			variable = variables.NewCountVariable(variable)
+		} else {
+			selected[v.Tk] = append(selected[v.Tk], variable)
+		}
 		dr.rule.Variables = append(dr.rule.Variables, variable)
 	}
-	for _, variable := range countVarMap {
-		dr.rule.Variables = append(dr.rule.Variables, variable)
+	for _, v := range vs {
+		if !v.Exclusion || v.Index == "" {
+			continue
+		}
+		for _, variable := range selected[v.Tk] {
+			if err := variable.Exclude(v.Index); err != nil {
+				return err
+			}
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 8fd5b214f3dee572b2b829f03b245e208c0caf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:59 +0000
Subject: [PATCH 09/50] fix: honour the engine status set by SecRuleEngine

Off still ran every rule and DetectionOnly still denied. Off now runs no
rules; DetectionOnly runs them all but no disruptive action. A new engine
starts enabled, as it always behaved.
---
 modsecurity/engine.go      | 1 +
 modsecurity/sec_rule.go    | 5 ++++-
 modsecurity/transaction.go | 9 ++++-----
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/modsecurity/engine.go b/modsecurity/engine.go
index 34f47d3..24b0459 100644
--- a/modsecurity/engine.go
+++ b/modsecurity/engine.go
@@ -35,6 +35,7 @@ func NewDefaultLimits() *Limits {
 
 func NewEngine() *Engine {
 	return &Engine{
+		Enabled: true,
 		RuleSet: NewSecRuleSet(),
 		Limits:  NewDefaultLimits(),
 		Config:  NewDefaultConfig(),
diff --git a/modsecurity/sec_rule.go b/modsecurity/sec_rule.go
index e157122..743a0f2 100644
--- a/modsecurity/sec_rule.go
+++ b/modsecurity/sec_rule.go
@@ -106,7 +106,10 @@ func ActionsExecute(t *Transaction, as []Action) {
 	for _, a := range as {
 		actionMap[a.ActionGroup()] = append(actionMap[a.ActionGroup()], a)
 	}
-	for _, actions := range actionMap {
+	for group, actions := range actionMap {
+		if group == ActionGroupDisruptive && t.Engine.DetectionOnly {
+			continue
+		}
 		for _, action := range actions {
 			action.Do(t)
 		}
diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index 8f9a256..3b0d978 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -161,7 +161,7 @@ func (t *Transaction) ProcessPhase(phase int) {
 }
 
 func (t *Transaction) processPhase(phase int) {
-	if t.Abort {
+	if t.Abort || !(t.Engine.Enabled || t.Engine.DetectionOnly) {
 		return
 	}
 	next := t.Next()
@@ -240,10 +240,9 @@ func (t *Transaction) ResetIntervention() {
 }
 
 func (t *Transaction) AbortWithError(code int, err error) {
-	t.Abort = true
-	i := t.Intervention()
-	i.Status = code
-	i.Disruptive = true
+	if !t.Engine.DetectionOnly {
+		t.AbortWithStatus(code)
+	}
 	t.Logf("abort process with error %s", err.Error())
 }
 
-- 
2.43.0


From 456dad5c10bed8114a73dbcbbfaa233fa2073ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:27 +0000
Subject: [PATCH 10/50] fix: allow skips only the phases it is meant to skip

allow jumped to a phase, and the jump made ProcessPhase believe that phase had
been processed: allow skipped the logging phase, allow:phase the next phase
and allow:request the response headers phase.
---
 modsecurity/transaction.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index 3b0d978..c88d72a 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -153,7 +153,8 @@ func (t *Transaction) NextPhase() int {
 }
 
 func (t *Transaction) ProcessPhase(phase int) {
-	if t.currentPhase >= phase {
+	// a phase jumped to but not started yet still has to run
+	if t.currentPhase > phase || (t.currentPhase == phase && t.currentRule != StatusNotStarted) {
 		return
 	}
 	t.JumpToPhase(phase)
@@ -161,17 +162,19 @@ func (t *Transaction) ProcessPhase(phase int) {
 }
 
 func (t *Transaction) processPhase(phase int) {
+	next := t.Next() // started, even when none of its rules may run
 	if t.Abort || !(t.Engine.Enabled || t.Engine.DetectionOnly) {
 		return
 	}
-	next := t.Next()
-	for ; t.currentPhase == phase && next != StatusEndOfRules; next = t.Next() {
+	for t.currentPhase == phase && next != StatusEndOfRules {
 		t.RuleSet.Process(t, phase, next)
 		if t.Intervention().Disruptive {
 			logrus.Debug("skiping this phase, already intercepted")
 			break
 		}
-
+		if t.currentPhase == phase {
+			next = t.Next()
+		}
 	}
 }
 
-- 
2.43.0


From 9c249b9a34e3d84ba6b60649175257c6cea57100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:48 +0000
Subject: [PATCH 11/50] fix: run no rules while an interception waits to be
 collected

After a denial that was not collected with Result yet, every later phase still
ran its first rule, which could add to the denial or, with pass, revoke it.
---
 modsecurity/transaction.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index c88d72a..6137a05 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -166,6 +166,10 @@ func (t *Transaction) processPhase(phase int) {
 	if t.Abort || !(t.Engine.Enabled || t.Engine.DetectionOnly) {
 		return
 	}
+	if t.Intervention().Disruptive {
+		logrus.Debug("skiping this phase, already intercepted")
+		return
+	}
 	for t.currentPhase == phase && next != StatusEndOfRules {
 		t.RuleSet.Process(t, phase, next)
 		if t.Intervention().Disruptive {
-- 
2.43.0


From 0a3133877183bb7d895648beaa794d6e72e3c820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:48 +0000
Subject: [PATCH 12/50] fix: log the status a request is denied with

---
 modsecurity/actions/deny.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modsecurity/actions/deny.go b/modsecurity/actions/deny.go
index 94f35ce..80d8fb1 100644
--- a/modsecurity/actions/deny.go
+++ b/modsecurity/actions/deny.go
@@ -35,5 +35,5 @@ func (*ActionDeny) Do(t *modsecurity.Transaction) {
 
 	}
 	i.Disruptive = true
-	t.Logf("ModSecurity: Access denied with code 403")
+	t.Logf("ModSecurity: Access denied with code %d", i.Status)
 }
-- 
2.43.0


From 705545d58441c3fc95fdef5341e04e06f028c4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:48 +0000
Subject: [PATCH 13/50] fix: pass keeps the log

log is executed before pass, so a rule with both (log,pass) never logged, and
pass erased what the rules before it had logged.
---
 modsecurity/actions/pass.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modsecurity/actions/pass.go b/modsecurity/actions/pass.go
index 06b85b4..2f11507 100644
--- a/modsecurity/actions/pass.go
+++ b/modsecurity/actions/pass.go
@@ -21,5 +21,8 @@ func (*ActionPass) Value() string {
 
 }
 func (*ActionPass) Do(t *modsecurity.Transaction) {
+	// the decision is undone, what has been logged stays
+	log := t.Intervention().Log
 	t.ResetIntervention()
+	t.Intervention().Log = log
 }
-- 
2.43.0


From ac12e50669dd4bb24971dae01de96ced9b2df49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:49 +0000
Subject: [PATCH 14/50] fix: accept pass and severity in SecLang rules

Both are implemented (one as an action, the other as rule metadata) and listed
as supported, but a rule set that used them was refused.
---
 seclang/actions.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/seclang/actions.go b/seclang/actions.go
index 6765170..de5dfab 100644
--- a/seclang/actions.go
+++ b/seclang/actions.go
@@ -22,6 +22,9 @@ var actionFactorys map[int]*actionProcessor = map[int]*actionProcessor{
 	parser.TkActionBlock: &actionProcessor{
 		factory: actionWrapper(actions.NewActionBlock),
 	},
+	parser.TkActionPass: &actionProcessor{
+		factory: actionWrapper(actions.NewActionPass),
+	},
 	parser.TkActionStatus: &actionProcessor{
 		factory: actionNumArgWrapper(actions.NewActionStatus),
 	},
@@ -40,6 +43,9 @@ var actionFactorys map[int]*actionProcessor = map[int]*actionProcessor{
 	parser.TkActionVer: &actionProcessor{
 		meta: metaFactory("ver"),
 	},
+	parser.TkActionSeverity: &actionProcessor{
+		meta: metaFactory("severity"),
+	},
 }
 
 func isQuote(c rune) bool { return '\'' == c || '"' == c }
-- 
2.43.0


From 71c17f88c6c4fd1a95bb67e6fd5fb6fe3f8d16af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:04 +0000
Subject: [PATCH 15/50] fix: a backslash between arguments no longer hangs the
 parser

SkipBlank looped for ever on a backslash that was not followed by a line feed,
such as a continued line with CRLF line endings or a regexp starting with one.
---
 seclang/parser/scanner.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index 7b8f4b2..d373c07 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -354,11 +354,11 @@ func (s *Scanner) SkipBlank() error {
 		case isBlank(s.current):
 			s.advance()
 		case s.current == '\\':
-			if s.next() == '\n' {
-				s.advance()             //skip '\\'
-				s.incrementLineNumber() // skip newlines
-
+			if !isNewLine(s.next()) {
+				return nil
 			}
+			s.advance()             //skip '\\'
+			s.incrementLineNumber() // skip newlines
 		default:
 			return nil
 
-- 
2.43.0


From 9aa167f47bbb1101cf19d2f49f9127338773a475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:22 +0000
Subject: [PATCH 16/50] fix: a rule file that cannot be read to its end is an
 error

Any read error was taken for the end of the file, so a rule set that was cut
short by an I/O error was loaded without a word.
---
 seclang/parser/scanner.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index d373c07..06f8262 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -34,6 +34,7 @@ type Scanner struct {
 	buffer               *bytes.Buffer
 	r                    *bufio.Reader
 	current              rune
+	err                  error // why reading stopped, unless it is the end of the input
 	LineNumber, LastLine int
 }
 
@@ -120,6 +121,15 @@ func (s *Scanner) readString(delimiter ...rune) (string, error) {
 }
 
 func (s *Scanner) ReadDirective() (Directive, error) {
+	dir, err := s.nextDirective()
+	if s.err != nil {
+		// what was read last may have been cut short
+		return nil, s.err
+	}
+	return dir, err
+}
+
+func (s *Scanner) nextDirective() (Directive, error) {
 	if s.current == BOS {
 		s.advance()
 	}
@@ -408,13 +418,21 @@ func (s *Scanner) incrementLineNumber() {
 func (s *Scanner) advance() {
 	if c, err := s.r.ReadByte(); err != nil {
 		s.current = EOS
+		s.readFailed(err)
 	} else {
 		s.current = rune(c)
 	}
 }
 
+func (s *Scanner) readFailed(err error) {
+	if err != io.EOF && s.err == nil {
+		s.err = err
+	}
+}
+
 func (s *Scanner) next() rune {
 	if c, err := s.r.ReadByte(); err != nil {
+		s.readFailed(err)
 		return EOS
 	} else {
 		s.r.UnreadByte()
-- 
2.43.0


From d2f7ab4a9ca822ccd99a1c0a2ac1053b6bb37711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:23 +0000
Subject: [PATCH 17/50] fix: a rule without a phase runs in the default phase

Such a rule was accepted but never put in any phase, so it was never run. The
language defines phase 2 as the default.
---
 seclang/actions.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seclang/actions.go b/seclang/actions.go
index de5dfab..1bf62bd 100644
--- a/seclang/actions.go
+++ b/seclang/actions.go
@@ -98,6 +98,9 @@ type actionProcessor struct {
 func (dr *DireRule) applyActions(actions *parser.Actions) error {
 	dr.rule.Id = actions.Id
 	dr.rule.Phase = actions.Phase
+	if dr.rule.Phase == 0 {
+		dr.rule.Phase = parser.PhaseRequestBody // the default of the language
+	}
 	dr.chain = actions.Chain
 	for _, action := range actions.Action {
 		processor, has := actionFactorys[action.Tk]
-- 
2.43.0


From b31bf12d13eaa3d8e345770a07607b851b8b1c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:18 +0000
Subject: [PATCH 18/50] fix: a comma inside a quoted action argument belongs to
 the argument

---
 seclang/parser/scanner.go |  3 +--
 seclang/parser/utils.go   | 39 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index 06f8262..b4e1533 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -332,8 +332,7 @@ func (s *Scanner) ReadActions() (*Actions, error) {
 	if len(str) == 0 {
 		return nil, errors.New("expected actions bug got empty")
 	}
-	actions := strings.Split(str, ",")
-	for _, action := range actions {
+	for _, action := range splitActions(str) {
 		err := processAction(res, action)
 		if err != nil {
 			return nil, err
diff --git a/seclang/parser/utils.go b/seclang/parser/utils.go
index fd1363b..49fc8d3 100644
--- a/seclang/parser/utils.go
+++ b/seclang/parser/utils.go
@@ -57,3 +57,42 @@ func splitMulti(s string, seps string) []string {
 	return res[:i+1]
 
 }
+
+// splitActions splits an action list at its commas. A comma inside a quoted
+// argument belongs to that argument.
+func splitActions(s string) []string {
+	var res []string
+	for {
+		i := actionEnd(s)
+		if i == len(s) {
+			return append(res, s)
+		}
+		res = append(res, s[:i])
+		s = s[i+1:]
+	}
+}
+
+// actionEnd finds the comma that ends the first action of s, or the end of s.
+func actionEnd(s string) int {
+	end := strings.Index(s, ",")
+	if end < 0 {
+		return len(s)
+	}
+	start := strings.Index(s[:end], ":") + 1
+	if start == 0 || start == end || !isQuote(rune(s[start])) {
+		return end
+	}
+	for i := start + 1; i < len(s); i++ {
+		if s[i] != s[start] {
+			continue
+		}
+		rest := strings.TrimLeft(s[i+1:], " \f\t\v\r\n")
+		if rest == "" {
+			return len(s)
+		}
+		if rest[0] == ',' {
+			return len(s) - len(rest)
+		}
+	}
+	return end // the quote is never closed, it is part of the argument
+}
-- 
2.43.0


From 1dd3f53efa566edeefee0ee09ae0a06c90712b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:18 +0000
Subject: [PATCH 19/50] fix: blanks around an action argument are not part of
 it

---
 seclang/parser/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index b4e1533..900516d 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -350,7 +350,7 @@ func parseAction(act string) (int, string, error) {
 		return 0, "", fmt.Errorf("unknown action %s", s[0])
 	}
 	if len(s) > 1 {
-		arg = s[1]
+		arg = strings.TrimSpace(s[1])
 	}
 	return tk, arg, nil
 }
-- 
2.43.0


From 63e21471054f97048992b79df27582398d395004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:44 +0000
Subject: [PATCH 20/50] fix: whitespace and null transforms keep bytes that are
 not UTF-8 and see all whitespace

---
 modsecurity/transforms/compress_whitespace.go | 23 +++++------
 modsecurity/transforms/map_rune.go            | 40 +++++++++++++------
 2 files changed, 39 insertions(+), 24 deletions(-)

diff --git a/modsecurity/transforms/compress_whitespace.go b/modsecurity/transforms/compress_whitespace.go
index e5ed722..f872a86 100644
--- a/modsecurity/transforms/compress_whitespace.go
+++ b/modsecurity/transforms/compress_whitespace.go
@@ -1,8 +1,6 @@
 package transforms
 
 import (
-	"strings"
-
 	"github.com/senghoo/modsecurity-go/modsecurity"
 )
 
@@ -18,15 +16,16 @@ func (t *TransCompressWhitespace) Name() string {
 }
 func (t *TransCompressWhitespace) Trans(tr *modsecurity.Transaction, s string) string {
 	var previousIsSpace bool
-	return strings.Map(func(i rune) rune {
-		if i == ' ' {
-			if previousIsSpace {
-				return -1
-			}
-			previousIsSpace = true
-		} else {
-			previousIsSpace = false
+	res := make([]byte, 0, len(s))
+	for i := 0; i < len(s); i++ {
+		space := isSpace(s[i])
+		switch {
+		case !space:
+			res = append(res, s[i])
+		case !previousIsSpace:
+			res = append(res, ' ')
 		}
-		return i
-	}, s)
+		previousIsSpace = space
+	}
+	return string(res)
 }
diff --git a/modsecurity/transforms/map_rune.go b/modsecurity/transforms/map_rune.go
index 73ea7ca..91c26fb 100644
--- a/modsecurity/transforms/map_rune.go
+++ b/modsecurity/transforms/map_rune.go
@@ -1,43 +1,53 @@
 package transforms
 
 import (
-	"strings"
-
 	"github.com/senghoo/modsecurity-go/modsecurity"
 )
 
+// TransMapRune maps the characters of a value. It works on bytes, as the values
+// come from the network and need not be valid UTF-8; everything that is mapped
+// is ASCII.
 type TransMapRune struct {
 	name    string
-	mapping func(rune) rune
+	mapping func(byte) rune
 }
 
 func NewTransRemoveWhitespace() modsecurity.Trans {
 	return &TransMapRune{
-		name:    "removeWhitespace",
-		mapping: replaceRune(' ', -1),
+		name: "removeWhitespace",
+		mapping: func(c byte) rune {
+			if isSpace(c) {
+				return -1
+			}
+			return rune(c)
+		},
 	}
 }
 
 func NewTransRemoveNulls() modsecurity.Trans {
 	return &TransMapRune{
 		name:    "removeNulls",
-		mapping: replaceRune(0, -1),
+		mapping: replaceByte(0, -1),
 	}
 }
 
 func NewTransReplaceNulls() modsecurity.Trans {
 	return &TransMapRune{
 		name:    "replaceNulls",
-		mapping: replaceRune(0, ' '),
+		mapping: replaceByte(0, ' '),
 	}
 }
 
-func replaceRune(from, to rune) func(rune) rune {
-	return func(i rune) rune {
-		if i == from {
+func isSpace(c byte) bool {
+	return c == ' ' || c >= '\t' && c <= '\r'
+}
+
+func replaceByte(from byte, to rune) func(byte) rune {
+	return func(c byte) rune {
+		if c == from {
 			return to
 		}
-		return i
+		return rune(c)
 	}
 }
 
@@ -45,5 +55,11 @@ func (t *TransMapRune) Name() string {
 	return t.name
 }
 func (t *TransMapRune) Trans(tr *modsecurity.Transaction, s string) string {
-	return strings.Map(t.mapping, s)
+	res := make([]byte, 0, len(s))
+	for i := 0; i < len(s); i++ {
+		if c := t.mapping(s[i]); c >= 0 {
+			res = append(res, byte(c))
+		}
+	}
+	return string(res)
 }
-- 
2.43.0


From 999cc73a812aa657fd03090f5b4f0e27cae5bc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 21/50] fix: lowercase keeps bytes that are not UTF-8

---
 modsecurity/transforms/lowercase.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/modsecurity/transforms/lowercase.go b/modsecurity/transforms/lowercase.go
index 7022a4e..1190897 100644
--- a/modsecurity/transforms/lowercase.go
+++ b/modsecurity/transforms/lowercase.go
@@ -2,6 +2,8 @@ package transforms
 
 import (
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/senghoo/modsecurity-go/modsecurity"
 )
@@ -16,5 +18,19 @@ func (*TransLowerCase) Name() string {
 	return "lowercase"
 }
 func (*TransLowerCase) Trans(tr *modsecurity.Transaction, s string) string {
-	return strings.ToLower(s)
+	if utf8.ValidString(s) {
+		return strings.ToLower(s)
+	}
+	// bytes that are not UTF-8 stay as they are, strings.ToLower replaces them
+	var res []byte
+	for len(s) > 0 {
+		r, size := utf8.DecodeRuneInString(s)
+		if r == utf8.RuneError && size == 1 {
+			res = append(res, s[0])
+		} else {
+			res = append(res, string(unicode.ToLower(r))...)
+		}
+		s = s[size:]
+	}
+	return string(res)
 }
-- 
2.43.0


From bfde56c0db31eb54e2cc1468518552359565ca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 22/50] fix: only full width characters are folded to ascii

---
 utils/urlencode.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/utils/urlencode.go b/utils/urlencode.go
index 386e280..a1b803a 100644
--- a/utils/urlencode.go
+++ b/utils/urlencode.go
@@ -28,12 +28,9 @@ func urldecode(s string, uni bool) (string, int) {
 			c1 := rune(UnHex(s[i+3]))
 			c2 := rune(UnHex(s[i+4]))
 			c3 := rune(UnHex(s[i+5]))
-			v = c0<<4 | c1
-			if v == 0xff {
-				v = (c2<<4 | c3) + 0x20 // full width ascii offset
-			} else {
-				v = v<<4 | c2
-				v = v<<4 | c3
+			v = c0<<12 | c1<<8 | c2<<4 | c3
+			if v >= 0xff01 && v <= 0xff5e {
+				v -= 0xff00 - 0x20 // full width ascii offset
 			}
 			n := utf8.EncodeRune(runeTmp[:], v)
 			res.Write(runeTmp[:n])
-- 
2.43.0


From a56764a6da0a393bc9f71e95d2859c202a4a5edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 23/50] fix: a number too large to represent does not compare
 as zero

---
 modsecurity/operators/compare.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modsecurity/operators/compare.go b/modsecurity/operators/compare.go
index e9873db..4e5048e 100644
--- a/modsecurity/operators/compare.go
+++ b/modsecurity/operators/compare.go
@@ -63,8 +63,9 @@ func (o *OperatorCompare) Args() string {
 
 func (o *OperatorCompare) Match(tr *modsecurity.Transaction, s string) bool {
 	s = strings.TrimSpace(s)
+	// a number out of range compares as the closest one in range
 	v, err := strconv.ParseInt(s, 10, 64)
-	if err != nil {
+	if e, ok := err.(*strconv.NumError); ok && e.Err != strconv.ErrRange {
 		v = 0
 	}
 	return o.fn(v, o.arg)
-- 
2.43.0


From fa4e2aea82e6572e5e848f85bd247b5748c5078f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 24/50] fix: header names are selected whatever their case

---
 modsecurity/variables/filter.go                | 18 ++++++++++++++++--
 modsecurity/variables/request_headers.go       |  2 +-
 modsecurity/variables/request_headers_names.go |  2 +-
 modsecurity/variables/response_headers.go      |  2 +-
 .../variables/response_headers_names.go        |  2 +-
 5 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/modsecurity/variables/filter.go b/modsecurity/variables/filter.go
index 6b0c63d..34c6e66 100644
--- a/modsecurity/variables/filter.go
+++ b/modsecurity/variables/filter.go
@@ -2,6 +2,7 @@ package variables
 
 import (
 	"regexp"
+	"strings"
 
 	"github.com/senghoo/modsecurity-go/utils"
 )
@@ -11,6 +12,7 @@ type filter struct {
 	includeRegex []*regexp.Regexp
 	exclude      []string
 	excludeRegex []*regexp.Regexp
+	foldCase     bool // names are the same whatever their case
 }
 
 func isRegex(str string) bool {
@@ -55,6 +57,18 @@ func (f *filter) Exclude(s string) error {
 	return nil
 }
 
+func (f *filter) nameInSlice(name string, slice []string) bool {
+	if !f.foldCase {
+		return utils.StringInSlice(name, slice)
+	}
+	for _, v := range slice {
+		if strings.EqualFold(name, v) {
+			return true
+		}
+	}
+	return false
+}
+
 func (f *filter) Fetch(vs map[string][]string) []string {
 	var res []string
 	withName := f.FetchWithNames(vs)
@@ -77,11 +91,11 @@ func (f *filter) FetchWithNames(vs map[string][]string) map[string][]string {
 	var res = make(map[string][]string)
 	for k, v := range vs {
 		if (f.include != nil || f.includeRegex != nil) &&
-			!utils.StringInSlice(k, f.include) &&
+			!f.nameInSlice(k, f.include) &&
 			!utils.StringInRegexSlice(k, f.includeRegex) {
 			continue
 		}
-		if (f.exclude != nil && utils.StringInSlice(k, f.exclude)) ||
+		if (f.exclude != nil && f.nameInSlice(k, f.exclude)) ||
 			(f.excludeRegex != nil && utils.StringInRegexSlice(k, f.excludeRegex)) {
 			continue
 		}
diff --git a/modsecurity/variables/request_headers.go b/modsecurity/variables/request_headers.go
index 8056509..e8d20fc 100644
--- a/modsecurity/variables/request_headers.go
+++ b/modsecurity/variables/request_headers.go
@@ -4,7 +4,7 @@ import "github.com/senghoo/modsecurity-go/modsecurity"
 
 func NewVariableRequestHeaders() modsecurity.Variable {
 	return &VariableRequestHeaders{
-		filter: &filter{},
+		filter: &filter{foldCase: true},
 	}
 }
 
diff --git a/modsecurity/variables/request_headers_names.go b/modsecurity/variables/request_headers_names.go
index b3a2568..b915cc3 100644
--- a/modsecurity/variables/request_headers_names.go
+++ b/modsecurity/variables/request_headers_names.go
@@ -4,7 +4,7 @@ import "github.com/senghoo/modsecurity-go/modsecurity"
 
 func NewVariableRequestHeadersNames() modsecurity.Variable {
 	return &VariableRequestHeadersNames{
-		filter: &filter{},
+		filter: &filter{foldCase: true},
 	}
 }
 
diff --git a/modsecurity/variables/response_headers.go b/modsecurity/variables/response_headers.go
index c8da14f..49482a5 100644
--- a/modsecurity/variables/response_headers.go
+++ b/modsecurity/variables/response_headers.go
@@ -6,7 +6,7 @@ import (
 
 func NewVariableResponseHeaders() modsecurity.Variable {
 	return &VariableResponseHeaders{
-		filter: &filter{},
+		filter: &filter{foldCase: true},
 	}
 }
 
diff --git a/modsecurity/variables/response_headers_names.go b/modsecurity/variables/response_headers_names.go
index dece743..292d5f1 100644
--- a/modsecurity/variables/response_headers_names.go
+++ b/modsecurity/variables/response_headers_names.go
@@ -4,7 +4,7 @@ import "github.com/senghoo/modsecurity-go/modsecurity"
 
 func NewVariableResponseHeadersNames() modsecurity.Variable {
 	return &VariableResponseHeadersNames{
-		filter: &filter{},
+		filter: &filter{foldCase: true},
 	}
 }
 
-- 
2.43.0


From 4344e96da52b82ca13ecbc037de18c775b54a2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 25/50] fix: request header names do not depend on a url

---
 modsecurity/variables/request_headers_names.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modsecurity/variables/request_headers_names.go b/modsecurity/variables/request_headers_names.go
index b915cc3..0e3ae4b 100644
--- a/modsecurity/variables/request_headers_names.go
+++ b/modsecurity/variables/request_headers_names.go
@@ -16,7 +16,7 @@ func (*VariableRequestHeadersNames) Name() string {
 	return "REQUEST_HEADERS_NAMES"
 }
 func (v *VariableRequestHeadersNames) Fetch(t *modsecurity.Transaction) []string {
-	if t == nil || t.URL == nil {
+	if t == nil {
 		return nil
 	}
 	return v.filter.Names(t.Request.Header)
-- 
2.43.0


From ebfe2b209bc070cf1ef56d2e1ea2bdcc920c591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 26/50] fix: skip honours the number of rules to skip

---
 modsecurity/actions/skip.go | 18 +++++++++++++++---
 seclang/actions.go          | 14 +++++++++++++-
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/modsecurity/actions/skip.go b/modsecurity/actions/skip.go
index d08e718..c7f702e 100644
--- a/modsecurity/actions/skip.go
+++ b/modsecurity/actions/skip.go
@@ -1,14 +1,22 @@
 package actions
 
 import (
+	"strconv"
+
 	"github.com/senghoo/modsecurity-go/modsecurity"
 )
 
 type ActionSkip struct {
+	count int
 }
 
 func NewActionSkip() modsecurity.Action {
-	return &ActionSkip{}
+	return NewActionSkipN(1)
+}
+
+// NewActionSkipN skips the next count rules of the phase.
+func NewActionSkipN(count int) modsecurity.Action {
+	return &ActionSkip{count}
 }
 func (*ActionSkip) ActionGroup() int {
 	return modsecurity.ActionGroupFlow
@@ -18,9 +26,13 @@ func (*ActionSkip) Name() string {
 	return "skip"
 }
 func (a *ActionSkip) Value() string {
-	return ""
+	return strconv.Itoa(a.count)
 
 }
 func (a *ActionSkip) Do(t *modsecurity.Transaction) {
-	t.JumpTo(t.CurrentRule() + 2)
+	next := t.CurrentRule() + 1 + a.count
+	if next < a.count { // overflow
+		next = a.count
+	}
+	t.JumpTo(next)
 }
diff --git a/seclang/actions.go b/seclang/actions.go
index 1bf62bd..14d6b43 100644
--- a/seclang/actions.go
+++ b/seclang/actions.go
@@ -14,7 +14,19 @@ var actionFactorys map[int]*actionProcessor = map[int]*actionProcessor{
 		factory: actionWrapper(actions.NewActionDeny),
 	},
 	parser.TkActionSkip: &actionProcessor{
-		factory: actionWrapper(actions.NewActionSkip),
+		factory: func(v *parser.Action) (modsecurity.Action, error) {
+			if v.Argument == "" {
+				return actions.NewActionSkip(), nil
+			}
+			count, err := toNum(v.Argument)
+			if err != nil {
+				return nil, err
+			}
+			if count < 1 {
+				return nil, fmt.Errorf("cannot skip %d rules", count)
+			}
+			return actions.NewActionSkipN(count), nil
+		},
 	},
 	parser.TkActionLog: &actionProcessor{
 		factory: actionWrapper(actions.NewActionLog),
-- 
2.43.0


From c96df2d4235d8e0201c099e7035fbeeac38d1c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 27/50] fix: allow with an unknown scope is an error

---
 seclang/actions.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/seclang/actions.go b/seclang/actions.go
index 14d6b43..a314be3 100644
--- a/seclang/actions.go
+++ b/seclang/actions.go
@@ -41,7 +41,14 @@ var actionFactorys map[int]*actionProcessor = map[int]*actionProcessor{
 		factory: actionNumArgWrapper(actions.NewActionStatus),
 	},
 	parser.TkActionAllow: &actionProcessor{
-		factory: actionArgWrapper(actions.NewActionAllow),
+		factory: func(v *parser.Action) (modsecurity.Action, error) {
+			switch arg := trimQuote(v.Argument); arg {
+			case "", "phase", "request":
+				return actions.NewActionAllow(arg), nil
+			default:
+				return nil, fmt.Errorf("unknown scope of allow %s", arg)
+			}
+		},
 	},
 	parser.TkActionTag: &actionProcessor{
 		meta: metaFactory("tag"),
@@ -81,11 +88,6 @@ func metaFactory(name string) func(*parser.Action) (map[string]string, error) {
 	}
 }
 
-func actionArgWrapper(f func(string) modsecurity.Action) func(v *parser.Action) (modsecurity.Action, error) {
-	return func(v *parser.Action) (modsecurity.Action, error) {
-		return f(trimQuote(v.Argument)), nil
-	}
-}
 func actionNumArgWrapper(f func(int) modsecurity.Action) func(v *parser.Action) (modsecurity.Action, error) {
 	return func(v *parser.Action) (modsecurity.Action, error) {
 		arg, err := toNum(v.Argument)
-- 
2.43.0


From ed8c9b84b718a3b0fa0a1ee8d5bf52151950f591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:55 +0000
Subject: [PATCH 28/50] fix: allow does not start a phase over

allow in the logging phase and allow:request in the response headers phase ran
the rules of that phase again, for ever when they match; allow:request in the
response body phase went back to the response headers phase.
---
 modsecurity/actions/allow.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/modsecurity/actions/allow.go b/modsecurity/actions/allow.go
index 7374b42..47bd60a 100644
--- a/modsecurity/actions/allow.go
+++ b/modsecurity/actions/allow.go
@@ -27,10 +27,19 @@ func (a *ActionAllow) Value() string {
 func (a *ActionAllow) Do(t *modsecurity.Transaction) {
 	switch a.arg {
 	case "":
-		t.JumpToPhase(modsecurity.PhaseLogging)
+		skipTo(t, modsecurity.PhaseLogging)
 	case "phase":
 		t.NextPhase()
 	case "request":
-		t.JumpToPhase(modsecurity.PhaseResponseHeaders)
+		skipTo(t, modsecurity.PhaseResponseHeaders)
+	}
+}
+
+// skipTo skips the rest of the current phase and the phases before the given one.
+func skipTo(t *modsecurity.Transaction, phase int) {
+	if t.CurrentPhase() < phase {
+		t.JumpToPhase(phase)
+	} else {
+		t.NextPhase()
 	}
 }
-- 
2.43.0


From 0d48abfdf467839a401898b713ccf5d5e1c24e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 29/50] fix: a text that does not load adds nothing to the
 directive set

---
 seclang/rule_set.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seclang/rule_set.go b/seclang/rule_set.go
index 74b4dcb..3c896a0 100644
--- a/seclang/rule_set.go
+++ b/seclang/rule_set.go
@@ -49,6 +49,7 @@ func (rs *DireSet) AddSecLangString(str string) error {
 	if err != nil {
 		return err
 	}
+	var added []Dire // nothing is added unless all of the text is understood
 	for _, dir := range dirs {
 		dire, err := direFactory(dir)
 		if err != nil {
@@ -67,8 +68,9 @@ func (rs *DireSet) AddSecLangString(str string) error {
 				continue // skip append dire
 			}
 		}
-		rs.dires = append(rs.dires, dire)
+		added = append(added, dire)
 	}
+	rs.dires = append(rs.dires, added...)
 	return nil
 }
 
-- 
2.43.0


From e0988abb920923e3837658e0315e45a65e0abd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 30/50] fix: blanks before a quoted action argument do not keep
 its commas from belonging to it

---
 seclang/parser/utils.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/seclang/parser/utils.go b/seclang/parser/utils.go
index 49fc8d3..27f5ff0 100644
--- a/seclang/parser/utils.go
+++ b/seclang/parser/utils.go
@@ -79,7 +79,13 @@ func actionEnd(s string) int {
 		return len(s)
 	}
 	start := strings.Index(s[:end], ":") + 1
-	if start == 0 || start == end || !isQuote(rune(s[start])) {
+	if start == 0 {
+		return end
+	}
+	for start < end && (isBlank(rune(s[start])) || isNewLine(rune(s[start]))) {
+		start++
+	}
+	if start == end || !isQuote(rune(s[start])) {
 		return end
 	}
 	for i := start + 1; i < len(s); i++ {
-- 
2.43.0


From 8f154911ac2fcdaadcb8ed551c0961a6aff9a9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 31/50] fix: what only begins like a number too large to
 represent is not a number

---
 modsecurity/operators/compare.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/modsecurity/operators/compare.go b/modsecurity/operators/compare.go
index 4e5048e..35f0cd4 100644
--- a/modsecurity/operators/compare.go
+++ b/modsecurity/operators/compare.go
@@ -65,8 +65,17 @@ func (o *OperatorCompare) Match(tr *modsecurity.Transaction, s string) bool {
 	s = strings.TrimSpace(s)
 	// a number out of range compares as the closest one in range
 	v, err := strconv.ParseInt(s, 10, 64)
-	if e, ok := err.(*strconv.NumError); ok && e.Err != strconv.ErrRange {
+	if e, ok := err.(*strconv.NumError); ok && (e.Err != strconv.ErrRange || !isNumber(s)) {
 		v = 0
 	}
 	return o.fn(v, o.arg)
 }
+
+// isNumber tells whether s is a decimal number of any size. strconv.ParseInt
+// reports a number out of range before it has seen all of s.
+func isNumber(s string) bool {
+	if s != "" && (s[0] == '+' || s[0] == '-') {
+		s = s[1:]
+	}
+	return s != "" && strings.Trim(s, "0123456789") == ""
+}
-- 
2.43.0


From 9218481c97d410bfc9bdf29bd9d94958950e0dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:51 +0000
Subject: [PATCH 32/50] fix: keep a body as it was when writing its file fails

---
 modsecurity/buffer.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/modsecurity/buffer.go b/modsecurity/buffer.go
index 861f9d4..f1d1038 100644
--- a/modsecurity/buffer.go
+++ b/modsecurity/buffer.go
@@ -50,15 +50,26 @@ func (b *buffer) Write(p []byte) (wn int, err error) {
 			return 0, err
 		}
 		_, err = b.fileBuf.Write(b.memBuf.Bytes())
+		if err == nil {
+			wn, err = b.fileBuf.Write(p)
+		}
 		if err != nil {
+			// what was accepted before stays in memory
+			b.Close()
+			b.fileBuf = nil
 			return 0, err
 		}
 		b.memBuf.Write(p[:b.memLimit-b.length])
-		wn, err = b.fileBuf.Write(p)
 	case b.fileBuf == nil:
 		wn, err = b.memBuf.Write(p)
 	default:
 		wn, err = b.fileBuf.Write(p)
+		if err != nil {
+			// take back what was written of it
+			b.fileBuf.Truncate(b.length)
+			b.fileBuf.Seek(b.length, io.SeekStart)
+			return 0, err
+		}
 	}
 	b.length += int64(wn)
 	return wn, err
-- 
2.43.0


From b161fd1b17f3c35d04f33ae49d31155973730b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:50 +0000
Subject: [PATCH 33/50] fix: a repeated content type parameter does not hide
 the request body from the rules

---
 modsecurity/variables/media_type.go          | 17 +++++++++++++++++
 modsecurity/variables/request_body.go        |  3 +--
 modsecurity/variables/request_body_parser.go |  3 +--
 3 files changed, 19 insertions(+), 4 deletions(-)
 create mode 100644 modsecurity/variables/media_type.go

diff --git a/modsecurity/variables/media_type.go b/modsecurity/variables/media_type.go
new file mode 100644
index 0000000..9093147
--- /dev/null
+++ b/modsecurity/variables/media_type.go
@@ -0,0 +1,17 @@
+package variables
+
+import (
+	"mime"
+	"strings"
+)
+
+// parseMediaType splits a content type into the media type in lower case and
+// its parameters. A parameter that is malformed or repeated does not hide the
+// media type, mime.ParseMediaType may then return nothing at all.
+func parseMediaType(s string) (string, map[string]string) {
+	mediaType, params, err := mime.ParseMediaType(s)
+	if err != nil {
+		mediaType = strings.ToLower(strings.TrimSpace(strings.SplitN(s, ";", 2)[0]))
+	}
+	return mediaType, params
+}
diff --git a/modsecurity/variables/request_body.go b/modsecurity/variables/request_body.go
index 3813e1a..d05c211 100644
--- a/modsecurity/variables/request_body.go
+++ b/modsecurity/variables/request_body.go
@@ -1,7 +1,6 @@
 package variables
 
 import (
-	"mime"
 	"net/http"
 
 	"github.com/senghoo/modsecurity-go/modsecurity"
@@ -31,7 +30,7 @@ func (v *VariableRequestBody) Fetch(t *modsecurity.Transaction) []string {
 	if ct == "" {
 		return nil
 	}
-	ct, _, _ = mime.ParseMediaType(ct)
+	ct, _ = parseMediaType(ct)
 	if ct != "application/x-www-form-urlencoded" {
 		return nil
 	}
diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index d90dfd2..e747e27 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -3,7 +3,6 @@ package variables
 import (
 	"fmt"
 	"io"
-	"mime"
 	"mime/multipart"
 	"net/http"
 	"strings"
@@ -68,7 +67,7 @@ func requestBodyParse(t *modsecurity.Transaction, types ...int) (int, interface{
 	if ct == "" {
 		ct = "application/octet-stream"
 	}
-	ct, params, _ := mime.ParseMediaType(ct)
+	ct, params := parseMediaType(ct)
 	for _, tp := range types {
 		parser, has := parsers[tp]
 		if !has {
-- 
2.43.0


From abcf96585ca7c259af7336e484adb8772b3e449d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:50 +0000
Subject: [PATCH 34/50] fix: a malformed parameter does not hide the content
 type of the response

---
 modsecurity/variables/response_content_type.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/modsecurity/variables/response_content_type.go b/modsecurity/variables/response_content_type.go
index 8ad8acb..3ffd7a5 100644
--- a/modsecurity/variables/response_content_type.go
+++ b/modsecurity/variables/response_content_type.go
@@ -1,8 +1,6 @@
 package variables
 
 import (
-	"mime"
-
 	"github.com/senghoo/modsecurity-go/modsecurity"
 )
 
@@ -23,6 +21,6 @@ func (*VariableResponseContentType) Fetch(t *modsecurity.Transaction) []string {
 	if ct == "" {
 		ct = "application/octet-stream"
 	}
-	ct, _, _ = mime.ParseMediaType(ct)
+	ct, _ = parseMediaType(ct)
 	return []string{ct}
 }
-- 
2.43.0


From 6fc4e6a9f02b6710e92914489165bfea6841b114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:50 +0000
Subject: [PATCH 35/50] fix: a multipart body whose boundary is not known is
 malformed

---
 modsecurity/variables/request_body_parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index e747e27..2778b59 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -40,6 +40,9 @@ var parsers = map[int]*bodyParser{
 			if _, err := t.Request.Body.Seek(0, io.SeekStart); err != nil {
 				return nil, err
 			}
+			if params["boundary"] == "" {
+				return nil, http.ErrMissingBoundary
+			}
 			mr := multipart.NewReader(t.Request.Body, params["boundary"])
 			form, err := mr.ReadForm(t.Engine.RequestBodyInMem)
 			if err == multipart.ErrMessageTooLarge {
-- 
2.43.0


From a8e5d18ae10c78b6f3d557ed52a3c362af6c34c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:45 +0000
Subject: [PATCH 36/50] fix: a limit below zero leaves no room in memory
 instead of panicking

---
 modsecurity/buffer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modsecurity/buffer.go b/modsecurity/buffer.go
index f1d1038..c6ffb72 100644
--- a/modsecurity/buffer.go
+++ b/modsecurity/buffer.go
@@ -13,6 +13,9 @@ func newBuffer(dir string, memLimit, fileLimit int64) (*buffer, error) {
 	if err != nil {
 		return nil, err
 	}
+	if memLimit < 0 {
+		memLimit = 0
+	}
 	return &buffer{
 		dir:       dir,
 		memLimit:  memLimit,
-- 
2.43.0


From 09cc42e55e33eee3c127849be4aeb2dc054e6f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 37/50] fix: a file in place of the directory for bodies is an
 error

---
 modsecurity/buffer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modsecurity/buffer.go b/modsecurity/buffer.go
index c6ffb72..fdd0739 100644
--- a/modsecurity/buffer.go
+++ b/modsecurity/buffer.go
@@ -145,7 +145,10 @@ func (b *buffer) Close() error {
 }
 
 func makeBufferDir(dir string) error {
-	_, err := os.Stat(dir)
+	info, err := os.Stat(dir)
+	if err == nil && !info.IsDir() {
+		return errors.New(dir + " is not a directory")
+	}
 	if err != nil {
 		if os.IsNotExist(err) {
 			if err := os.MkdirAll(dir, 0700); err != nil {
-- 
2.43.0


From 1b24441a36378435d5dbf9b72d7dcef150577d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:55 +0000
Subject: [PATCH 38/50] fix: a jump to a rule before the first ends the phase
 instead of panicking

---
 modsecurity/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index 6137a05..1984542 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -124,7 +124,7 @@ func (s *Transaction) CurrentSecRule() *SecRule {
 }
 
 func (s *Transaction) JumpTo(i int) int {
-	if len(s.RuleSet.Phases[s.currentPhase]) <= i {
+	if i < 0 || len(s.RuleSet.Phases[s.currentPhase]) <= i {
 		s.nextRule = StatusEndOfRules
 		return StatusEndOfRules
 	}
-- 
2.43.0


From 2a651273a15006ee7dfc0c200062b149fd935413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:25 +0000
Subject: [PATCH 39/50] fix: skipping fewer than no rules does not go back

---
 modsecurity/actions/skip.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modsecurity/actions/skip.go b/modsecurity/actions/skip.go
index c7f702e..72b0034 100644
--- a/modsecurity/actions/skip.go
+++ b/modsecurity/actions/skip.go
@@ -30,6 +30,9 @@ func (a *ActionSkip) Value() string {
 
 }
 func (a *ActionSkip) Do(t *modsecurity.Transaction) {
+	if a.count < 0 {
+		return // never back
+	}
 	next := t.CurrentRule() + 1 + a.count
 	if next < a.count { // overflow
 		next = a.count
-- 
2.43.0


From 8198ee797042712ea65d83257d78956758900d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:37 +0000
Subject: [PATCH 40/50] fix: cookies are seen however the host writes the name
 of the header

---
 modsecurity/variables/request_cookies.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/modsecurity/variables/request_cookies.go b/modsecurity/variables/request_cookies.go
index feeb182..be7c5b2 100644
--- a/modsecurity/variables/request_cookies.go
+++ b/modsecurity/variables/request_cookies.go
@@ -28,8 +28,13 @@ func (v *VariableRequestCookies) Fetch(t *modsecurity.Transaction) []string {
 }
 
 func readCookie(h http.Header) map[string][]string {
-	lines, ok := h["Cookie"]
-	if !ok {
+	var lines []string
+	for name, vals := range h { // the host may not have canonicalized the names
+		if http.CanonicalHeaderKey(name) == "Cookie" {
+			lines = append(lines, vals...)
+		}
+	}
+	if lines == nil {
 		return nil
 	}
 
-- 
2.43.0


From d0a3771237496e9af440517480ad89f4077dff7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:41 +0000
Subject: [PATCH 41/50] fix: the type of a request body is known however the
 host writes the name of the header

---
 modsecurity/variables/media_type.go          | 16 ++++++++++++++++
 modsecurity/variables/request_body.go        |  2 +-
 modsecurity/variables/request_body_parser.go |  2 +-
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/modsecurity/variables/media_type.go b/modsecurity/variables/media_type.go
index 9093147..33f611a 100644
--- a/modsecurity/variables/media_type.go
+++ b/modsecurity/variables/media_type.go
@@ -2,6 +2,7 @@ package variables
 
 import (
 	"mime"
+	"net/http"
 	"strings"
 )
 
@@ -15,3 +16,18 @@ func parseMediaType(s string) (string, map[string]string) {
 	}
 	return mediaType, params
 }
+
+// headerValue is the value of a header of which the host may not have written
+// the name in the canonical form.
+func headerValue(h http.Header, name string) string {
+	if v := h.Get(name); v != "" {
+		return v
+	}
+	first, val := "", ""
+	for k, v := range h {
+		if len(v) > 0 && v[0] != "" && http.CanonicalHeaderKey(k) == name && (first == "" || k < first) {
+			first, val = k, v[0]
+		}
+	}
+	return val
+}
diff --git a/modsecurity/variables/request_body.go b/modsecurity/variables/request_body.go
index d05c211..f330015 100644
--- a/modsecurity/variables/request_body.go
+++ b/modsecurity/variables/request_body.go
@@ -26,7 +26,7 @@ func (v *VariableRequestBody) Fetch(t *modsecurity.Transaction) []string {
 	if !t.Engine.RequestBodyAccess || t.Request.Body.Len() == 0 {
 		return nil
 	}
-	ct := t.Request.Header.Get("Content-Type")
+	ct := headerValue(t.Request.Header, "Content-Type")
 	if ct == "" {
 		return nil
 	}
diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index 2778b59..1d2c942 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -66,7 +66,7 @@ func requestBodyParse(t *modsecurity.Transaction, types ...int) (int, interface{
 	if !t.Engine.RequestBodyAccess || t.Request.Body.Len() == 0 {
 		return bodyTypeNone, nil
 	}
-	ct := t.Request.Header.Get("Content-Type")
+	ct := headerValue(t.Request.Header, "Content-Type")
 	if ct == "" {
 		ct = "application/octet-stream"
 	}
-- 
2.43.0


From 3a1f6dd16a10f14ba96f2c80bd44b7abe4f98be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:44 +0000
Subject: [PATCH 42/50] fix: type and length of a response are known however
 the host writes the names of the headers

---
 modsecurity/variables/response_content_length.go | 2 +-
 modsecurity/variables/response_content_type.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/modsecurity/variables/response_content_length.go b/modsecurity/variables/response_content_length.go
index b2aaa7a..14889c2 100644
--- a/modsecurity/variables/response_content_length.go
+++ b/modsecurity/variables/response_content_length.go
@@ -17,7 +17,7 @@ func (*VariableResponseContentLength) Name() string {
 func (*VariableResponseContentLength) Include(string) error { return nil }
 func (*VariableResponseContentLength) Exclude(string) error { return nil }
 func (*VariableResponseContentLength) Fetch(t *modsecurity.Transaction) []string {
-	if res := t.Response.Header.Get("Content-Length"); res != "" {
+	if res := headerValue(t.Response.Header, "Content-Length"); res != "" {
 		return []string{res}
 	}
 	return []string{"0"}
diff --git a/modsecurity/variables/response_content_type.go b/modsecurity/variables/response_content_type.go
index 3ffd7a5..76be7fd 100644
--- a/modsecurity/variables/response_content_type.go
+++ b/modsecurity/variables/response_content_type.go
@@ -17,7 +17,7 @@ func (*VariableResponseContentType) Name() string {
 func (*VariableResponseContentType) Include(string) error { return nil }
 func (*VariableResponseContentType) Exclude(string) error { return nil }
 func (*VariableResponseContentType) Fetch(t *modsecurity.Transaction) []string {
-	ct := t.Response.Header.Get("Content-Type")
+	ct := headerValue(t.Response.Header, "Content-Type")
 	if ct == "" {
 		ct = "application/octet-stream"
 	}
-- 
2.43.0


From 4187fcf89f1e0134314e68899d10b67764217fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:11 +0000
Subject: [PATCH 43/50] fix: an abort without an error does not panic

---
 modsecurity/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index 1984542..db4a019 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -250,7 +250,7 @@ func (t *Transaction) AbortWithError(code int, err error) {
 	if !t.Engine.DetectionOnly {
 		t.AbortWithStatus(code)
 	}
-	t.Logf("abort process with error %s", err.Error())
+	t.Logf("abort process with error %v", err)
 }
 
 func (t *Transaction) AbortWithStatus(code int) {
-- 
2.43.0


From 16baf3003c70e5cfdf34e380408f75c1816547aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:43 +0000
Subject: [PATCH 44/50] fix: results collected after an abort no longer share
 their log

---
 modsecurity/transaction.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index db4a019..5a9622f 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -295,5 +295,6 @@ func (i *Intervention) Reset() {
 func (i *Intervention) Copy() *Intervention {
 	res := new(Intervention)
 	*res = *i
+	res.Log = append([]string(nil), i.Log...)
 	return res
 }
-- 
2.43.0


From 947ccea2f8fe3879e76cd22cf88ccfd2cf8738aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:03 +0000
Subject: [PATCH 45/50] fix: a denial takes the status of its own rule, not one
 left by an earlier rule

---
 modsecurity/sec_rule.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modsecurity/sec_rule.go b/modsecurity/sec_rule.go
index 743a0f2..86ad74d 100644
--- a/modsecurity/sec_rule.go
+++ b/modsecurity/sec_rule.go
@@ -95,6 +95,7 @@ func (r *SecRule) Do(t *Transaction) {
 			return
 		}
 	}
+	delete(t.Data, "status") // that of an earlier rule
 	ActionsExecute(t, r.Actions)
 	for _, sub := range r.SubRules {
 		ActionsExecute(t, sub.Actions)
-- 
2.43.0


From 2d933c39dfea5fd2b8214e3e1e9b35d20bc859ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:08 +0000
Subject: [PATCH 46/50] fix: a quoted string that is not closed at the end of
 the text is refused

---
 seclang/parser/scanner.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index 900516d..f177be9 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -89,10 +89,7 @@ func (s *Scanner) readString(delimiter ...rune) (string, error) {
 	for !runeInSlice(s.current, delimiter) {
 		switch s.current {
 		case EOS:
-			if s.buffer.Len() > 0 {
-				return "", fmt.Errorf("unexpected EOS after %s", s.buffer.String())
-			}
-			return "", nil
+			return "", fmt.Errorf("unexpected EOS after %s", s.buffer.String())
 		case '\n', '\r':
 			return "", errors.New("unfinished string got newline")
 		case '\\':
-- 
2.43.0


From a10085179d5ad7fad2af7d26b4bc27b96d331ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:31 +0000
Subject: [PATCH 47/50] fix: the selector of a target that is taken away or
 only excluded is checked too

---
 seclang/variable.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seclang/variable.go b/seclang/variable.go
index 1993d39..3f641e8 100644
--- a/seclang/variable.go
+++ b/seclang/variable.go
@@ -59,9 +59,6 @@ func (dr *DireRule) applyVariables(vs []*parser.Variable) error {
 		if !has {
 			return fmt.Errorf("variable %d is not implemented", v.Tk)
 		}
-		if v.Exclusion || (removed[v.Tk] && !v.Count) {
-			continue
-		}
 		variable, err := factory(v)
 		if err != nil {
 			return err
@@ -71,6 +68,9 @@ func (dr *DireRule) applyVariables(vs []*parser.Variable) error {
 				return err
 			}
 		}
+		if v.Exclusion || (removed[v.Tk] && !v.Count) { // only its selector had to be checked
+			continue
+		}
 		if v.Count {
 			variable = variables.NewCountVariable(variable)
 		} else {
-- 
2.43.0


From 0060a83ed0de640ddc9b69f0cddf08ab9f5b71be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:53 +0000
Subject: [PATCH 48/50] fix: cookies keep the blanks outside ASCII that they
 begin or end with

---
 modsecurity/variables/request_cookies.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modsecurity/variables/request_cookies.go b/modsecurity/variables/request_cookies.go
index be7c5b2..755cb5e 100644
--- a/modsecurity/variables/request_cookies.go
+++ b/modsecurity/variables/request_cookies.go
@@ -27,6 +27,10 @@ func (v *VariableRequestCookies) Fetch(t *modsecurity.Transaction) []string {
 	return v.filter.Fetch(readCookie(t.Request.Header))
 }
 
+// cookieBlanks may surround a cookie. Other characters that Unicode counts as
+// blanks are part of what was sent.
+const cookieBlanks = " \t\n\v\f\r"
+
 func readCookie(h http.Header) map[string][]string {
 	var lines []string
 	for name, vals := range h { // the host may not have canonicalized the names
@@ -40,13 +44,13 @@ func readCookie(h http.Header) map[string][]string {
 
 	res := make(map[string][]string)
 	for _, line := range lines {
-		parts := strings.Split(strings.TrimSpace(line), ";")
+		parts := strings.Split(strings.Trim(line, cookieBlanks), ";")
 		if len(parts) == 1 && parts[0] == "" {
 			continue
 		}
 		// Per-line attributes
 		for i := 0; i < len(parts); i++ {
-			parts[i] = strings.TrimSpace(parts[i])
+			parts[i] = strings.Trim(parts[i], cookieBlanks)
 			if len(parts[i]) == 0 {
 				continue
 			}
-- 
2.43.0


From 6f0cd314b078241531b3e1bc8f815d20688cb434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:27 +0000
Subject: [PATCH 49/50] fix: only the blanks of rule texts are cut off the
 arguments of actions

---
 seclang/parser/scanner.go | 7 +++----
 seclang/parser/utils.go   | 6 +++++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index f177be9..329335e 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -324,8 +324,7 @@ func (s *Scanner) ReadActions() (*Actions, error) {
 	if err != nil {
 		return nil, err
 	}
-	str = strings.TrimSpace(str)
-	// str = strings.Trim(str, "\r\n\t\f\v ")
+	str = strings.Trim(str, blanks)
 	if len(str) == 0 {
 		return nil, errors.New("expected actions bug got empty")
 	}
@@ -341,13 +340,13 @@ func (s *Scanner) ReadActions() (*Actions, error) {
 func parseAction(act string) (int, string, error) {
 	var arg string
 	s := strings.SplitN(act, ":", 2)
-	action := strings.TrimSpace(s[0])
+	action := strings.Trim(s[0], blanks)
 	tk, has := actionMap[action]
 	if !has {
 		return 0, "", fmt.Errorf("unknown action %s", s[0])
 	}
 	if len(s) > 1 {
-		arg = strings.TrimSpace(s[1])
+		arg = strings.Trim(s[1], blanks)
 	}
 	return tk, arg, nil
 }
diff --git a/seclang/parser/utils.go b/seclang/parser/utils.go
index 27f5ff0..8f35b4b 100644
--- a/seclang/parser/utils.go
+++ b/seclang/parser/utils.go
@@ -4,6 +4,10 @@ import (
 	"strings"
 )
 
+// blanks may surround an action, its name and its argument. Other characters
+// that Unicode counts as blanks are part of what is written.
+const blanks = " \f\t\v\r\n"
+
 func isBlank(c rune) bool    { return runeInSlice(c, []rune{' ', '\f', '\t', '\v'}) }
 func isNewLine(c rune) bool  { return c == '\n' || c == '\r' }
 func isDecimal(c rune) bool  { return '0' <= c && c <= '9' }
@@ -92,7 +96,7 @@ func actionEnd(s string) int {
 		if s[i] != s[start] {
 			continue
 		}
-		rest := strings.TrimLeft(s[i+1:], " \f\t\v\r\n")
+		rest := strings.TrimLeft(s[i+1:], blanks)
 		if rest == "" {
 			return len(s)
 		}
-- 
2.43.0


From c492778ecb223856ca8a4a6e7569436e74c515d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:28 +0000
Subject: [PATCH 50/50] fix: long action lists are split in one pass, not once
 for every quote

---
 seclang/parser/utils.go | 59 +++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 23 deletions(-)

diff --git a/seclang/parser/utils.go b/seclang/parser/utils.go
index 8f35b4b..b2151f5 100644
--- a/seclang/parser/utils.go
+++ b/seclang/parser/utils.go
@@ -66,43 +66,56 @@ func splitMulti(s string, seps string) []string {
 // argument belongs to that argument.
 func splitActions(s string) []string {
 	var res []string
-	for {
-		i := actionEnd(s)
-		if i == len(s) {
-			return append(res, s)
+	closing := make(map[byte]int)
+	for start := 0; ; {
+		end := actionEnd(s, start, closing)
+		res = append(res, s[start:end])
+		if end == len(s) {
+			return res
 		}
-		res = append(res, s[:i])
-		s = s[i+1:]
+		start = end + 1
 	}
 }
 
-// actionEnd finds the comma that ends the first action of s, or the end of s.
-func actionEnd(s string) int {
-	end := strings.Index(s, ",")
+// actionEnd finds the comma that ends the action of s that begins at start, or
+// the end of s. In closing it keeps what is known of the quotes that follow.
+func actionEnd(s string, start int, closing map[byte]int) int {
+	end := strings.Index(s[start:], ",")
 	if end < 0 {
 		return len(s)
 	}
-	start := strings.Index(s[:end], ":") + 1
-	if start == 0 {
+	end += start
+	arg := strings.Index(s[start:end], ":") + 1
+	if arg == 0 {
 		return end
 	}
-	for start < end && (isBlank(rune(s[start])) || isNewLine(rune(s[start]))) {
-		start++
+	arg += start
+	for arg < end && (isBlank(rune(s[arg])) || isNewLine(rune(s[arg]))) {
+		arg++
 	}
-	if start == end || !isQuote(rune(s[start])) {
+	if arg == end || !isQuote(rune(s[arg])) {
 		return end
 	}
-	for i := start + 1; i < len(s); i++ {
-		if s[i] != s[start] {
+	quote := s[arg]
+	if i, known := closing[quote]; !known || i <= arg {
+		closing[quote] = closingQuote(s, arg+1, quote)
+	}
+	if i := closing[quote]; i < len(s) {
+		return len(s) - len(strings.TrimLeft(s[i+1:], blanks))
+	}
+	return end // the quote is never closed, it is part of the argument
+}
+
+// closingQuote finds the first quote of s from start on behind which an action
+// ends, or the end of s.
+func closingQuote(s string, start int, quote byte) int {
+	for i := start; i < len(s); i++ {
+		if s[i] != quote {
 			continue
 		}
-		rest := strings.TrimLeft(s[i+1:], blanks)
-		if rest == "" {
-			return len(s)
-		}
-		if rest[0] == ',' {
-			return len(s) - len(rest)
+		if rest := strings.TrimLeft(s[i+1:], blanks); rest == "" || rest[0] == ',' {
+			return i
 		}
 	}
-	return end // the quote is never closed, it is part of the argument
+	return len(s)
 }
-- 
2.43.0

