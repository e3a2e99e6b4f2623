From ee9b74d5b5ee6b0fb37f74179663b9db6d8547d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 01/28] fix: give every yaml file its own overlay list

---
 internal/instructions/instructions.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/instructions/instructions.go b/internal/instructions/instructions.go
index 0fcd18b..293a3e0 100644
--- a/internal/instructions/instructions.go
+++ b/internal/instructions/instructions.go
@@ -112,7 +112,11 @@ func (cfg *Config) ReadInstructionFile() (*Instructions, error) {
 // addCommonOverlays, takes all common overlays and adds them to each yamlFile entry.
 func (i *Instructions) addCommonOverlays() {
 	for _, yf := range i.YamlFiles {
-		yf.Overlays = append(i.CommonOverlays, yf.Overlays...)
+		// always build a new list: appending to the shared common overlays could let one file's overlays
+		// overwrite the ones already queued for another file
+		merged := make([]*overlays.Overlay, 0, len(i.CommonOverlays)+len(yf.Overlays))
+		merged = append(merged, i.CommonOverlays...)
+		yf.Overlays = append(merged, yf.Overlays...)
 	}
 }
 
-- 
2.43.0


From b35ba6742fcd0766653e2dfb40d321ad9943f280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 02/28] fix: do not write to shared overlays while files are
 processed concurrently

---
 internal/overlays/onmissing.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/overlays/onmissing.go b/internal/overlays/onmissing.go
index f5607fe..a789053 100644
--- a/internal/overlays/onmissing.go
+++ b/internal/overlays/onmissing.go
@@ -28,9 +28,12 @@ type OnMissing struct {
 }
 
 func (o *Overlay) onMissing(n *yaml.Node) error {
-	if o.OnMissing.Action == actions.Default {
+	// overlays are shared between concurrently processed files, so never store the resolved action in the overlay
+	action := o.OnMissing.Action
+
+	if action == actions.Default {
 		if strings.EqualFold(viper.GetString("defaultOnMissingAction"), "inject") {
-			o.OnMissing.Action = actions.Inject
+			action = actions.Inject
 		}
 	}
 
@@ -39,7 +42,7 @@ func (o *Overlay) onMissing(n *yaml.Node) error {
 	// we need to then check if each inject path is valid (does it exist)
 	// if we had an inject path(s) then we inject the value to those locations
 	// if we didn't have an inject path we have an implicit onMissing: ignore and we put out a warning if not stdout option to terminal
-	switch o.OnMissing.Action {
+	switch action {
 	case actions.Inject:
 		return o.handleInjectPath(n)
 	default:
-- 
2.43.0


From 7863c8f898291a4ee25667e66e565a369991c088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 03/28] fix: never inject missing content for delete and
 combine overlays

---
 internal/overlays/onmissing.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/overlays/onmissing.go b/internal/overlays/onmissing.go
index a789053..e8a39b3 100644
--- a/internal/overlays/onmissing.go
+++ b/internal/overlays/onmissing.go
@@ -31,6 +31,13 @@ func (o *Overlay) onMissing(n *yaml.Node) error {
 	// overlays are shared between concurrently processed files, so never store the resolved action in the overlay
 	action := o.OnMissing.Action
 
+	// injecting only makes sense for actions that add content
+	if o.Action == actions.Delete || o.Action == actions.Combine {
+		log.Debugf("ignoring %s at %s, onMissing only applies to merge and replace\n", o.Action, o.Query)
+
+		return nil
+	}
+
 	if action == actions.Default {
 		if strings.EqualFold(viper.GetString("defaultOnMissingAction"), "inject") {
 			action = actions.Inject
-- 
2.43.0


From cb74096ba72df7cc56da65e0fbe6822098b98b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 04/28] fix: keep existing line and foot comments the overlay
 does not set

---
 internal/actions/merge.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 372e647..d3f2f3f 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -186,16 +186,15 @@ func mergeComments(o, n *yaml.Node, values ...string) {
 		keyName = values[0]
 	}
 
-	switch {
-	case n.HeadComment != "":
+	if n.HeadComment != "" {
 		o.HeadComment = format(n.HeadComment, value, lc, hc, fc, keyName)
+	}
 
-		fallthrough
-	case n.LineComment != "":
+	if n.LineComment != "" {
 		o.LineComment = format(n.LineComment, value, lc, hc, fc, keyName)
+	}
 
-		fallthrough
-	case n.FootComment != "":
+	if n.FootComment != "" {
 		o.FootComment = format(n.FootComment, value, lc, hc, fc, keyName)
 	}
 }
-- 
2.43.0


From 52e2323e22cf454cc45abfabdea9801d96667420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 05/28] fix: remove the comments attached to the document
 itself

---
 internal/instructions/yamlfile.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index e06fd3a..4a24dc3 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -180,15 +180,11 @@ func (yfs *YamlFiles) mergeDuplicates() {
 
 // removeCommentsFromNode will traverse the tree of yaml nodes and remove all comments.
 func removeCommentsFromNode(node *yaml.Node) {
-	if node.Content == nil {
-		return
-	}
+	node.HeadComment = ""
+	node.LineComment = ""
+	node.FootComment = ""
 
 	for _, child := range node.Content {
-		child.HeadComment = ""
-		child.LineComment = ""
-		child.FootComment = ""
-
 		removeCommentsFromNode(child)
 	}
 }
-- 
2.43.0


From c7825fdf5f3883bc8123b0d3f00e372f00ffb3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 06/28] fix: combine output styles as flags so repeated styles
 do not change each other

---
 internal/actions/style.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index ed05565..4aa37c0 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -59,7 +59,7 @@ func (ss Styles) FlagMap() map[Style][]string {
 func (ss Styles) GetStyle() Style {
 	var s Style
 	for _, v := range ss {
-		s += v
+		s |= v
 	}
 
 	return s
-- 
2.43.0


From ae373e79886ba43a7ec4e2c394cf7880adb69b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 07/28] fix: bind environment variables to their settings

---
 internal/commands/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/commands/root.go b/internal/commands/root.go
index 8eaa323..7f2eca6 100644
--- a/internal/commands/root.go
+++ b/internal/commands/root.go
@@ -47,7 +47,7 @@ func New() *Root {
 
 func (r *Root) initConfig() {
 	for k, v := range envMap() {
-		if err := viper.BindEnv(k, v); err != nil {
+		if err := viper.BindEnv(v, k); err != nil {
 			r.Log.Fatal(err)
 		}
 	}
-- 
2.43.0


From 182197acd975186fdaef2309b967eb125fcecbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 08/28] fix: report an invalid log level instead of panicking

---
 internal/commands/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/commands/root.go b/internal/commands/root.go
index 7f2eca6..f31f355 100644
--- a/internal/commands/root.go
+++ b/internal/commands/root.go
@@ -141,7 +141,7 @@ func (r *Root) SetupLogging(cmd *cobra.Command, args []string) {
 
 	logLevel, err := logging.LogLevel((viper.GetString("logLevel")))
 	if err != nil {
-		panic(err)
+		r.Log.Fatal(err)
 	}
 
 	backend.SetLevel(logLevel, "")
-- 
2.43.0


From 5e38c1e3f40ded332024337767f969f8ad1f32bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 09/28] fix: register the sprig functions before parsing the
 instructions template

---
 internal/instructions/template.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/instructions/template.go b/internal/instructions/template.go
index 815f730..7c35147 100644
--- a/internal/instructions/template.go
+++ b/internal/instructions/template.go
@@ -7,19 +7,20 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"path/filepath"
 	"text/template"
 
 	"github.com/Masterminds/sprig/v3"
 )
 
 func renderInstructionsTemplate(fileName string, values interface{}) (io.Reader, error) {
-	tpl, err := template.ParseFiles(fileName)
+	tpl := template.New(filepath.Base(fileName)).Funcs(template.FuncMap(sprig.FuncMap())).Option("missingkey=zero")
+
+	tpl, err := tpl.ParseFiles(fileName)
 	if err != nil {
 		return nil, fmt.Errorf("unable to process template for instructions file %s, %w", fileName, err)
 	}
 
-	tpl = tpl.Funcs(template.FuncMap(sprig.FuncMap())).Option("missingkey=zero")
-
 	var b bytes.Buffer
 
 	if err := tpl.Execute(&b, values); err != nil {
-- 
2.43.0


From 42c0bc65939e40bc516b8fe840a303975db46479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 10/28] fix: keep default output paths inside the output
 directory

---
 internal/instructions/utils.go    | 3 ++-
 internal/instructions/yamlfile.go | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/instructions/utils.go b/internal/instructions/utils.go
index 454c8be..7c0d51a 100644
--- a/internal/instructions/utils.go
+++ b/internal/instructions/utils.go
@@ -10,6 +10,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"strings"
 )
 
 func ReadStream(fileName string) (io.Reader, error) {
@@ -38,7 +39,7 @@ func GetCommonPrefix(sep byte, paths ...string) string {
 	case 0:
 		return ""
 	case 1:
-		return path.Dir(path.Clean(paths[0])) + string(os.PathSeparator)
+		return strings.TrimSuffix(path.Dir(path.Clean(paths[0])), string(sep)) + string(os.PathSeparator)
 	}
 
 	c := path.Clean(paths[0]) + string(sep)
diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index 4a24dc3..0813a61 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -122,6 +122,9 @@ func (yfs *YamlFiles) expandDirectories() error {
 			y[i].Path = path.Join(viper.GetString("instructionsDir"), y[i].Path)
 		}
 
+		// the output path is the path without the common prefix, which only matches clean paths
+		y[i].Path = path.Clean(y[i].Path)
+
 		if ok, err := isDirectory(y[i].Path); err != nil {
 			return err
 		} else if ok {
-- 
2.43.0


From e2f1ca272384fb7c320acda6645c507b1b3ef762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 11/28] fix: reject unknown onMissing actions

---
 internal/actions/action.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/actions/action.go b/internal/actions/action.go
index e2b6144..8660cc2 100644
--- a/internal/actions/action.go
+++ b/internal/actions/action.go
@@ -17,6 +17,9 @@ var log = logging.MustGetLogger("overlays") //nolint:gochecknoglobals
 // ErrInvalidAction occurs when user passes a action that is not one of merge, replace, delete, combine.
 var ErrInvalidAction = errors.New("invalid overlay action")
 
+// ErrInvalidOnMissingAction occurs when user passes an onMissing action that is not one of default, ignore, inject.
+var ErrInvalidOnMissingAction = errors.New("invalid onMissing action")
+
 type Action int
 
 const (
@@ -117,12 +120,18 @@ func (a *OnMissingAction) UnmarshalYAML(value *yaml.Node) error {
 	y = strings.ToLower(y)
 
 	toID := map[string]OnMissingAction{
+		"":        Default,
 		"default": Default,
 		"ignore":  Ignore,
 		"inject":  Inject,
 	}
 
-	*a = toID[y]
+	action, ok := toID[y]
+	if !ok {
+		return fmt.Errorf("%w, %s", ErrInvalidOnMissingAction, y)
+	}
+
+	*a = action
 
 	return nil
 }
-- 
2.43.0


From c39bd3c92cb9f0c3f1044d7cd8eff932aba67a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 12/28] fix: start the output of every file with a document
 separator

---
 internal/instructions/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index b2d5b59..432134b 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -117,12 +117,12 @@ func (cfg *Config) encodeNodes(nodes []*yaml.Node) (*bytes.Buffer, error) {
 
 	ye.SetIndent(viper.GetInt("indentLevel"))
 
-	for i, node := range nodes {
+	for _, node := range nodes {
 		if len(node.Content) == 0 {
 			continue
 		}
 
-		if i == 0 {
+		if !fileWritten {
 			output.WriteString("---\n")
 		}
 
-- 
2.43.0


From 3718a4f33b40ec311d8d0556676be6c271a2e3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 13/28] fix: keep error messages out of stdout

---
 internal/commands/root.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/internal/commands/root.go b/internal/commands/root.go
index f31f355..b0e2da2 100644
--- a/internal/commands/root.go
+++ b/internal/commands/root.go
@@ -130,8 +130,6 @@ func (r *Root) AddCommands() {
 }
 
 func (r *Root) SetupLogging(cmd *cobra.Command, args []string) {
-	cmd.SetOut(cmd.OutOrStdout())
-
 	format := logging.MustStringFormatter(
 		`%{color}%{time:15:04:05} [%{level}]%{color:reset} %{message}`,
 	)
-- 
2.43.0


From 86cea54aae654aac36407cb05346bb4184d51311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 14/28] fix: accept the documented singleQuote output style

---
 internal/actions/style.go | 2 +-
 internal/commands/docs.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index 4aa37c0..7144512 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -49,7 +49,7 @@ func (ss Styles) FlagMap() map[Style][]string {
 		NormalStyle:       {"normal", "n"},
 		TaggedStyle:       {"tagged", "tag", "t"},
 		DoubleQuotedStyle: {"doubleQuoted", "doubleQuote", "double", "dq"},
-		SingleQuotedStyle: {"singleQuoted", "singleQoute", "single", "sq"},
+		SingleQuotedStyle: {"singleQuoted", "singleQuote", "single", "sq"},
 		LiteralStyle:      {"literal", "l"},
 		FoldedStyle:       {"folded", "fold", "fo"},
 		FlowStyle:         {"flow", "fl"},
diff --git a/internal/commands/docs.go b/internal/commands/docs.go
index 135ce7b..8224820 100644
--- a/internal/commands/docs.go
+++ b/internal/commands/docs.go
@@ -76,7 +76,7 @@ Multiple values can be provided to achieve the desired result, valid values are:
 	NORMAL:       {"normal", "n"},
 	TAGGED:       {"tagged", "tag", "t"},
 	DOUBLEQUOTED: {"doubleQuoted", "doubleQuote", "double", "dq"},
-	SINGLEQUOTED: {"singleQuoted", "singleQoute", "single", "sq"},
+	SINGLEQUOTED: {"singleQuoted", "singleQuote", "single", "sq"},
 	LITERAL:      {"literal", "l"},
 	FOLDED:       {"folded", "fold", "fo"},
 	FLOW:         {"flow", "fl"}
-- 
2.43.0


From b505eec793fce7deec6f3c206321c2778238b92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 15/28] fix: do not crash when there is no path to inject to

---
 internal/builder/path.go       | 4 ++++
 internal/overlays/onmissing.go | 7 +++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/builder/path.go b/internal/builder/path.go
index f54876d..905ad5f 100644
--- a/internal/builder/path.go
+++ b/internal/builder/path.go
@@ -118,6 +118,10 @@ func newPath(l *lexer) (*Path, error) {
 }
 
 func (paths *Paths) BuildPaths() (*yaml.Node, error) {
+	if len(*paths) == 0 {
+		return nil, fmt.Errorf("%w, no path given", ErrInvalidPathSyntax)
+	}
+
 	yamlNodes := make([]*yaml.Node, len(*paths))
 
 	for i, p := range *paths {
diff --git a/internal/overlays/onmissing.go b/internal/overlays/onmissing.go
index e8a39b3..c217a2f 100644
--- a/internal/overlays/onmissing.go
+++ b/internal/overlays/onmissing.go
@@ -65,7 +65,10 @@ func (o *Overlay) doInjectPath(ip Queries, node *yaml.Node) error {
 		return fmt.Errorf("failed to build inject path %s, %w", ip, err)
 	}
 
-	y, _ := bps.BuildPaths()
+	y, err := bps.BuildPaths()
+	if err != nil {
+		return fmt.Errorf("failed to build inject path %s, %w", ip, err)
+	}
 
 	err = actions.MergeNode(node, y)
 	if err != nil {
@@ -87,7 +90,7 @@ func (o *Overlay) handleInjectPath(n *yaml.Node) error {
 	_, err := builder.NewPaths(o.Query.Paths())
 	if err != nil {
 		if errors.Is(err, builder.ErrInvalidPathSyntax) {
-			if o.OnMissing.InjectPath == nil {
+			if len(o.OnMissing.InjectPath) == 0 {
 				log.Debugf("ignoring %s at %s due to %s\n", o.Action, o.Query, ErrOnMissingNoInjectPath)
 
 				return nil
-- 
2.43.0


From ac8a2d852d2cacc2b8aba8d3251791ddaa108a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 16/28] fix: do not crash when merging into a document whose
 content was deleted

---
 internal/actions/merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index d3f2f3f..993b9d7 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -55,7 +55,7 @@ func merge(o, n *yaml.Node, keyName ...string) error {
 }
 
 func mergeDocument(o, n *yaml.Node) error {
-	if o.Content != nil && n.Content != nil {
+	if len(o.Content) != 0 && len(n.Content) != 0 {
 		mergeComments(o, n, o.Value)
 
 		if err := merge(o.Content[0], n.Content[0], o.Value); err != nil {
-- 
2.43.0


From 134a84f1f9ea7af8a20a1c5f65cc0a12d3a8cdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 17/28] fix: report a negative indent level instead of
 panicking

---
 internal/instructions/config.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index 432134b..a378859 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -5,6 +5,7 @@ package instructions
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io/fs"
 	"os"
@@ -17,6 +18,9 @@ import (
 	"gopkg.in/yaml.v3"
 )
 
+// ErrInvalidIndentLevel occurs when the indent level is set to a negative number.
+var ErrInvalidIndentLevel = errors.New("indent level cannot be negative")
+
 // Config contains configuration options used with instruction files.
 type Config struct {
 	LogLevel               logging.Level
@@ -115,7 +119,12 @@ func (cfg *Config) encodeNodes(nodes []*yaml.Node) (*bytes.Buffer, error) {
 		}
 	}()
 
-	ye.SetIndent(viper.GetInt("indentLevel"))
+	indent := viper.GetInt("indentLevel")
+	if indent < 0 {
+		return nil, fmt.Errorf("%w, got %d", ErrInvalidIndentLevel, indent)
+	}
+
+	ye.SetIndent(indent)
 
 	for _, node := range nodes {
 		if len(node.Content) == 0 {
-- 
2.43.0


From b0e0545d3e4cc8cb592ce7c1f64212c55535e6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 18/28] fix: report integer overflow of the combine action

---
 internal/actions/combine.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/actions/combine.go b/internal/actions/combine.go
index 7064c7b..16b70b1 100644
--- a/internal/actions/combine.go
+++ b/internal/actions/combine.go
@@ -14,6 +14,9 @@ import (
 // ErrCombineOnlyForScalars occurs when a non-scalar is attempted to be combined with a scalar value.
 var ErrCombineOnlyForScalars = errors.New("combine action can only be used on scalar values")
 
+// ErrCombineOverflow occurs when the sum of two combined integers is out of range.
+var ErrCombineOverflow = errors.New("combined integer value is out of range")
+
 func CombineNode(originalValue, newValue *yaml.Node) error {
 	if originalValue.Kind != yaml.ScalarNode || newValue.Kind != yaml.ScalarNode {
 		return ErrCombineOnlyForScalars
@@ -33,7 +36,12 @@ func CombineNode(originalValue, newValue *yaml.Node) error {
 			return fmt.Errorf("failed to %s to int for merging: %w", newValue.Value, err)
 		}
 
-		originalValue.Value = strconv.Itoa(o + n)
+		sum := o + n
+		if (n > 0 && sum < o) || (n < 0 && sum > o) {
+			return fmt.Errorf("%w: %s and %s", ErrCombineOverflow, originalValue.Value, newValue.Value)
+		}
+
+		originalValue.Value = strconv.Itoa(sum)
 
 		return nil
 
-- 
2.43.0


From 77bd35e9c3401ef12cdaeef2dc9772ea398c1084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 19/28] fix: report empty list entries in the instructions
 instead of crashing

---
 internal/instructions/instructions.go |  4 ++++
 internal/instructions/yamlfile.go     | 31 +++++++++++++++++++++++++++
 internal/overlays/overlay.go          | 12 +++++++++++
 internal/overlays/query.go            | 10 +++++++++
 4 files changed, 57 insertions(+)

diff --git a/internal/instructions/instructions.go b/internal/instructions/instructions.go
index 293a3e0..7a606d8 100644
--- a/internal/instructions/instructions.go
+++ b/internal/instructions/instructions.go
@@ -106,6 +106,10 @@ func (cfg *Config) ReadInstructionFile() (*Instructions, error) {
 		return nil, fmt.Errorf("unable to read instructions file %s: %w", cfg.InstructionsFile, err)
 	}
 
+	if err := checkOverlays(instructions.CommonOverlays); err != nil {
+		return nil, fmt.Errorf("unable to read instructions file %s: %w", cfg.InstructionsFile, err)
+	}
+
 	return &instructions, nil
 }
 
diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index 0813a61..f161485 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -63,6 +63,26 @@ func (yfs *YamlFiles) UnmarshalYAML(value *yaml.Node) error {
 		return fmt.Errorf("%w at line %d column %d", err, value.Line, value.Column)
 	}
 
+	for _, yf := range yft {
+		if yf == nil {
+			return fmt.Errorf("%w in yamlFiles at line %d column %d", overlays.ErrEmptyEntry, value.Line, value.Column)
+		}
+
+		if err := checkOverlays(yf.Overlays); err != nil {
+			return err
+		}
+
+		for _, d := range yf.Documents {
+			if d == nil {
+				return fmt.Errorf("%w in documents at line %d column %d", overlays.ErrEmptyEntry, value.Line, value.Column)
+			}
+
+			if err := checkOverlays(d.Overlays); err != nil {
+				return err
+			}
+		}
+	}
+
 	y := YamlFiles(yft)
 	if err := y.expandDirectories(); err != nil {
 		return fmt.Errorf("%w at line %d column %d", err, value.Line, value.Column)
@@ -81,6 +101,17 @@ func (yfs *YamlFiles) UnmarshalYAML(value *yaml.Node) error {
 	return nil
 }
 
+// checkOverlays makes sure that every entry of a list of overlays has content.
+func checkOverlays(list []*overlays.Overlay) error {
+	for _, o := range list {
+		if o == nil {
+			return fmt.Errorf("%w in overlays", overlays.ErrEmptyEntry)
+		}
+	}
+
+	return nil
+}
+
 func (yf *YamlFile) readYamlFile() error {
 	reader, err := ReadStream(yf.Path)
 	if err != nil {
diff --git a/internal/overlays/overlay.go b/internal/overlays/overlay.go
index b1c44e1..ed046a3 100644
--- a/internal/overlays/overlay.go
+++ b/internal/overlays/overlay.go
@@ -87,6 +87,18 @@ func (o *Overlay) UnmarshalYAML(value *yaml.Node) error {
 		return fmt.Errorf("failed to unmarshal overlay due to %w at line %d column %d", err, value.Line, value.Column)
 	}
 
+	for _, dq := range o.DocumentQuery {
+		if dq == nil {
+			return fmt.Errorf("%w in documentQuery at line %d column %d", ErrEmptyEntry, value.Line, value.Column)
+		}
+
+		for _, c := range dq.Conditions {
+			if c == nil {
+				return fmt.Errorf("%w in conditions at line %d column %d", ErrEmptyEntry, value.Line, value.Column)
+			}
+		}
+	}
+
 	switch "" {
 	case o.Name:
 		o.Name = o.Query.String()
diff --git a/internal/overlays/query.go b/internal/overlays/query.go
index 9928230..2b03f20 100644
--- a/internal/overlays/query.go
+++ b/internal/overlays/query.go
@@ -4,6 +4,7 @@
 package overlays
 
 import (
+	"errors"
 	"fmt"
 	"strings"
 
@@ -11,6 +12,9 @@ import (
 	"gopkg.in/yaml.v3"
 )
 
+// ErrEmptyEntry occurs when a list contains an entry without any content.
+var ErrEmptyEntry = errors.New("empty list entry")
+
 type Query struct {
 	yamlPath    *yamlpath.Path
 	queryString string
@@ -65,6 +69,12 @@ func (mq *Queries) UnmarshalYAML(value *yaml.Node) error {
 		return fmt.Errorf("%w at line %d column %d", err, value.Line, value.Column)
 	}
 
+	for _, q := range *mq {
+		if q.yamlPath == nil {
+			return fmt.Errorf("%w in query at line %d column %d", ErrEmptyEntry, value.Line, value.Column)
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 5d6e112c2c1ce446e4152fa6d2a1ee1b3034539d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 20/28] fix: output files in the order they are listed

---
 internal/instructions/execute.go | 36 +++++++++++---------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/internal/instructions/execute.go b/internal/instructions/execute.go
index 158c583..8e66668 100644
--- a/internal/instructions/execute.go
+++ b/internal/instructions/execute.go
@@ -4,7 +4,6 @@
 package instructions
 
 import (
-	"context"
 	"fmt"
 
 	"github.com/op/go-logging"
@@ -16,15 +15,13 @@ var log = logging.MustGetLogger("instructions") //nolint:gochecknoglobals
 
 // Execute takes in configuratation options and executes overlays on an instruction file specified.
 func Execute(cfg *Config) error {
-	eg, ctx := errgroup.WithContext(context.Background())
+	var eg errgroup.Group
 
 	instructions, err := cfg.GetInstructions()
 	if err != nil {
 		return err
 	}
 
-	pChan := make(chan *YamlFile, len(instructions.YamlFiles))
-
 	for _, yamlFile := range instructions.YamlFiles {
 		yf := yamlFile
 
@@ -40,34 +37,25 @@ func Execute(cfg *Config) error {
 					return fmt.Errorf("%w", err)
 				}
 
-				select {
-				case pChan <- yf:
-					return nil
-				case <-ctx.Done():
-					if err := ctx.Err(); err != nil {
-						return fmt.Errorf("%w", err)
-					}
-
-					return nil
-				}
+				return nil
 			},
 		)
 	}
 
-	go func() {
-		eg.Wait() //nolint:errcheck // we use this to gracefully close the channel and receive the err later
-		close(pChan)
-	}()
-
-	if err := PostProcessHandler(cfg, pChan); err != nil {
-		return err
-	}
-
 	if err := eg.Wait(); err != nil {
 		return fmt.Errorf("%w", err)
 	}
 
-	return nil
+	// files finish in any order, but they are always output in the order they are listed
+	pChan := make(chan *YamlFile, len(instructions.YamlFiles))
+
+	for _, yf := range instructions.YamlFiles {
+		pChan <- yf
+	}
+
+	close(pChan)
+
+	return PostProcessHandler(cfg, pChan)
 }
 
 // PostProcessHandler waits for YamlFile objects and preforms post overlay tasks like rendering,
-- 
2.43.0


From e7ebe64837d3727ebb5d84aaf35e1758810633b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 21/28] fix: report output files that cannot be completely
 written

---
 internal/instructions/config.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index a378859..7e7352e 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -38,11 +38,9 @@ type Config struct {
 }
 
 // doPostProcessing renders a document and outputs it to the location specified in config.
-func (cfg *Config) doPostProcessing(yf *YamlFile) error {
+func (cfg *Config) doPostProcessing(yf *YamlFile) (err error) {
 	var o *os.File
 
-	var err error
-
 	output, err := cfg.encodeNodes(yf.Nodes)
 	if err != nil {
 		return fmt.Errorf("unable to marshal final document %s, error: %w", yf.Path, err)
@@ -63,7 +61,11 @@ func (cfg *Config) doPostProcessing(yf *YamlFile) error {
 			return err
 		}
 
-		defer CloseFile(o)
+		defer func() {
+			if cerr := o.Close(); cerr != nil && err == nil {
+				err = fmt.Errorf("failed to close file %s: %w", o.Name(), cerr)
+			}
+		}()
 	}
 
 	if _, err = output.WriteTo(o); err != nil {
-- 
2.43.0


From eaff80d45018ac813b72040da98dc83a67e500e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 22/28] fix: format the comments of keys with format markers
 only once

---
 internal/actions/merge.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 993b9d7..4b70e04 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -91,7 +91,9 @@ func mergeMap(o, n *yaml.Node) error {
 			keyName := o.Content[oi].Value
 			value := o.Content[oi+1].Value
 
-			mergeComments(o.Content[oi], n.Content[ni], value, keyName)
+			if !foundMarker {
+				mergeComments(o.Content[oi], n.Content[ni], value, keyName)
+			}
 
 			if err := merge(o.Content[oi+1], n.Content[ni+1], keyName); err != nil {
 				return err
-- 
2.43.0


From d912583ad4fbdf240c5301b173f10bc6d935cc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:44 +0000
Subject: [PATCH 23/28] fix: apply the comments of overlay maps and of empty
 sequences

---
 internal/actions/merge.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 4b70e04..0f05f30 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -67,6 +67,8 @@ func mergeDocument(o, n *yaml.Node) error {
 }
 
 func mergeMap(o, n *yaml.Node) error {
+	mergeComments(o, n)
+
 	for ni := 0; ni < len(n.Content)-1; ni += 2 {
 		resultFound := false
 
@@ -117,6 +119,8 @@ func mergeMap(o, n *yaml.Node) error {
 }
 
 func mergeArray(o, n *yaml.Node) error {
+	mergeComments(o, n)
+
 	if o.Kind != yaml.SequenceNode {
 		o.Kind = yaml.SequenceNode
 		o.Tag = "!!seq"
@@ -125,8 +129,6 @@ func mergeArray(o, n *yaml.Node) error {
 	}
 
 	if n.Content != nil {
-		mergeComments(o, n, o.Value)
-
 		if err := addNode(o, n.Content...); err != nil {
 			return err
 		}
-- 
2.43.0


From 28c026e6517841ec9a3be04957f1735fe8b28ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:49 +0000
Subject: [PATCH 24/28] fix: no common prefix is removed from paths without a
 common directory

---
 internal/instructions/utils.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/internal/instructions/utils.go b/internal/instructions/utils.go
index 7c0d51a..4f95106 100644
--- a/internal/instructions/utils.go
+++ b/internal/instructions/utils.go
@@ -62,13 +62,12 @@ func GetCommonPrefix(sep byte, paths ...string) string {
 
 	for i := len(c) - 1; i >= 0; i-- {
 		if c[i] == sep {
-			c = c[:i]
-
-			break
+			return c[:i] + string(os.PathSeparator)
 		}
 	}
 
-	return c + string(os.PathSeparator)
+	// the paths have no directory in common
+	return ""
 }
 
 // isDirectory determines if the given path is a directory.
-- 
2.43.0


From f60c2d6a3ee3628961098106dcc8b516b8b4cd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:08 +0000
Subject: [PATCH 25/28] fix: unescape the names of injected paths only once

---
 internal/builder/path.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/builder/path.go b/internal/builder/path.go
index 905ad5f..e3d3c9a 100644
--- a/internal/builder/path.go
+++ b/internal/builder/path.go
@@ -100,8 +100,7 @@ func newPath(l *lexer) (*Path, error) {
 			return nil, fmt.Errorf("%w, wildcard notation not allowed for build", ErrInvalidPathSyntax)
 		}
 
-		childName = unescape(childName)
-
+		// childThen unescapes the name
 		return childThen(l, childName)
 
 	case lexemeUndottedChild:
-- 
2.43.0


From b534088b8d4ee3bde2fbfaa4895b542ce7e68595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:22 +0000
Subject: [PATCH 26/28] fix: follow links when collecting the files of a
 directory

A link with a YAML extension that leads to a directory was listed as a file,
expanded again to itself and kept the run busy forever, and a directory given
as a link to it was silently taken to be empty.
---
 internal/instructions/utils.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/instructions/utils.go b/internal/instructions/utils.go
index 4f95106..c71600d 100644
--- a/internal/instructions/utils.go
+++ b/internal/instructions/utils.go
@@ -84,7 +84,8 @@ func isDirectory(p string) (bool, error) {
 func getFileNames(p string) ([]string, error) {
 	var results []string
 
-	err := filepath.Walk(p,
+	// the separator makes the walk start in the directory even if the path itself is a link to it
+	err := filepath.Walk(p+string(filepath.Separator),
 		func(path string, info os.FileInfo, err error) error {
 			if err != nil {
 				return err
@@ -95,7 +96,12 @@ func getFileNames(p string) ([]string, error) {
 			}
 
 			if filepath.Ext(path) == ".yaml" || filepath.Ext(path) == ".yml" {
-				results = append(results, path)
+				// a link may lead to a directory, which is no file to process
+				if ok, err := isDirectory(path); err != nil {
+					return err
+				} else if !ok {
+					results = append(results, path)
+				}
 			}
 
 			return nil
-- 
2.43.0


From 80e1bcaa121e60c90708d9bc1aa65d41bc946c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:05 +0000
Subject: [PATCH 27/28] fix: report values that contain themselves instead of
 copying them for ever

---
 internal/actions/merge.go   | 36 ++++++++++++++++++++++++++++++++++++
 internal/actions/replace.go |  4 ++++
 2 files changed, 40 insertions(+)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 0f05f30..0896b3c 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -17,6 +17,8 @@ var (
 	ErrMergeMustBeOfSameKind = errors.New("both values must be of same type to use 'merge' action")
 	// ErrMergeUnsupportedType occurs when an unsupported YAML type is attempted to be merged.
 	ErrMergeUnsupportedType = errors.New("not a supported yaml type for merging")
+	// ErrContainsItself occurs when a value contains itself through an alias.
+	ErrContainsItself = errors.New("value contains itself")
 )
 
 func MergeNode(nodes ...*yaml.Node) error {
@@ -203,7 +205,41 @@ func mergeComments(o, n *yaml.Node, values ...string) {
 	}
 }
 
+// checkAliases reports nodes that contain themselves through an alias; a copy of them would never be complete.
+// visited holds the nodes met so far, and whether the search is still inside of them.
+func checkAliases(visited map[*yaml.Node]bool, nodes ...*yaml.Node) error {
+	for _, n := range nodes {
+		if inside, ok := visited[n]; ok {
+			if inside {
+				return fmt.Errorf("%w on line %d, column %d", ErrContainsItself, n.Line, n.Column)
+			}
+
+			continue
+		}
+
+		visited[n] = true
+
+		if n.Alias != nil {
+			if err := checkAliases(visited, n.Alias); err != nil {
+				return err
+			}
+		}
+
+		if err := checkAliases(visited, n.Content...); err != nil {
+			return err
+		}
+
+		visited[n] = false
+	}
+
+	return nil
+}
+
 func addNode(o *yaml.Node, nv ...*yaml.Node) error {
+	if err := checkAliases(make(map[*yaml.Node]bool), nv...); err != nil {
+		return fmt.Errorf("failed to insert value during merge: %w", err)
+	}
+
 	temp := make([]*yaml.Node, len(nv))
 
 	if err := reprint.FromTo(&nv, &temp); err != nil {
diff --git a/internal/actions/replace.go b/internal/actions/replace.go
index 61df805..12aeac5 100644
--- a/internal/actions/replace.go
+++ b/internal/actions/replace.go
@@ -11,6 +11,10 @@ import (
 )
 
 func ReplaceNode(original, replace *yaml.Node) error {
+	if err := checkAliases(make(map[*yaml.Node]bool), replace); err != nil {
+		return fmt.Errorf("failed to replace value: %w", err)
+	}
+
 	ov := *original
 
 	if err := reprint.FromTo(replace, original); err != nil {
-- 
2.43.0


From 493457ef252d5067ccef7912c547fadacbca83b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:06 +0000
Subject: [PATCH 28/28] fix: report an empty query given on the command line
 instead of crashing

---
 internal/overlays/query.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/overlays/query.go b/internal/overlays/query.go
index 2b03f20..0317fbd 100644
--- a/internal/overlays/query.go
+++ b/internal/overlays/query.go
@@ -115,6 +115,10 @@ func (mq *Queries) Set(val string) error {
 		return fmt.Errorf("%w", err)
 	}
 
+	if q.yamlPath == nil {
+		return fmt.Errorf("%w in query", ErrEmptyEntry)
+	}
+
 	*mq = append(*mq, q)
 
 	return nil
-- 
2.43.0

