From e4dde2425e5534e799fedd35e0ed29558d5d1fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 01/20] fix: saturate numeric arguments instead of relying on
 undefined float conversion

---
 edlisp/builtin_backward_char.go        |  2 +-
 edlisp/builtin_backward_kill_word.go   |  2 +-
 edlisp/builtin_backward_word.go        |  2 +-
 edlisp/builtin_buffer_substring.go     |  4 ++--
 edlisp/builtin_delete_backward_char.go |  2 +-
 edlisp/builtin_delete_char.go          |  2 +-
 edlisp/builtin_delete_line.go          |  2 +-
 edlisp/builtin_forward_char.go         |  2 +-
 edlisp/builtin_forward_word.go         |  2 +-
 edlisp/builtin_goto_char.go            |  2 +-
 edlisp/builtin_goto_line.go            |  2 +-
 edlisp/builtin_kill_line.go            |  2 +-
 edlisp/builtin_kill_word.go            |  2 +-
 edlisp/builtin_mark_line.go            |  2 +-
 edlisp/builtin_set_mark_command.go     |  2 +-
 edlisp/builtin_substring.go            |  4 ++--
 edlisp/number.go                       | 21 +++++++++++++++++++--
 17 files changed, 37 insertions(+), 20 deletions(-)

diff --git a/edlisp/builtin_backward_char.go b/edlisp/builtin_backward_char.go
index 6ba738d..534d084 100644
--- a/edlisp/builtin_backward_char.go
+++ b/edlisp/builtin_backward_char.go
@@ -18,7 +18,7 @@ func BuiltinBackwardChar(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("backward-char expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	newPos := buffer.Point() - count
diff --git a/edlisp/builtin_backward_kill_word.go b/edlisp/builtin_backward_kill_word.go
index 405cf84..4128e25 100644
--- a/edlisp/builtin_backward_kill_word.go
+++ b/edlisp/builtin_backward_kill_word.go
@@ -20,7 +20,7 @@ func BuiltinBackwardKillWord(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("backward-kill-word expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_backward_word.go b/edlisp/builtin_backward_word.go
index d00997f..836caa3 100644
--- a/edlisp/builtin_backward_word.go
+++ b/edlisp/builtin_backward_word.go
@@ -20,7 +20,7 @@ func BuiltinBackwardWord(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("backward-word expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_buffer_substring.go b/edlisp/builtin_buffer_substring.go
index 377eb1a..c97904b 100644
--- a/edlisp/builtin_buffer_substring.go
+++ b/edlisp/builtin_buffer_substring.go
@@ -47,8 +47,8 @@ func BuiltinBufferSubstring(args []Value, buffer *Buffer) (Value, error) {
 		return nil, fmt.Errorf("buffer-substring expects number arguments")
 	}
 
-	start := int(args[0].(*Number).Value)
-	end := int(args[1].(*Number).Value)
+	start := args[0].(*Number).Int()
+	end := args[1].(*Number).Int()
 
 	content := buffer.String()
 
diff --git a/edlisp/builtin_delete_backward_char.go b/edlisp/builtin_delete_backward_char.go
index cbb7946..f8e173f 100644
--- a/edlisp/builtin_delete_backward_char.go
+++ b/edlisp/builtin_delete_backward_char.go
@@ -18,7 +18,7 @@ func BuiltinDeleteBackwardChar(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("delete-backward-char expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_delete_char.go b/edlisp/builtin_delete_char.go
index 49d71af..6e096e5 100644
--- a/edlisp/builtin_delete_char.go
+++ b/edlisp/builtin_delete_char.go
@@ -18,7 +18,7 @@ func BuiltinDeleteChar(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("delete-char expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_delete_line.go b/edlisp/builtin_delete_line.go
index ef589d5..c639e97 100644
--- a/edlisp/builtin_delete_line.go
+++ b/edlisp/builtin_delete_line.go
@@ -19,7 +19,7 @@ func BuiltinDeleteLine(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("delete-line expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_forward_char.go b/edlisp/builtin_forward_char.go
index 4a7af6e..96086b1 100644
--- a/edlisp/builtin_forward_char.go
+++ b/edlisp/builtin_forward_char.go
@@ -18,7 +18,7 @@ func BuiltinForwardChar(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("forward-char expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_forward_word.go b/edlisp/builtin_forward_word.go
index c0a2f3b..851da0e 100644
--- a/edlisp/builtin_forward_word.go
+++ b/edlisp/builtin_forward_word.go
@@ -20,7 +20,7 @@ func BuiltinForwardWord(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("forward-word expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_goto_char.go b/edlisp/builtin_goto_char.go
index ff56923..935d934 100644
--- a/edlisp/builtin_goto_char.go
+++ b/edlisp/builtin_goto_char.go
@@ -19,7 +19,7 @@ func BuiltinGotoChar(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	num := args[0].(*Number)
-	pos := int(num.Value)
+	pos := num.Int()
 
 	content := buffer.String()
 	if pos < 1 {
diff --git a/edlisp/builtin_goto_line.go b/edlisp/builtin_goto_line.go
index 9cee18c..e2183b9 100644
--- a/edlisp/builtin_goto_line.go
+++ b/edlisp/builtin_goto_line.go
@@ -19,7 +19,7 @@ func BuiltinGotoLine(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	num := args[0].(*Number)
-	lineNum := int(num.Value)
+	lineNum := num.Int()
 
 	content := buffer.String()
 	lines := strings.Split(content, "\n")
diff --git a/edlisp/builtin_kill_line.go b/edlisp/builtin_kill_line.go
index 9de7f0e..242086d 100644
--- a/edlisp/builtin_kill_line.go
+++ b/edlisp/builtin_kill_line.go
@@ -19,7 +19,7 @@ func BuiltinKillLine(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("kill-line expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_kill_word.go b/edlisp/builtin_kill_word.go
index f91fa8b..351b529 100644
--- a/edlisp/builtin_kill_word.go
+++ b/edlisp/builtin_kill_word.go
@@ -20,7 +20,7 @@ func BuiltinKillWord(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("kill-word expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_mark_line.go b/edlisp/builtin_mark_line.go
index 55829c2..5b27a17 100644
--- a/edlisp/builtin_mark_line.go
+++ b/edlisp/builtin_mark_line.go
@@ -20,7 +20,7 @@ func BuiltinMarkLine(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("mark-line expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_set_mark_command.go b/edlisp/builtin_set_mark_command.go
index 74aeb93..92d41dc 100644
--- a/edlisp/builtin_set_mark_command.go
+++ b/edlisp/builtin_set_mark_command.go
@@ -19,7 +19,7 @@ func BuiltinSetMarkCommand(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("set-mark-command expects a number argument")
 		}
-		pos = int(args[0].(*Number).Value)
+		pos = args[0].(*Number).Int()
 	} else {
 		pos = buffer.Point()
 	}
diff --git a/edlisp/builtin_substring.go b/edlisp/builtin_substring.go
index 5181a6a..1b06237 100644
--- a/edlisp/builtin_substring.go
+++ b/edlisp/builtin_substring.go
@@ -50,14 +50,14 @@ func BuiltinSubstring(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	str := args[0].(*String)
-	start := int(args[1].(*Number).Value)
+	start := args[1].(*Number).Int()
 	end := len(str.Value)
 
 	if len(args) == 3 {
 		if !IsA(args[2], TheNumberKind) {
 			return nil, fmt.Errorf("substring expects a number as third argument")
 		}
-		end = int(args[2].(*Number).Value)
+		end = args[2].(*Number).Int()
 	}
 
 	// Convert from 1-based to 0-based indexing
diff --git a/edlisp/number.go b/edlisp/number.go
index 5c441bf..cb035c7 100644
--- a/edlisp/number.go
+++ b/edlisp/number.go
@@ -1,6 +1,9 @@
 package edlisp
 
-import "fmt"
+import (
+	"fmt"
+	"math"
+)
 
 // NumberKind represents the kind for numeric values.
 type NumberKind struct{}
@@ -41,8 +44,22 @@ func (num *Number) String() string {
 	return fmt.Sprintf("%g", num.Value)
 }
 
-// Int returns the integer representation of the number.
+// maxInt is the largest magnitude returned by Int. It leaves room for adding
+// buffer positions without overflow.
+const maxInt = math.MaxInt / 2
+
+// Int returns the integer representation of the number, truncated towards zero.
+// Values of larger magnitude than maxInt saturate and NaN is 0, because Go leaves
+// the conversion of out-of-range floats to integers undefined.
 func (num *Number) Int() int {
+	switch {
+	case num.Value != num.Value:
+		return 0
+	case num.Value >= maxInt:
+		return maxInt
+	case num.Value <= -maxInt:
+		return -maxInt
+	}
 	return int(num.Value)
 }
 
-- 
2.43.0


From 6695e499453c4ddbb994d12051ccbc8fcc2f792d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 02/20] fix: keep point and mark inside the buffer

---
 edlisp/builtin_backward_kill_word.go   |  3 +--
 edlisp/builtin_delete_backward_char.go |  3 +--
 edlisp/builtin_delete_char.go          |  3 +--
 edlisp/builtin_delete_line.go          |  3 +--
 edlisp/builtin_delete_region.go        |  3 +--
 edlisp/builtin_kill_line.go            |  3 +--
 edlisp/builtin_kill_word.go            |  3 +--
 edlisp/builtin_replace_match.go        |  3 +--
 edlisp/builtin_replace_region.go       |  3 +--
 edlisp/eval.go                         | 22 ++++++++++++++++++----
 10 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/edlisp/builtin_backward_kill_word.go b/edlisp/builtin_backward_kill_word.go
index 4128e25..b329ac3 100644
--- a/edlisp/builtin_backward_kill_word.go
+++ b/edlisp/builtin_backward_kill_word.go
@@ -46,8 +46,7 @@ func BuiltinBackwardKillWord(args []Value, buffer *Buffer) (Value, error) {
 		endIndex = len(content)
 	}
 	newContent := content[:pos] + content[endIndex:]
-	buffer.content.Reset()
-	buffer.content.WriteString(newContent)
+	buffer.setContent(newContent)
 
 	buffer.SetPoint(pos + 1) // Convert back to 1-based
 
diff --git a/edlisp/builtin_delete_backward_char.go b/edlisp/builtin_delete_backward_char.go
index f8e173f..136ccfe 100644
--- a/edlisp/builtin_delete_backward_char.go
+++ b/edlisp/builtin_delete_backward_char.go
@@ -36,8 +36,7 @@ func BuiltinDeleteBackwardChar(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	newContent := content[:startPos] + content[endPos:]
-	buffer.content.Reset()
-	buffer.content.WriteString(newContent)
+	buffer.setContent(newContent)
 
 	// Update point to the new position
 	buffer.SetPoint(startPos + 1)
diff --git a/edlisp/builtin_delete_char.go b/edlisp/builtin_delete_char.go
index 6e096e5..8b278f6 100644
--- a/edlisp/builtin_delete_char.go
+++ b/edlisp/builtin_delete_char.go
@@ -37,8 +37,7 @@ func BuiltinDeleteChar(args []Value, buffer *Buffer) (Value, error) {
 
 	// Delete characters starting at current position
 	newContent := content[:startPos] + content[endPos:]
-	buffer.content.Reset()
-	buffer.content.WriteString(newContent)
+	buffer.setContent(newContent)
 
 	return NewString(""), nil
 }
diff --git a/edlisp/builtin_delete_line.go b/edlisp/builtin_delete_line.go
index c639e97..21dda1d 100644
--- a/edlisp/builtin_delete_line.go
+++ b/edlisp/builtin_delete_line.go
@@ -43,8 +43,7 @@ func BuiltinDeleteLine(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	newContent := content[:lineStart] + content[lineEnd:]
-	buffer.content.Reset()
-	buffer.content.WriteString(newContent)
+	buffer.setContent(newContent)
 
 	buffer.SetPoint(lineStart + 1) // Convert back to 1-based
 
diff --git a/edlisp/builtin_delete_region.go b/edlisp/builtin_delete_region.go
index b9a17ed..707ed51 100644
--- a/edlisp/builtin_delete_region.go
+++ b/edlisp/builtin_delete_region.go
@@ -35,8 +35,7 @@ func BuiltinDeleteRegion(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	newContent := content[:start] + content[end:]
-	buffer.content.Reset()
-	buffer.content.WriteString(newContent)
+	buffer.setContent(newContent)
 
 	// Set point to start of deleted region
 	buffer.SetPoint(start + 1)
diff --git a/edlisp/builtin_kill_line.go b/edlisp/builtin_kill_line.go
index 242086d..353d402 100644
--- a/edlisp/builtin_kill_line.go
+++ b/edlisp/builtin_kill_line.go
@@ -56,8 +56,7 @@ func BuiltinKillLine(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	newContent := content[:startPos] + content[lineEnd:]
-	buffer.content.Reset()
-	buffer.content.WriteString(newContent)
+	buffer.setContent(newContent)
 
 	return NewString(""), nil
 }
diff --git a/edlisp/builtin_kill_word.go b/edlisp/builtin_kill_word.go
index 351b529..a43cabc 100644
--- a/edlisp/builtin_kill_word.go
+++ b/edlisp/builtin_kill_word.go
@@ -39,8 +39,7 @@ func BuiltinKillWord(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	newContent := content[:startPos] + content[pos:]
-	buffer.content.Reset()
-	buffer.content.WriteString(newContent)
+	buffer.setContent(newContent)
 
 	return NewString(""), nil
 }
diff --git a/edlisp/builtin_replace_match.go b/edlisp/builtin_replace_match.go
index 51ed5f7..0c0f9fb 100644
--- a/edlisp/builtin_replace_match.go
+++ b/edlisp/builtin_replace_match.go
@@ -35,8 +35,7 @@ func BuiltinReplaceMatch(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	newContent := content[:start] + str.Value + content[end:]
-	buffer.content.Reset()
-	buffer.content.WriteString(newContent)
+	buffer.setContent(newContent)
 
 	// Update point to end of replacement
 	buffer.SetPoint(start + len(str.Value) + 1)
diff --git a/edlisp/builtin_replace_region.go b/edlisp/builtin_replace_region.go
index b0afda4..129b1da 100644
--- a/edlisp/builtin_replace_region.go
+++ b/edlisp/builtin_replace_region.go
@@ -40,8 +40,7 @@ func BuiltinReplaceRegion(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	newContent := content[:start] + str.Value + content[end:]
-	buffer.content.Reset()
-	buffer.content.WriteString(newContent)
+	buffer.setContent(newContent)
 
 	// Set point to end of replacement
 	buffer.SetPoint(start + len(str.Value) + 1)
diff --git a/edlisp/eval.go b/edlisp/eval.go
index dc592be..1dfd191 100644
--- a/edlisp/eval.go
+++ b/edlisp/eval.go
@@ -58,14 +58,28 @@ func (b *Buffer) Mark() int {
 	return b.mark
 }
 
-// SetPoint sets the cursor position.
+// SetPoint sets the cursor position, clipped to the buffer.
 func (b *Buffer) SetPoint(pos int) {
-	b.point = pos
+	b.point = b.clip(pos)
 }
 
-// SetMark sets the mark position.
+// SetMark sets the mark position, clipped to the buffer.
 func (b *Buffer) SetMark(pos int) {
-	b.mark = pos
+	b.mark = b.clip(pos)
+}
+
+// clip returns the valid position nearest to pos.
+func (b *Buffer) clip(pos int) int {
+	return max(1, min(pos, b.content.Len()+1))
+}
+
+// setContent replaces the buffer content. Point and mark are kept where they
+// are, but never beyond the end of the new content.
+func (b *Buffer) setContent(content string) {
+	b.content.Reset()
+	b.content.WriteString(content)
+	b.point = b.clip(b.point)
+	b.mark = b.clip(b.mark)
 }
 
 // Insert inserts text at the current point.
-- 
2.43.0


From b3575b304ad19e21fb5649af6fef1c187c07df9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 03/20] fix: delete-char deletes nothing for a negative count

---
 edlisp/builtin_delete_char.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edlisp/builtin_delete_char.go b/edlisp/builtin_delete_char.go
index 8b278f6..f592ba1 100644
--- a/edlisp/builtin_delete_char.go
+++ b/edlisp/builtin_delete_char.go
@@ -24,7 +24,7 @@ func BuiltinDeleteChar(args []Value, buffer *Buffer) (Value, error) {
 	content := buffer.String()
 	pos := buffer.Point() // 1-based position
 
-	if pos < 1 || pos > len(content) {
+	if count < 1 || pos < 1 || pos > len(content) {
 		return NewString(""), nil
 	}
 
-- 
2.43.0


From 51448f8a0e37dc42e782f87af5940f1f1589ee5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:50 +0000
Subject: [PATCH 04/20] fix: replace-region inserts the replacement when the
 region is empty

---
 edlisp/builtin_replace_region.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/edlisp/builtin_replace_region.go b/edlisp/builtin_replace_region.go
index 129b1da..fd59483 100644
--- a/edlisp/builtin_replace_region.go
+++ b/edlisp/builtin_replace_region.go
@@ -35,10 +35,6 @@ func BuiltinReplaceRegion(args []Value, buffer *Buffer) (Value, error) {
 	if end > len(content) {
 		end = len(content)
 	}
-	if start >= end {
-		return NewString(""), nil
-	}
-
 	newContent := content[:start] + str.Value + content[end:]
 	buffer.setContent(newContent)
 
-- 
2.43.0


From ad01a7e7e3d5a5c2bfad39823454392f42bbb689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:53 +0000
Subject: [PATCH 05/20] fix: line commands stop at the end of the buffer
 instead of looping over the count

---
 edlisp/builtin_delete_line.go | 2 +-
 edlisp/builtin_kill_line.go   | 2 +-
 edlisp/builtin_mark_line.go   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/edlisp/builtin_delete_line.go b/edlisp/builtin_delete_line.go
index 21dda1d..c24814d 100644
--- a/edlisp/builtin_delete_line.go
+++ b/edlisp/builtin_delete_line.go
@@ -33,7 +33,7 @@ func BuiltinDeleteLine(args []Value, buffer *Buffer) (Value, error) {
 
 	// Find end of line(s) based on count
 	lineEnd := pos
-	for i := 0; i < count; i++ {
+	for i := 0; i < count && lineEnd < len(content); i++ {
 		for lineEnd < len(content) && content[lineEnd] != '\n' {
 			lineEnd++
 		}
diff --git a/edlisp/builtin_kill_line.go b/edlisp/builtin_kill_line.go
index 353d402..f15f771 100644
--- a/edlisp/builtin_kill_line.go
+++ b/edlisp/builtin_kill_line.go
@@ -43,7 +43,7 @@ func BuiltinKillLine(args []Value, buffer *Buffer) (Value, error) {
 		// For multi-line kill, kill entire lines starting from cursor
 		startPos = pos
 		lineEnd = startPos
-		for i := 0; i < count; i++ {
+		for i := 0; i < count && lineEnd < len(content); i++ {
 			// Find end of current line
 			for lineEnd < len(content) && content[lineEnd] != '\n' {
 				lineEnd++
diff --git a/edlisp/builtin_mark_line.go b/edlisp/builtin_mark_line.go
index 5b27a17..46a4fba 100644
--- a/edlisp/builtin_mark_line.go
+++ b/edlisp/builtin_mark_line.go
@@ -34,7 +34,7 @@ func BuiltinMarkLine(args []Value, buffer *Buffer) (Value, error) {
 
 	// Find end of line(s) based on count
 	lineEnd := pos
-	for i := 0; i < count; i++ {
+	for i := 0; i < count && lineEnd < len(content); i++ {
 		for lineEnd < len(content) && content[lineEnd] != '\n' {
 			lineEnd++
 		}
-- 
2.43.0


From ae948104edf6ef3b6e8ae00d67a711ca88eb1534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:56 +0000
Subject: [PATCH 06/20] fix: delete-line deletes nothing for a non-positive
 count

---
 edlisp/builtin_delete_line.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edlisp/builtin_delete_line.go b/edlisp/builtin_delete_line.go
index c24814d..5ac1654 100644
--- a/edlisp/builtin_delete_line.go
+++ b/edlisp/builtin_delete_line.go
@@ -22,6 +22,10 @@ func BuiltinDeleteLine(args []Value, buffer *Buffer) (Value, error) {
 		count = args[0].(*Number).Int()
 	}
 
+	if count < 1 {
+		return NewString(""), nil
+	}
+
 	content := buffer.String()
 	pos := buffer.Point() - 1 // Convert to 0-based
 
-- 
2.43.0


From 58095b537c003824a614483d7309b7fb1910bdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 07/20] fix: kill-line never crosses into the next line or
 splits the character at point

---
 edlisp/builtin_kill_line.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/edlisp/builtin_kill_line.go b/edlisp/builtin_kill_line.go
index f15f771..c019813 100644
--- a/edlisp/builtin_kill_line.go
+++ b/edlisp/builtin_kill_line.go
@@ -2,6 +2,7 @@ package edlisp
 
 import (
 	"fmt"
+	"unicode/utf8"
 )
 
 // BuiltinKillLine deletes text from the point to the end of line(s).
@@ -33,7 +34,11 @@ func BuiltinKillLine(args []Value, buffer *Buffer) (Value, error) {
 
 	if count == 1 {
 		// For single line kill, preserve cursor character and kill from after cursor
-		startPos = pos + 1
+		if content[pos] == '\n' {
+			return NewString(""), nil
+		}
+		_, size := utf8.DecodeRuneInString(content[pos:])
+		startPos = pos + size
 		lineEnd = startPos
 		// Find end of current line
 		for lineEnd < len(content) && content[lineEnd] != '\n' {
-- 
2.43.0


From 1bb1fbba63e86a765afe566d18b1bc2a1f931769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 08/20] fix: backward-kill-word deletes nothing when there is
 no word to cross and whole characters otherwise

---
 edlisp/builtin_backward_kill_word.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/edlisp/builtin_backward_kill_word.go b/edlisp/builtin_backward_kill_word.go
index b329ac3..c7c4614 100644
--- a/edlisp/builtin_backward_kill_word.go
+++ b/edlisp/builtin_backward_kill_word.go
@@ -2,6 +2,7 @@ package edlisp
 
 import (
 	"fmt"
+	"unicode/utf8"
 )
 
 // BuiltinBackwardKillWord deletes text from the current point backward by the specified number of words.
@@ -39,11 +40,15 @@ func BuiltinBackwardKillWord(args []Value, buffer *Buffer) (Value, error) {
 		}
 	}
 
-	// Delete from pos to startPos+1 (to include the character at startPos)
-	// Handle case where startPos is at or beyond end of buffer
-	endIndex := startPos + 1
-	if endIndex > len(content) {
-		endIndex = len(content)
+	if pos == startPos {
+		return NewString(""), nil
+	}
+
+	// Delete from pos up to and including the character at startPos, if there is one
+	endIndex := startPos
+	if startPos < len(content) {
+		_, size := utf8.DecodeRuneInString(content[startPos:])
+		endIndex += size
 	}
 	newContent := content[:pos] + content[endIndex:]
 	buffer.setContent(newContent)
-- 
2.43.0


From 7a8e8555d29dc4063dcfb5ee5cef98794d5d878a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 09/20] fix: mark-word selects the next word when point is not
 on one

---
 edlisp/builtin_mark_word.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/edlisp/builtin_mark_word.go b/edlisp/builtin_mark_word.go
index cc68f16..e2683ed 100644
--- a/edlisp/builtin_mark_word.go
+++ b/edlisp/builtin_mark_word.go
@@ -17,8 +17,9 @@ func BuiltinMarkWord(args []Value, buffer *Buffer) (Value, error) {
 	content := buffer.String()
 	pos := buffer.Point() - 1 // Convert to 0-based
 
-	if pos < 0 || pos >= len(content) {
-		return NewString(""), nil
+	// When point does not touch a word, use the next one
+	for pos < len(content) && !isLetter(content[pos]) && (pos == 0 || !isLetter(content[pos-1])) {
+		pos++
 	}
 
 	// Find the start of the word (move backward to find non-letter)
-- 
2.43.0


From bed263109c4c306fc60e2cfa6fbb787e9aaadfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 10/20] fix: beginning-of-line stays on the last line at the
 end of the buffer

---
 edlisp/builtin_beginning_of_line.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/edlisp/builtin_beginning_of_line.go b/edlisp/builtin_beginning_of_line.go
index 4c7dae4..6faa36c 100644
--- a/edlisp/builtin_beginning_of_line.go
+++ b/edlisp/builtin_beginning_of_line.go
@@ -15,14 +15,6 @@ func BuiltinBeginningOfLine(args []Value, buffer *Buffer) (Value, error) {
 	content := buffer.String()
 	pos := buffer.Point() - 1 // Convert to 0-based
 
-	if pos < 0 {
-		buffer.SetPoint(1)
-		return NewString(""), nil
-	}
-	if pos >= len(content) {
-		pos = len(content) - 1
-	}
-
 	// Move backward to find beginning of line
 	for pos > 0 && content[pos-1] != '\n' {
 		pos--
-- 
2.43.0


From 1407a431e603d791f563ef31b42fa13659d5dd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 11/20] fix: replace-match refuses to overwrite text other than
 the last match

---
 edlisp/builtin_replace_match.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/edlisp/builtin_replace_match.go b/edlisp/builtin_replace_match.go
index 0c0f9fb..624492b 100644
--- a/edlisp/builtin_replace_match.go
+++ b/edlisp/builtin_replace_match.go
@@ -33,10 +33,16 @@ func BuiltinReplaceMatch(args []Value, buffer *Buffer) (Value, error) {
 	if start < 0 || end > len(content) || start >= end {
 		return nil, fmt.Errorf("invalid search match positions")
 	}
+	if content[start:end] != buffer.lastSearchMatch {
+		return nil, fmt.Errorf("text of the last match has changed")
+	}
 
 	newContent := content[:start] + str.Value + content[end:]
 	buffer.setContent(newContent)
 
+	// The matched text is gone, it cannot be replaced again
+	buffer.lastSearchMatch = ""
+
 	// Update point to end of replacement
 	buffer.SetPoint(start + len(str.Value) + 1)
 
-- 
2.43.0


From 6bddf7fdabfe038be07f8f89165b3093908c61bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 12/20] fix: looking-at and looking-back find every match that
 touches point

---
 edlisp/builtin_looking_at.go   |  2 +-
 edlisp/builtin_looking_back.go | 18 +++++++++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/edlisp/builtin_looking_at.go b/edlisp/builtin_looking_at.go
index 5efb084..546ea51 100644
--- a/edlisp/builtin_looking_at.go
+++ b/edlisp/builtin_looking_at.go
@@ -25,7 +25,7 @@ func BuiltinLookingAt(args []Value, buffer *Buffer) (Value, error) {
 	content := buffer.String()
 	pos := buffer.Point() - 1 // Convert to 0-based
 
-	if pos < 0 || pos >= len(content) {
+	if pos < 0 || pos > len(content) {
 		return NewSymbol("nil"), nil
 	}
 
diff --git a/edlisp/builtin_looking_back.go b/edlisp/builtin_looking_back.go
index 85526f4..495f106 100644
--- a/edlisp/builtin_looking_back.go
+++ b/edlisp/builtin_looking_back.go
@@ -27,13 +27,12 @@ func BuiltinLookingBack(args []Value, buffer *Buffer) (Value, error) {
 	content := buffer.String()
 	pos := buffer.Point() - 1 // Convert to 0-based
 
-	if pos <= 0 {
+	if pos < 0 {
 		return NewSymbol("nil"), nil
 	}
 
 	// Try to compile as regular expression
-	re, err := regexp.Compile(pattern.Value)
-	if err != nil {
+	if _, err := regexp.Compile(pattern.Value); err != nil {
 		// If not a valid regex, treat as literal string
 		if pos >= len(pattern.Value) && strings.HasSuffix(content[:pos], pattern.Value) {
 			return NewSymbol("t"), nil
@@ -41,10 +40,15 @@ func BuiltinLookingBack(args []Value, buffer *Buffer) (Value, error) {
 		return NewSymbol("nil"), nil
 	}
 
-	// Use regular expression matching on text before point
-	beforeText := content[:pos]
-	match := re.FindStringIndex(beforeText)
-	if match != nil && match[1] == len(beforeText) {
+	// Look for a match ending at point in the text before point
+	re, err := regexp.Compile("(?:" + pattern.Value + `)\z`)
+	if err != nil {
+		// The pattern ends inside an open \Q literal
+		if re, err = regexp.Compile("(?:" + pattern.Value + `\E)\z`); err != nil {
+			return nil, fmt.Errorf("invalid regexp: %v", err)
+		}
+	}
+	if re.MatchString(content[:pos]) {
 		return NewSymbol("t"), nil
 	}
 
-- 
2.43.0


From 060d786aec1a80c3e34d1f0e969e8c30213e1b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:14 +0000
Subject: [PATCH 13/20] fix: forward searches find empty matches at the end of
 the buffer

---
 edlisp/builtin_re_search_forward.go | 2 +-
 edlisp/builtin_search_forward.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/edlisp/builtin_re_search_forward.go b/edlisp/builtin_re_search_forward.go
index 2869729..d39d641 100644
--- a/edlisp/builtin_re_search_forward.go
+++ b/edlisp/builtin_re_search_forward.go
@@ -26,7 +26,7 @@ func BuiltinReSearchForward(args []Value, buffer *Buffer) (Value, error) {
 	if startPos < 0 {
 		startPos = 0
 	}
-	if startPos >= len(content) {
+	if startPos > len(content) {
 		return nil, fmt.Errorf("search failed")
 	}
 
diff --git a/edlisp/builtin_search_forward.go b/edlisp/builtin_search_forward.go
index 947e6ad..564530e 100644
--- a/edlisp/builtin_search_forward.go
+++ b/edlisp/builtin_search_forward.go
@@ -25,7 +25,7 @@ func BuiltinSearchForward(args []Value, buffer *Buffer) (Value, error) {
 	if startPos < 0 {
 		startPos = 0
 	}
-	if startPos >= len(content) {
+	if startPos > len(content) {
 		return nil, fmt.Errorf("search failed")
 	}
 
-- 
2.43.0


From a31f6c56c6be4650d8d2289bc90e512b1a76500f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:17 +0000
Subject: [PATCH 14/20] fix: capitalize handles a multi-byte first character

---
 edlisp/builtin_capitalize.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edlisp/builtin_capitalize.go b/edlisp/builtin_capitalize.go
index d11f9c2..d601966 100644
--- a/edlisp/builtin_capitalize.go
+++ b/edlisp/builtin_capitalize.go
@@ -3,6 +3,7 @@ package edlisp
 import (
 	"fmt"
 	"strings"
+	"unicode/utf8"
 )
 
 // BuiltinCapitalize capitalizes the first character of a string.
@@ -43,7 +44,8 @@ func BuiltinCapitalize(args []Value, buffer *Buffer) (Value, error) {
 		return NewString(""), nil
 	}
 
-	result := strings.ToUpper(string(str.Value[0])) + strings.ToLower(str.Value[1:])
+	_, size := utf8.DecodeRuneInString(str.Value)
+	result := strings.ToUpper(str.Value[:size]) + strings.ToLower(str.Value[size:])
 	return NewString(result), nil
 }
 
-- 
2.43.0


From 80b482c8a0861f7bf436735f9aa36c7aca0dc405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:00 +0000
Subject: [PATCH 15/20] fix: parse every expression on a line instead of
 dropping those after the first list

---
 edlisp/parser/linebased.go | 70 +++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 31 deletions(-)

diff --git a/edlisp/parser/linebased.go b/edlisp/parser/linebased.go
index 03c9ffe..287d3e0 100644
--- a/edlisp/parser/linebased.go
+++ b/edlisp/parser/linebased.go
@@ -36,11 +36,11 @@ func ParseReader(r io.Reader) ([]edlisp.Value, error) {
 				continue // Skip empty commands
 			}
 
-			expr, err := parseLine(command)
+			exprs, err := parseLine(command)
 			if err != nil {
 				return nil, err
 			}
-			expressions = append(expressions, expr)
+			expressions = append(expressions, exprs...)
 		}
 	}
 
@@ -64,22 +64,22 @@ func ParseSexp(s string) ([]edlisp.Value, error) {
 		return []edlisp.Value{}, nil
 	}
 
-	// If it starts with '(', parse as regular S-expression
-	if strings.HasPrefix(trimmed, "(") {
-		expr, err := parseSExpression(trimmed)
+	tokens, err := tokenize(trimmed)
+	if err != nil {
+		return nil, err
+	}
+
+	var values []edlisp.Value
+	for pos := 0; pos < len(tokens); {
+		value, newPos, err := parseTokens(tokens, pos)
 		if err != nil {
 			return nil, err
 		}
-		return []edlisp.Value{expr}, nil
-	}
-
-	// Otherwise, parse as a single token value
-	value, err := parseToken(trimmed)
-	if err != nil {
-		return nil, err
+		values = append(values, value)
+		pos = newPos
 	}
 
-	return []edlisp.Value{value}, nil
+	return values, nil
 }
 
 // ParseFormat parses input according to the specified format.
@@ -99,32 +99,40 @@ func ParseFormat(format, input string) ([]edlisp.Value, error) {
 	}
 }
 
-// parseLine parses a single line according to texted rules.
-func parseLine(line string) (edlisp.Value, error) {
-	if strings.HasPrefix(line, "(") {
-		return parseSExpression(line)
-	}
-	return parseShellLike(line)
-}
-
-// parseSExpression parses a traditional S-expression starting with '('.
-func parseSExpression(line string) (edlisp.Value, error) {
+// parseLine parses a single line according to texted rules: S-expression lists
+// are read one after another, anything else is a shell-like command that extends
+// to the end of the line.
+func parseLine(line string) ([]edlisp.Value, error) {
 	tokens, err := tokenize(line)
 	if err != nil {
 		return nil, err
 	}
 
-	expr, _, err := parseTokens(tokens, 0)
-	return expr, err
-}
+	var expressions []edlisp.Value
+	pos := 0
 
-// parseShellLike parses a shell-like command line into a list.
-func parseShellLike(line string) (edlisp.Value, error) {
-	tokens, err := tokenize(line)
-	if err != nil {
-		return nil, err
+	for pos < len(tokens) && tokens[pos] == "(" {
+		expr, newPos, err := parseTokens(tokens, pos)
+		if err != nil {
+			return nil, err
+		}
+		expressions = append(expressions, expr)
+		pos = newPos
 	}
 
+	if pos < len(tokens) {
+		expr, err := parseShellLike(tokens[pos:])
+		if err != nil {
+			return nil, err
+		}
+		expressions = append(expressions, expr)
+	}
+
+	return expressions, nil
+}
+
+// parseShellLike parses the tokens of a shell-like command line into a list.
+func parseShellLike(tokens []string) (edlisp.Value, error) {
 	var elements []edlisp.Value
 	pos := 0
 
-- 
2.43.0


From 355acf844a2263864afcfb72160d42d8ed79318f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:11 +0000
Subject: [PATCH 16/20] fix: accept script lines longer than 64 KiB

---
 edlisp/parser/linebased.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edlisp/parser/linebased.go b/edlisp/parser/linebased.go
index 287d3e0..e9a93e9 100644
--- a/edlisp/parser/linebased.go
+++ b/edlisp/parser/linebased.go
@@ -5,6 +5,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 	"strings"
 	"unicode"
@@ -20,6 +21,7 @@ import (
 // 4. Semicolons are treated as line separators (equivalent to newlines)
 func ParseReader(r io.Reader) ([]edlisp.Value, error) {
 	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, math.MaxInt) // a line may be of any length
 	var expressions []edlisp.Value
 
 	for scanner.Scan() {
-- 
2.43.0


From 106f68a5f122ab1982a58d297d5c7d0fedb1d83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:14 +0000
Subject: [PATCH 17/20] fix: reject null as a JSON script

---
 edlisp/parser/json.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edlisp/parser/json.go b/edlisp/parser/json.go
index 53f7544..351e350 100644
--- a/edlisp/parser/json.go
+++ b/edlisp/parser/json.go
@@ -49,6 +49,9 @@ func ParseJSONString(s string) ([]edlisp.Value, error) {
 	if err != nil {
 		return nil, fmt.Errorf("JSON unmarshal error: %w", err)
 	}
+	if rawValues == nil {
+		return nil, fmt.Errorf("null is not a texted JSON script")
+	}
 
 	var expressions []edlisp.Value
 	for i, rawValue := range rawValues {
-- 
2.43.0


From 0ed461320b3451218b4034d60109a7bd5750dec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:56 +0000
Subject: [PATCH 18/20] fix: take each --expression as one expression instead
 of splitting it as CSV

---
 commands/edit.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commands/edit.go b/commands/edit.go
index caac571..fb5153b 100644
--- a/commands/edit.go
+++ b/commands/edit.go
@@ -160,7 +160,7 @@ Script formats:
 	// Script Input Options
 	cmd.Flags().StringP("script", "s", "", "The texted script to execute")
 	cmd.Flags().StringVarP(&scriptFile, "file", "f", "", "Read script from file")
-	cmd.Flags().StringSliceP("expression", "e", nil, "Execute single expression and print result (can be used multiple times)")
+	cmd.Flags().StringArrayP("expression", "e", nil, "Execute single expression and print result (can be used multiple times)")
 
 	// Input/Output Options
 	cmd.Flags().BoolVarP(&inPlace, "in-place", "i", false, "Edit files in place (modify original files)")
@@ -210,7 +210,7 @@ func runEdit(args *runEditArgs) error {
 	}
 
 	// Handle expressions
-	expressions, err := args.cmd.Flags().GetStringSlice("expression")
+	expressions, err := args.cmd.Flags().GetStringArray("expression")
 	if err != nil {
 		return fmt.Errorf("getting expression flag: %w", err)
 	}
-- 
2.43.0


From c2faf6d09c9202ffa9cf5f2351d469c2b8b2d502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:58 +0000
Subject: [PATCH 19/20] fix: list documentation categories in a fixed order

---
 commands/doc.go     | 11 +++++++++--
 tools/texted_doc.go |  2 ++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/commands/doc.go b/commands/doc.go
index 89d2a12..22b9bee 100644
--- a/commands/doc.go
+++ b/commands/doc.go
@@ -2,6 +2,7 @@ package commands
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/spf13/cobra"
@@ -152,9 +153,15 @@ func listFunctions(category string, verbose bool) error {
 			categoryMap[cat] = append(categoryMap[cat], doc)
 		}
 
-		for catName, catDocs := range categoryMap {
+		categories := make([]string, 0, len(categoryMap))
+		for catName := range categoryMap {
+			categories = append(categories, catName)
+		}
+		sort.Strings(categories)
+
+		for _, catName := range categories {
 			fmt.Printf("## %s\n\n", strings.Title(catName))
-			for _, doc := range catDocs {
+			for _, doc := range categoryMap[catName] {
 				fmt.Printf("- **%s**: %s\n", doc.Name, doc.Summary)
 			}
 			fmt.Printf("\n")
diff --git a/tools/texted_doc.go b/tools/texted_doc.go
index 0513d14..9b9411f 100644
--- a/tools/texted_doc.go
+++ b/tools/texted_doc.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	_ "embed"
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/dhamidi/texted/edlisp"
@@ -187,6 +188,7 @@ func formatFunctionList(docs []edlisp.FunctionDoc, title string, verbose bool) s
 		for category := range categoryMap {
 			categories = append(categories, category)
 		}
+		sort.Strings(categories)
 
 		for _, category := range categories {
 			output.WriteString(fmt.Sprintf("## %s\n\n", category))
-- 
2.43.0


From 3f089f000211bbbd776511b9476db3c852635806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:50 +0000
Subject: [PATCH 20/20] fix: reject scripts nested too deeply instead of
 exhausting the stack

---
 edlisp/parser/linebased.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/edlisp/parser/linebased.go b/edlisp/parser/linebased.go
index e9a93e9..a7bed3c 100644
--- a/edlisp/parser/linebased.go
+++ b/edlisp/parser/linebased.go
@@ -165,12 +165,17 @@ func parseShellLike(tokens []string) (edlisp.Value, error) {
 	return &edlisp.List{Elements: elements}, nil
 }
 
+// maxDepth is the deepest nesting of lists that is accepted, the same as in
+// JSON. Parsing and evaluating are recursive and must not exhaust the stack.
+const maxDepth = 10000
+
 // tokenize splits a line into tokens, handling quoted strings and parentheses.
 func tokenize(line string) ([]string, error) {
 	var tokens []string
 	var current strings.Builder
 	inQuotes := false
 	escapeNext := false
+	depth := 0
 
 	for _, r := range line {
 		if escapeNext {
@@ -197,6 +202,14 @@ func tokenize(line string) ([]string, error) {
 					current.Reset()
 				}
 				tokens = append(tokens, string(r))
+				if r == '(' {
+					depth++
+				} else {
+					depth--
+				}
+				if depth > maxDepth {
+					return nil, fmt.Errorf("lists are nested too deeply")
+				}
 			}
 		case ' ', '\t', '\n', '\r':
 			if inQuotes {
-- 
2.43.0

