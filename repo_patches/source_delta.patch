From 8160fb6ac01fd9e46507fc093cd03c8619b78abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:38 +0000
Subject: [PATCH 1/8] fix: insert zero-context fragments after the line at
 their position

A fragment with no old lines names the line after which its lines are
inserted, so its position must not be converted to a zero-indexed line.
---
 gitdiff/apply_text.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gitdiff/apply_text.go b/gitdiff/apply_text.go
index 0948178..dba3ea7 100644
--- a/gitdiff/apply_text.go
+++ b/gitdiff/apply_text.go
@@ -65,7 +65,11 @@ func (a *TextApplier) ApplyFragment(f *TextFragment) error {
 	}
 
 	// lines are 0-indexed, positions are 1-indexed (but new files have position = 0)
-	fragStart := f.OldPosition - 1
+	// a fragment without old lines starts after the line at its position
+	fragStart := f.OldPosition
+	if fragStart > 0 && f.OldLines > 0 {
+		fragStart--
+	}
 	if fragStart < 0 {
 		fragStart = 0
 	}
-- 
2.43.0


From 747ea237b3e39cee762f4d3ea337dd200e242fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:41 +0000
Subject: [PATCH 2/8] fix: accept io.EOF from a ReadAt that returns all
 requested bytes

io.ReaderAt allows n == len(p) together with io.EOF when the read ends at the
end of the input; applying a patch to such a source failed.
---
 gitdiff/apply_binary.go | 3 ++-
 gitdiff/io.go           | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/gitdiff/apply_binary.go b/gitdiff/apply_binary.go
index 4864b69..ecf8c90 100644
--- a/gitdiff/apply_binary.go
+++ b/gitdiff/apply_binary.go
@@ -211,7 +211,8 @@ func applyBinaryDeltaCopy(w io.Writer, op byte, delta []byte, src io.ReaderAt) (
 
 	// TODO(bkeyes): consider pooling these buffers
 	b := make([]byte, size)
-	if _, err := src.ReadAt(b, offset); err != nil {
+	// a copy up to the end of the source may return io.EOF with all of the data
+	if nr, err := src.ReadAt(b, offset); err != nil && (err != io.EOF || nr < len(b)) {
 		return 0, delta, err
 	}
 
diff --git a/gitdiff/io.go b/gitdiff/io.go
index 8143238..ed8f28f 100644
--- a/gitdiff/io.go
+++ b/gitdiff/io.go
@@ -129,7 +129,8 @@ func (r *lineReaderAt) readBytes(line, n int64) (b []byte, offset int64, err err
 	}
 
 	b = make([]byte, size)
-	if _, err := r.r.ReadAt(b, offset); err != nil {
+	// reading up to the end of the source may return io.EOF with all of the data
+	if nr, err := r.r.ReadAt(b, offset); err != nil && (err != io.EOF || nr < len(b)) {
 		if err == io.EOF {
 			err = errors.New("ReadLinesAt: corrupt line index or changed source data")
 		}
-- 
2.43.0


From d290103db5cdd8a7c6f1e377ec1e61652c393000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:52 +0000
Subject: [PATCH 3/8] fix: reject deltas that declare a negative result size

---
 gitdiff/apply_binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdiff/apply_binary.go b/gitdiff/apply_binary.go
index ecf8c90..3cf15df 100644
--- a/gitdiff/apply_binary.go
+++ b/gitdiff/apply_binary.go
@@ -131,7 +131,7 @@ func applyBinaryDeltaFragment(dst io.Writer, src io.ReaderAt, frag []byte, limit
 		}
 	}
 
-	if dstLimit.limit > 0 {
+	if dstLimit.limit != 0 {
 		return errors.New("corrupt binary delta: insufficient data")
 	}
 	return nil
-- 
2.43.0


From 808d96e575feadbb23ef853ea15d49a0994e9660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:42 +0000
Subject: [PATCH 4/8] fix: keep returning a read error from the parser

A read error that occurs while advancing past a fragment header in the
preamble was treated like an invalid header, and the next read resumed
as if nothing happened, losing part of the input.
---
 gitdiff/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gitdiff/parser.go b/gitdiff/parser.go
index d5986e1..b6a10c6 100644
--- a/gitdiff/parser.go
+++ b/gitdiff/parser.go
@@ -79,6 +79,7 @@ type parser struct {
 	r stringReader
 
 	eof    bool
+	err    error // first read error, returned by all later calls to Next
 	lineno int64
 	lines  [3]string
 }
@@ -93,6 +94,9 @@ func newParser(r io.Reader) *parser {
 // Next advances the parser by one line. It returns any error encountered while
 // reading the line, including io.EOF when the end of stream is reached.
 func (p *parser) Next() error {
+	if p.err != nil {
+		return p.err
+	}
 	if p.eof {
 		return io.EOF
 	}
@@ -101,6 +105,7 @@ func (p *parser) Next() error {
 		// on first call to next, need to shift in all lines
 		for i := 0; i < len(p.lines)-1; i++ {
 			if err := p.shiftLines(); err != nil && err != io.EOF {
+				p.err = err
 				return err
 			}
 		}
@@ -108,6 +113,7 @@ func (p *parser) Next() error {
 
 	err := p.shiftLines()
 	if err != nil && err != io.EOF {
+		p.err = err
 		return err
 	}
 
-- 
2.43.0


From 4f0a51c85a49bfeeb35fb556c826b78374f035ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:42 +0000
Subject: [PATCH 5/8] fix: reject base85 groups that do not fit in 32 bits

---
 gitdiff/base85.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gitdiff/base85.go b/gitdiff/base85.go
index 86db117..c5d1a6e 100644
--- a/gitdiff/base85.go
+++ b/gitdiff/base85.go
@@ -2,6 +2,7 @@ package gitdiff
 
 import (
 	"fmt"
+	"math"
 )
 
 var (
@@ -22,16 +23,19 @@ func init() {
 // alphabet defined by base85.c in the Git source tree. src must contain at
 // least len(dst) bytes of encoded data.
 func base85Decode(dst, src []byte) error {
-	var v uint32
+	var v uint64
 	var n, ndst int
 	for i, b := range src {
 		if b, ok := b85Table[b]; ok {
-			v = 85*v + uint32(b)
+			v = 85*v + uint64(b)
 			n++
 		} else {
 			return fmt.Errorf("invalid base85 byte at index %d: 0x%X", i, src[i])
 		}
 		if n == 5 {
+			if v > math.MaxUint32 {
+				return fmt.Errorf("invalid base85 sequence ending at index %d", i)
+			}
 			rem := len(dst) - ndst
 			for j := 0; j < 4 && j < rem; j++ {
 				dst[ndst] = byte(v >> 24)
-- 
2.43.0


From 4c01981a39aa978375067130e31df4cdb23b4326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:43 +0000
Subject: [PATCH 6/8] fix: find the closing quote of names that end with a
 backslash

---
 gitdiff/file_header.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index 7ae4bc9..09ed269 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -436,11 +436,13 @@ func parseName(s string, term byte, dropPrefix int) (name string, n int, err err
 }
 
 func parseQuotedName(s string) (name string, n int, err error) {
+	escaped := false
 	for n = 1; n < len(s); n++ {
-		if s[n] == '"' && s[n-1] != '\\' {
+		if s[n] == '"' && !escaped {
 			n++
 			break
 		}
+		escaped = s[n] == '\\' && !escaped
 	}
 	if n == 2 {
 		return "", 0, fmt.Errorf("missing name")
-- 
2.43.0


From ebd230e20048fe53f3c6257d142da72d8db9f567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:43 +0000
Subject: [PATCH 7/8] fix: write the mode line of created and deleted files
 without a mode

Without this line, parsing the formatted file loses the fact that it is
created or deleted.
---
 gitdiff/format.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/gitdiff/format.go b/gitdiff/format.go
index 4999000..d82c08d 100644
--- a/gitdiff/format.go
+++ b/gitdiff/format.go
@@ -104,20 +104,16 @@ func (fm *formatter) FormatFile(f *File) {
 	fm.WriteQuotedName("b/" + bName)
 	fm.WriteByte('\n')
 
-	if f.OldMode != 0 {
-		if f.IsDelete {
-			fmt.Fprintf(fm, "deleted file mode %o\n", f.OldMode)
-		} else if f.NewMode != 0 {
-			fmt.Fprintf(fm, "old mode %o\n", f.OldMode)
-		}
+	if f.IsDelete {
+		fmt.Fprintf(fm, "deleted file mode %o\n", f.OldMode)
+	} else if f.OldMode != 0 && f.NewMode != 0 {
+		fmt.Fprintf(fm, "old mode %o\n", f.OldMode)
 	}
 
-	if f.NewMode != 0 {
-		if f.IsNew {
-			fmt.Fprintf(fm, "new file mode %o\n", f.NewMode)
-		} else if f.OldMode != 0 {
-			fmt.Fprintf(fm, "new mode %o\n", f.NewMode)
-		}
+	if f.IsNew {
+		fmt.Fprintf(fm, "new file mode %o\n", f.NewMode)
+	} else if f.OldMode != 0 && f.NewMode != 0 {
+		fmt.Fprintf(fm, "new mode %o\n", f.NewMode)
 	}
 
 	if f.Score > 0 {
-- 
2.43.0


From e38480e83429dc74d6ad15bd7b759e9ddfccb5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:08 +0000
Subject: [PATCH 8/8] fix: drop the carriage return from a patch header's
 commit name

A header with \r\n line ends kept the \r in PatchHeader.SHA, while the rest
of the header is scanned without it.
---
 gitdiff/patch_header.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index 9f42c90..0b7ad25 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -187,7 +187,8 @@ func ParsePatchHeader(header string, options ...PatchHeaderOption) (*PatchHeader
 
 	var firstLine, rest string
 	if before, after, ok := strings.Cut(header, "\n"); ok {
-		firstLine = before
+		// like the scanner that reads the rest, allow lines that end with \r\n
+		firstLine = strings.TrimSuffix(before, "\r")
 		rest = after
 	} else {
 		firstLine = header
-- 
2.43.0

