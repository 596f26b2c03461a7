From db0eb5e871aae37040f1e9de627fb9d51435128b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:57 +0000
Subject: [PATCH 01/12] fix: measure the visible text instead of subtracting
 escape sequence bytes

Subtracting the byte length of each sequence from the width of the whole
string went wrong when the sequence starts with U+009B (two bytes, so a bare
"\u009bm" measured -1, that is 65535 cells) and when the text after a sequence
starts with a character that combines with its last byte (spacing mark).
---
 width.go | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/width.go b/width.go
index 5e110b9..a22f0a0 100644
--- a/width.go
+++ b/width.go
@@ -22,34 +22,16 @@ var widthCache = lru.New[string, uint16](lru.WithCapacity(10000))
 
 func visualWidth(str string) uint16 {
 	// method 1: without considering CJK, emoji, etc:
-	//		len(str) - countMatchesLength(ansiEscapeRE, str)
+	//		len(ansiEscapeRE.ReplaceAllString(str, ""))
 	// method 2: without considering ANSI colors / escape sequences
 	//		return runewidth.StringWidth(str)
-	// method 3: considering all above, but a bit slow?
+	// method 3: considering all above, which is what we do (and cache)
 	// 		return runewidth.StringWidth(ansiEscapeRE.ReplaceAllString(str, ""))
 	w, _ := widthCache.Get(str)
 	if w > 0 {
 		return w
 	}
-	w = uint16(runewidth.StringWidth(str) - countMatchesLength(ansiEscapeRE, str))
+	w = uint16(runewidth.StringWidth(ansiEscapeRE.ReplaceAllString(str, "")))
 	widthCache.Set(str, w)
 	return w
 }
-
-func countMatchesLength(re *regexp.Regexp, s string) int {
-	// it does not count the first (invisible) character
-	// because runewidth library already ignores that
-	total := 0
-	for start := 0; start < len(s); {
-		remaining := s[start:] // slicing the string is cheap
-		loc := re.FindStringIndex(remaining)
-		if loc == nil {
-			break
-		}
-		// loc[0] is the start index of the match,
-		// loc[1] is the end index (exclusive)
-		start += loc[1]
-		total += loc[1] - loc[0] - 1
-	}
-	return total
-}
-- 
2.43.0


From c27d719b18574cd7dbc54acd75857018b22c1b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:58 +0000
Subject: [PATCH 02/12] fix: do not wrap around widths above MAX_WIDTH

A text of 65536 cells was measured as 0 cells wide.
---
 width.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/width.go b/width.go
index a22f0a0..611f282 100644
--- a/width.go
+++ b/width.go
@@ -31,7 +31,11 @@ func visualWidth(str string) uint16 {
 	if w > 0 {
 		return w
 	}
-	w = uint16(runewidth.StringWidth(ansiEscapeRE.ReplaceAllString(str, "")))
+	width := runewidth.StringWidth(ansiEscapeRE.ReplaceAllString(str, ""))
+	if width > MAX_WIDTH {
+		width = MAX_WIDTH
+	}
+	w = uint16(width)
 	widthCache.Set(str, w)
 	return w
 }
-- 
2.43.0


From e3d848f551ae6872030d87f808683abd57488071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:58 +0000
Subject: [PATCH 03/12] fix: synchronise the width cache shared by all tables

The cache is process-wide and was used without locking, so two goroutines
aligning strings or filling their own tables crashed with concurrent map
writes.
---
 width.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/width.go b/width.go
index 611f282..7d38745 100644
--- a/width.go
+++ b/width.go
@@ -16,7 +16,7 @@ var ansiEscapeRE = regexp.MustCompile(
 	"[\u001b\u009b][[()#;?]*(?:[0-9]{1,4}(?:;[0-9]{0,4})*)?[0-9A-ORZcf-nqry=><]",
 )
 
-var widthCache = lru.New[string, uint16](lru.WithCapacity(10000))
+var widthCache = lru.NewSync[string, uint16](lru.WithCapacity(10000))
 
 // runewidth.FillLeft(str, width) or runewidth.FillRight(str, width) do not work
 
-- 
2.43.0


From 35e206f7b051743bd75f2293f52b385f0d191948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:58 +0000
Subject: [PATCH 04/12] fix: do not serve widths cached under other East-Asian
 settings

After changing runewidth.DefaultCondition, strings that had been measured
before kept their old width while new ones got the new one.
---
 width.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/width.go b/width.go
index 7d38745..b94a1c7 100644
--- a/width.go
+++ b/width.go
@@ -16,7 +16,15 @@ var ansiEscapeRE = regexp.MustCompile(
 	"[\u001b\u009b][[()#;?]*(?:[0-9]{1,4}(?:;[0-9]{0,4})*)?[0-9A-ORZcf-nqry=><]",
 )
 
-var widthCache = lru.NewSync[string, uint16](lru.WithCapacity(10000))
+// widthKey has the settings that StringWidth depends on, because they are
+// exported and can be changed after a string has been measured
+type widthKey struct {
+	str                string
+	eastAsianWidth     bool
+	strictEmojiNeutral bool
+}
+
+var widthCache = lru.NewSync[widthKey, uint16](lru.WithCapacity(10000))
 
 // runewidth.FillLeft(str, width) or runewidth.FillRight(str, width) do not work
 
@@ -27,7 +35,12 @@ func visualWidth(str string) uint16 {
 	//		return runewidth.StringWidth(str)
 	// method 3: considering all above, which is what we do (and cache)
 	// 		return runewidth.StringWidth(ansiEscapeRE.ReplaceAllString(str, ""))
-	w, _ := widthCache.Get(str)
+	key := widthKey{
+		str:                str,
+		eastAsianWidth:     runewidth.DefaultCondition.EastAsianWidth,
+		strictEmojiNeutral: runewidth.DefaultCondition.StrictEmojiNeutral,
+	}
+	w, _ := widthCache.Get(key)
 	if w > 0 {
 		return w
 	}
@@ -36,6 +49,6 @@ func visualWidth(str string) uint16 {
 		width = MAX_WIDTH
 	}
 	w = uint16(width)
-	widthCache.Set(str, w)
+	widthCache.Set(key, w)
 	return w
 }
-- 
2.43.0


From 05a610bbd83b49f9deb833b24b43fb12652a9582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:01 +0000
Subject: [PATCH 05/12] fix: do not wrap around in TableWidth

Without columns (0-1)*margin wrapped around, and so did sums above
MAX_WIDTH. Saturate at MAX_WIDTH, 0 without columns.
---
 table.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/table.go b/table.go
index 9bab608..84f537a 100644
--- a/table.go
+++ b/table.go
@@ -159,9 +159,15 @@ func (t *Table) FormatHeader(sep string) string {
 }
 
 func (t *Table) TableWidth(margin uint16) uint16 {
-	width := (uint16(t.ColumnCount()) - 1) * margin
-	for _, col := range t.Columns {
-		width += t.Width(col.Name)
+	width := 0
+	for index, col := range t.Columns {
+		if index > 0 {
+			width += int(margin)
+		}
+		width += int(t.Width(col.Name))
+	}
+	if width > MAX_WIDTH {
+		width = MAX_WIDTH
 	}
-	return width
+	return uint16(width)
 }
-- 
2.43.0


From 3150a0a23823b561878f2c007a9e15fea3b23fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:30 +0000
Subject: [PATCH 06/12] fix: count the inner separator when fitting items into
 a line

Cells of an item are joined with innerSep, not with sep, so with an empty
sep and several columns lines exceeded the maximum width, and with a longer
sep fewer items were put into a line than fit.
---
 horizontal.go | 2 +-
 vertical.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/horizontal.go b/horizontal.go
index e64945f..bb9b591 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -19,7 +19,7 @@ func (t *Table) MergeRowsHorizontal(
 		maxWidthArg = MAX_WIDTH
 	}
 	maxWidth := uint16(maxWidthArg)
-	groupCount := int((maxWidth + margin) / (t.TableWidth(margin) + margin))
+	groupCount := int((maxWidth + margin) / (t.TableWidth(innerMargin) + margin))
 	if groupCount < 1 {
 		groupCount = 1
 	}
diff --git a/vertical.go b/vertical.go
index a64518e..6f6c930 100644
--- a/vertical.go
+++ b/vertical.go
@@ -19,7 +19,7 @@ func (t *Table) MergeRowsVertical(
 		maxWidthArg = MAX_WIDTH
 	}
 	maxWidth := uint16(maxWidthArg)
-	groupCount := int((maxWidth + margin) / (t.TableWidth(margin) + margin))
+	groupCount := int((maxWidth + margin) / (t.TableWidth(innerMargin) + margin))
 	if groupCount < 1 {
 		groupCount = 1
 	}
-- 
2.43.0


From dea11b7a4a85b6a45c6bae541bd06c49211feb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:31 +0000
Subject: [PATCH 07/12] fix: compute the number of items per line without
 wrap-around

maxWidth+margin wrapped around to a small number for widths near MAX_WIDTH,
a negative width became a huge one, and zero-width tables with an empty
separator divided by zero.
---
 horizontal.go | 17 +++++++++++------
 vertical.go   | 17 +++++++++++------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/horizontal.go b/horizontal.go
index bb9b591..83d43dd 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -13,13 +13,18 @@ func (t *Table) MergeRowsHorizontal(
 	sep string,
 	compact bool,
 ) {
-	margin := uint16(len(sep))
+	margin := len(sep)
 	colN := t.ColumnCount()
-	if maxWidthArg > MAX_WIDTH {
-		maxWidthArg = MAX_WIDTH
+	maxWidth := maxWidthArg
+	if maxWidth > MAX_WIDTH {
+		maxWidth = MAX_WIDTH
+	} else if maxWidth < 0 {
+		maxWidth = 0
+	}
+	groupCount := 1
+	if groupWidth := int(t.TableWidth(innerMargin)) + margin; groupWidth > 0 {
+		groupCount = (maxWidth + margin) / groupWidth
 	}
-	maxWidth := uint16(maxWidthArg)
-	groupCount := int((maxWidth + margin) / (t.TableWidth(innerMargin) + margin))
 	if groupCount < 1 {
 		groupCount = 1
 	}
@@ -27,7 +32,7 @@ func (t *Table) MergeRowsHorizontal(
 		return t.columnWidth[t.Columns[colI].Name]
 	}
 	if compact {
-		extra, cellWidth := t.compactCalcH(items, maxWidth, margin, groupCount)
+		extra, cellWidth := t.compactCalcH(items, uint16(maxWidth), uint16(margin), groupCount)
 		if extra > 0 {
 			groupCount += extra
 			getWidth = func(colI int, groupI int) uint16 {
diff --git a/vertical.go b/vertical.go
index 6f6c930..d348f8a 100644
--- a/vertical.go
+++ b/vertical.go
@@ -13,13 +13,18 @@ func (t *Table) MergeRowsVertical(
 	sep string,
 	compact bool,
 ) {
-	margin := uint16(len(sep))
+	margin := len(sep)
 	colN := t.ColumnCount()
-	if maxWidthArg > MAX_WIDTH {
-		maxWidthArg = MAX_WIDTH
+	maxWidth := maxWidthArg
+	if maxWidth > MAX_WIDTH {
+		maxWidth = MAX_WIDTH
+	} else if maxWidth < 0 {
+		maxWidth = 0
+	}
+	groupCount := 1
+	if groupWidth := int(t.TableWidth(innerMargin)) + margin; groupWidth > 0 {
+		groupCount = (maxWidth + margin) / groupWidth
 	}
-	maxWidth := uint16(maxWidthArg)
-	groupCount := int((maxWidth + margin) / (t.TableWidth(innerMargin) + margin))
 	if groupCount < 1 {
 		groupCount = 1
 	}
@@ -27,7 +32,7 @@ func (t *Table) MergeRowsVertical(
 		return t.columnWidth[t.Columns[colI].Name]
 	}
 	if compact {
-		extra, cellWidth := t.compactCalcV(items, maxWidth, margin, groupCount)
+		extra, cellWidth := t.compactCalcV(items, uint16(maxWidth), uint16(margin), groupCount)
 		if extra > 0 {
 			groupCount += extra
 			getWidth = func(colI int, groupI int) uint16 {
-- 
2.43.0


From d5dfda52f90427ddf0c7591b625099f6f885ad32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:32 +0000
Subject: [PATCH 08/12] fix: do not wrap around the total width in compact mode

The sum of many cell widths wrapped around, so lines wider than the maximum
width were accepted.
---
 horizontal.go | 15 +++++++++------
 vertical.go   | 15 +++++++++------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/horizontal.go b/horizontal.go
index 83d43dd..7e205ce 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -32,7 +32,7 @@ func (t *Table) MergeRowsHorizontal(
 		return t.columnWidth[t.Columns[colI].Name]
 	}
 	if compact {
-		extra, cellWidth := t.compactCalcH(items, uint16(maxWidth), uint16(margin), groupCount)
+		extra, cellWidth := t.compactCalcH(items, maxWidth, margin, groupCount)
 		if extra > 0 {
 			groupCount += extra
 			getWidth = func(colI int, groupI int) uint16 {
@@ -73,17 +73,20 @@ func (t *Table) MergeRowsHorizontal(
 
 func (t *Table) compactCalcH(
 	items FormattedItemList,
-	maxWidth uint16,
-	margin uint16,
+	maxWidth int,
+	margin int,
 	groupCountInit int,
 ) (extra int, cellWidth []uint16) {
-	colN := uint16(t.ColumnCount())
+	innerCount := t.ColumnCount() - 1
+	if innerCount < 0 {
+		innerCount = 0
+	}
 	for {
 		groupCount := groupCountInit + extra + 1
 		cellWidthNew := t.mergedRowsWidthH(items, groupCount)
-		totalWidth := margin*(uint16(groupCount)-1) + innerMargin*(colN-1)*uint16(groupCount)
+		totalWidth := margin*(groupCount-1) + int(innerMargin)*innerCount*groupCount
 		for _, w := range cellWidthNew {
-			totalWidth += w
+			totalWidth += int(w)
 		}
 		if totalWidth > maxWidth {
 			return
diff --git a/vertical.go b/vertical.go
index d348f8a..e8e512f 100644
--- a/vertical.go
+++ b/vertical.go
@@ -32,7 +32,7 @@ func (t *Table) MergeRowsVertical(
 		return t.columnWidth[t.Columns[colI].Name]
 	}
 	if compact {
-		extra, cellWidth := t.compactCalcV(items, uint16(maxWidth), uint16(margin), groupCount)
+		extra, cellWidth := t.compactCalcV(items, maxWidth, margin, groupCount)
 		if extra > 0 {
 			groupCount += extra
 			getWidth = func(colI int, groupI int) uint16 {
@@ -73,20 +73,23 @@ func (t *Table) MergeRowsVertical(
 
 func (t *Table) compactCalcV(
 	items FormattedItemList,
-	maxWidth uint16,
-	margin uint16,
+	maxWidth int,
+	margin int,
 	groupCountInit int,
 ) (extra int, cellWidth []uint16) {
-	colN := uint16(t.ColumnCount())
+	innerCount := t.ColumnCount() - 1
+	if innerCount < 0 {
+		innerCount = 0
+	}
 	for {
 		groupCount := groupCountInit + extra + 1
 		cellWidthNew := t.mergedRowsWidthV(items, groupCount)
 		if cellWidthNew == nil {
 			return
 		}
-		totalWidth := margin*(uint16(groupCount)-1) + innerMargin*(colN-1)*uint16(groupCount)
+		totalWidth := margin*(groupCount-1) + int(innerMargin)*innerCount*groupCount
 		for _, w := range cellWidthNew {
-			totalWidth += w
+			totalWidth += int(w)
 		}
 		if totalWidth > maxWidth {
 			return
-- 
2.43.0


From f427852e57c92ca7e2361811008263df1518e672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:33 +0000
Subject: [PATCH 09/12] fix: end the compact search once all items fit into one
 line

Empty groups have no width, so with an empty separator (and one column) the
search never ended.
---
 horizontal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/horizontal.go b/horizontal.go
index 7e205ce..5cd6f01 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -93,6 +93,10 @@ func (t *Table) compactCalcH(
 		}
 		cellWidth = cellWidthNew
 		extra += 1
+		if groupCount > items.Len() {
+			// all items are in one line, more groups would be empty
+			return
+		}
 	}
 }
 
-- 
2.43.0


From 88ab5fed8f3f60cb86a818310b921d39d37f7130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:17 +0000
Subject: [PATCH 10/12] fix: print nothing for an empty item list

(0-1)/groupCount+1 is 1 for more than one group, so a blank line was
printed.
---
 horizontal.go | 3 +++
 vertical.go   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/horizontal.go b/horizontal.go
index 5cd6f01..a25081b 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -41,6 +41,9 @@ func (t *Table) MergeRowsHorizontal(
 		}
 	}
 	itemN := items.Len()
+	if itemN == 0 {
+		return
+	}
 	lineCount := (itemN-1)/groupCount + 1
 	for lineI := 0; lineI < lineCount; lineI++ {
 		line := make([]string, 0, groupCount)
diff --git a/vertical.go b/vertical.go
index e8e512f..b7e7881 100644
--- a/vertical.go
+++ b/vertical.go
@@ -41,6 +41,9 @@ func (t *Table) MergeRowsVertical(
 		}
 	}
 	itemN := items.Len()
+	if itemN == 0 {
+		return
+	}
 	lineCount := (itemN-1)/groupCount + 1
 	for lineI := 0; lineI < lineCount; lineI++ {
 		line := make([]string, 0, groupCount)
-- 
2.43.0


From 8931af5a1baf049ca6776e6bdce04fde46b4e3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:18 +0000
Subject: [PATCH 11/12] fix: choose header titles by displayed width

len() counts bytes, so titles with non-ASCII text or escape sequences were
dropped although they fit the column.
---
 table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/table.go b/table.go
index 84f537a..7ac7a63 100644
--- a/table.go
+++ b/table.go
@@ -139,8 +139,8 @@ func (t *Table) padColumnHeader(col *Column) string {
 	if width == 0 {
 		return value
 	}
-	if len(value) > int(width) {
-		if len(col.ShortTitle) > int(width) {
+	if visualWidth(value) > width {
+		if visualWidth(col.ShortTitle) > width {
 			value = ""
 		} else {
 			value = col.ShortTitle
-- 
2.43.0


From 12c6ed87f6b6eb688285877061ae4ba9dc48845e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:18 +0000
Subject: [PATCH 12/12] fix: do not overwrite the lookup table of a copied
 Condition

CreateLUT reused the old buffer, which copies of the Condition made before
still refer to, so their widths changed to those of the new settings.
---
 runewidth/runewidth.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/runewidth/runewidth.go b/runewidth/runewidth.go
index 08e69f2..3f45926 100644
--- a/runewidth/runewidth.go
+++ b/runewidth/runewidth.go
@@ -164,13 +164,9 @@ func (c *Condition) RuneWidth(r rune) int {
 // If options in c is changed, CreateLUT should be called again.
 func (c *Condition) CreateLUT() {
 	const max = 0x110000
-	lut := c.combinedLut
-	if len(c.combinedLut) != 0 {
-		// Remove so we don't use it.
-		c.combinedLut = nil
-	} else {
-		lut = make([]byte, max/2)
-	}
+	// Remove so we don't use it. A copy of c may still use it, so don't reuse it.
+	c.combinedLut = nil
+	lut := make([]byte, max/2)
 	for i := range lut {
 		i32 := int32(i * 2)
 		x0 := c.RuneWidth(i32)
-- 
2.43.0

