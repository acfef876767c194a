From 2023e069e99a317369e0f84d929197200abf667c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:50 +0000
Subject: [PATCH 01/20] fix: check every ignored filename, regardless of
 earlier matches

ignore_file() stopped partway through the list on a match and never rewound
it, so the next lookup started after the matched entry and missed any ignored
name stored before it.
---
 src/file.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/file.c b/src/file.c
index 00a03cc..ece5c2d 100644
--- a/src/file.c
+++ b/src/file.c
@@ -38,6 +38,9 @@ static int ignore_file(const char *filename, const options_t *options)
         return 1;
     }
 
+    // a previous match may have left the list partway through
+    filelist_reset(options->files_to_ignore);
+
     while ((file_walk = filelist_get(options->files_to_ignore))) {
         if (strcmp(filename, file_walk) == 0) {
             return 1;
-- 
2.43.0


From 77781ea806403d9342cb7aa1d0e5a0c5a6fd7c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:05 +0000
Subject: [PATCH 02/20] fix: size filter output for defaults, pass-through
 bytes and hidden NULLs

The iso8859_1, safe and utf_8 filters allocated strlen * max_data_length, which
ignores the default translation, the "_hidden_null_" replacement, and bytes
that are copied as is through a table whose rows are all empty.  The result was
written past the end of the buffer.
---
 src/clean_string.c |  4 ++--
 src/clean_utf_8.c  |  8 +++++++-
 src/table.c        | 26 ++++++++++++++++++++++++++
 src/table.h        |  1 +
 4 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/clean_string.c b/src/clean_string.c
index b3cbeea..81cbf70 100644
--- a/src/clean_string.c
+++ b/src/clean_string.c
@@ -40,7 +40,7 @@ char *clean_iso8859_1(char *filename, table_t *table)
         exit(EXIT_FAILURE);
     }
 
-    output = wrapped_malloc((strlen(filename) * table->max_data_length) + 1);
+    output = wrapped_malloc((strlen(filename) * table_max_expansion(table)) + 1);
 
     input_walk = filename;
     output_walk = output;
@@ -100,7 +100,7 @@ char *clean_safe(char *filename, table_t *table)
         exit(EXIT_FAILURE);
     }
 
-    output = wrapped_malloc((strlen(filename) * table->max_data_length) + 1);
+    output = wrapped_malloc((strlen(filename) * table_max_expansion(table)) + 1);
 
     input_walk = filename;
     output_walk = output;
diff --git a/src/clean_utf_8.c b/src/clean_utf_8.c
index 56d9051..a63c373 100644
--- a/src/clean_utf_8.c
+++ b/src/clean_utf_8.c
@@ -61,6 +61,7 @@ char *clean_utf_8(char *filename, table_t *table)
 {
     char *output, *input_walk, *output_walk, *replace_walk;
     unsigned int new_value;
+    size_t max_expansion;
     int expected_chars;
     int characters_eaten;
     int utf_8_width;
@@ -75,7 +76,12 @@ char *clean_utf_8(char *filename, table_t *table)
         exit(EXIT_FAILURE);
     }
 
-    output = wrapped_malloc((strlen(filename) * table->max_data_length) + 1);
+    max_expansion = table_max_expansion(table);
+    if (max_expansion < strlen(null_replacement)) {
+        max_expansion = strlen(null_replacement);
+    }
+
+    output = wrapped_malloc((strlen(filename) * max_expansion) + 1);
 
     input_walk = filename;
     output_walk = output;
diff --git a/src/table.c b/src/table.c
index fefeac5..b6a04ed 100644
--- a/src/table.c
+++ b/src/table.c
@@ -219,3 +219,29 @@ char *table_get(table_t *table, unsigned int key)
 
     return table->rows[offset].data;
 }
+
+/**
+ * Returns the largest number of bytes that a single character can turn into
+ * when it is passed through the table, whether it is found on the table, is
+ * replaced by the default translation, or is left alone.
+ *
+ * @param table The table to use.
+ *
+ * @return The number of bytes, never less than one.
+ */
+size_t table_max_expansion(table_t *table)
+{
+    size_t ret;
+
+    ret = 1;
+
+    if (table->max_data_length > 1) {
+        ret = table->max_data_length;
+    }
+
+    if (table->default_translation != NULL && strlen(table->default_translation) > ret) {
+        ret = strlen(table->default_translation);
+    }
+
+    return ret;
+}
diff --git a/src/table.h b/src/table.h
index d2999ae..e8a7e3c 100644
--- a/src/table.h
+++ b/src/table.h
@@ -19,5 +19,6 @@ extern table_t *table_resize(table_t *table, int rows, int use_hash);
 extern void table_free(table_t *table);
 extern int table_put(table_t *table, unsigned int key, char *data);
 extern char *table_get(table_t *table, unsigned int key);
+extern size_t table_max_expansion(table_t *table);
 
 #endif /* __TABLE_H */
-- 
2.43.0


From 6d84f2df3659b5d556d7fcd6217b74e988c3636b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:05 +0000
Subject: [PATCH 03/20] fix: don't read before the inline buffer when looking
 for a UTF-8 start byte

A chunk without a newline that is empty, or made up of a few UTF-8 continuation
bytes only, walked back past the start of the buffer.
---
 src/file.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/file.c b/src/file.c
index ece5c2d..e1aac2c 100644
--- a/src/file.c
+++ b/src/file.c
@@ -294,7 +294,9 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
             //
 
             hold = seek = strchr(base, '\0');
-            seek--;
+            if (seek > base) {
+                seek--;
+            }
 
 #ifdef DEBUG
             if (is_utf_8_cont(*seek)) {
@@ -302,7 +304,7 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
             }
 #endif
 
-            while (is_utf_8_cont(*seek) && (hold - seek) < UTF_8_MAX_LENGTH) {
+            while (seek > base && is_utf_8_cont(*seek) && (hold - seek) < UTF_8_MAX_LENGTH) {
 #ifdef DEBUG
                 fprintf(stderr, "detox: debug: at %02x, moving back one\n", (unsigned char) *seek);
 #endif
-- 
2.43.0


From c5bfadc9dfccb199f84526c7afda17944317845b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:05 +0000
Subject: [PATCH 04/20] fix: treat an empty quoted default in a table as no
 default

'default ""' kept the keyword left in the work buffer, and translated every
unknown character to the word "default".  detox.tbl(5) says that an empty
default falls through.
---
 src/parse_table.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse_table.c b/src/parse_table.c
index e86851a..a2adf46 100644
--- a/src/parse_table.c
+++ b/src/parse_table.c
@@ -133,6 +133,8 @@ table_t *parse_table(char *filename)
                     continue;
                 }
 
+                parsed[0] = '\0';
+
                 if (work[offset] == '"') {
                     sscanf(work + offset + 1, "%[^\"]", parsed);
                 } else if (work[offset] == '\'') {
@@ -141,7 +143,8 @@ table_t *parse_table(char *filename)
                     sscanf(work + offset, "%s", parsed);
                 }
 
-                table->default_translation = wrapped_strdup(parsed);
+                // an empty default means fall through
+                table->default_translation = (parsed[0] == '\0') ? NULL : wrapped_strdup(parsed);
 
                 continue;
             }
-- 
2.43.0


From 069a4c2d2fb3d365cdc8b6b31915fff9d5d7687d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:23 +0000
Subject: [PATCH 05/20] fix: read a directory in full before renaming anything
 in it

parse_dir() renamed entries while it was still reading the directory.  In a
large directory, readdir() returns renamed entries again, under their new name,
and the sequence was applied to the same file more than once.
---
 src/file.c | 50 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/file.c b/src/file.c
index e1aac2c..7ac7684 100644
--- a/src/file.c
+++ b/src/file.c
@@ -169,10 +169,11 @@ char *parse_file(char *filename, options_t *options)
 void parse_dir(char *filename, options_t *options)
 {
     char *new_file, *work;
+    char *file_walk;
     DIR *dir_handle;
+    filelist_t *entries;
     struct dirent *dir_entry;
     struct stat stat_info;
-    int check_file;
     int err;
     size_t new_file_length;
 
@@ -205,33 +206,46 @@ void parse_dir(char *filename, options_t *options)
         return;
     }
 
-    dir_entry = readdir(dir_handle);
+    /*
+     * Read all of the entries before renaming any of them.  Otherwise, readdir()
+     * is free to return a renamed file a second time, under its new name.
+     */
+    entries = filelist_init();
 
-    while (dir_entry != NULL) {
+    while ((dir_entry = readdir(dir_handle)) != NULL) {
 
         /*
          * Check for files that need to be ignored
          */
-        check_file = !ignore_file(dir_entry->d_name, options);
+        if (!ignore_file(dir_entry->d_name, options)) {
+            filelist_put(entries, dir_entry->d_name);
+        }
+    }
 
-        if (check_file) {
-            snprintf(new_file, new_file_length, "%s/%s", filename, dir_entry->d_name);
+    closedir(dir_handle);
 
-            lstat(new_file, &stat_info);
-            if (S_ISDIR(stat_info.st_mode)) {
-                work = parse_file(new_file, options);
-                if (options->recurse) {
-                    parse_dir(work, options);
-                }
-                free(work);
-            } else if (S_ISREG(stat_info.st_mode) || options->special) {
-                work = parse_file(new_file, options);
-                free(work);
+    while ((file_walk = filelist_get(entries))) {
+        snprintf(new_file, new_file_length, "%s/%s", filename, file_walk);
+
+        err = lstat(new_file, &stat_info);
+        if (err == -1) {
+            continue;
+        }
+
+        if (S_ISDIR(stat_info.st_mode)) {
+            work = parse_file(new_file, options);
+            if (options->recurse) {
+                parse_dir(work, options);
             }
+            free(work);
+        } else if (S_ISREG(stat_info.st_mode) || options->special) {
+            work = parse_file(new_file, options);
+            free(work);
         }
-        dir_entry = readdir(dir_handle);
     }
-    closedir(dir_handle);
+
+    filelist_free(entries);
+    free(new_file);
 }
 
 /**
-- 
2.43.0


From 309df558f6ee3f63d7cb253d5c14e0bc58dd0541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:33 +0000
Subject: [PATCH 06/20] fix: refuse to rename a file to a path or to an empty
 name

A filter can produce a name containing a slash (uncgi, for a%2Fb), or nothing at
all (wipeup, for ___).  The former moved the file into another directory, and
the latter was announced by a dry run but could never be carried out.
---
 src/file.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/file.c b/src/file.c
index 7ac7684..c6056cd 100644
--- a/src/file.c
+++ b/src/file.c
@@ -122,6 +122,15 @@ char *parse_file(char *filename, options_t *options)
     strncpy(new_filename, old_filename, len);
     strcpy(new_filename + len, work);
 
+    /* the new name has to be a name, not a path */
+    if (work[0] == '\0' || strchr(work, '/') != NULL) {
+        fprintf(stderr, "Cannot rename %s to %s: invalid filename\n", old_filename, new_filename);
+
+        free(work);
+        free(new_filename);
+        return old_filename;
+    }
+
     free(work);
 
     err = lstat(old_filename, &stat_info_old);
-- 
2.43.0


From 0f015be04ccabfd4f24f66bdcc1aa601e5c45af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:43 +0000
Subject: [PATCH 07/20] fix: don't count an overwritten table row as a new one

table_put() counted overwrites as used rows, so a table that redefines its rows
was reported as full while it still had room, and was rejected.
---
 src/table.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/table.c b/src/table.c
index b6a04ed..cbf41f6 100644
--- a/src/table.c
+++ b/src/table.c
@@ -123,10 +123,6 @@ int table_put(table_t *table, unsigned int key, char *data)
         return -1;
     }
 
-    if (table->length == table->used) {
-        return -1;
-    }
-
     offset = -1;
 
     if (table->use_hash) {
@@ -152,11 +148,12 @@ int table_put(table_t *table, unsigned int key, char *data)
 
     if (table->rows[offset].key == key) {
         table->overwrites++;
+    } else {
+        table->used++;
     }
 
     table->rows[offset].key = key;
     table->rows[offset].data = wrapped_strdup(data);
-    table->used++;
 
     if (table->max_key < key) {
         table->max_key = key;
-- 
2.43.0


From 021780256aab98c5a120e06862ff5ebb39d9252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:01 +0000
Subject: [PATCH 08/20] fix: make room for every row of a table made of short
 lines

The number of rows was estimated at six bytes per line.  Lines can be shorter
than that, and a table with a thousand of them was rejected as full.
---
 src/parse_table.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse_table.c b/src/parse_table.c
index a2adf46..83b07ed 100644
--- a/src/parse_table.c
+++ b/src/parse_table.c
@@ -17,7 +17,8 @@
 #include "table.h"
 #include "wrapped.h"
 
-#define LINE_LENGTH 6
+// the shortest line that adds a row to the table, e.g. "1a\n"
+#define LINE_LENGTH 3
 
 enum {
     BASE_STATE,
-- 
2.43.0


From 0e8a146c1e50093f75e30ed5a2407ca281b91ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:01 +0000
Subject: [PATCH 09/20] fix: write the translations of the shipped 8-bit tables
 as characters

parse_table() doesn't know C escapes, so a filter that used the installed
iso8859_1.tbl or cp1252.tbl replaced a byte with the text \uXXXX, unlike the
builtin table of the same name.
---
 table/cp1252.tbl    |  54 ++++++-------
 table/iso8859_1.tbl | 188 ++++++++++++++++++++++----------------------
 2 files changed, 121 insertions(+), 121 deletions(-)

diff --git a/table/cp1252.tbl b/table/cp1252.tbl
index ef3da8d..124df24 100644
--- a/table/cp1252.tbl
+++ b/table/cp1252.tbl
@@ -27,38 +27,38 @@ start
 # CP-1252 Translation - 0x0080-0x009F
 #
 
-0x0080		"\u20AC"	# EURO SIGN
+0x0080		"€"		# EURO SIGN
 0x0081		"-"		# undefined, or control character
-0x0082		"\u201A"	# SINGLE LOW-9 QUOTATION MARK
-0x0083		"\u0192"	# LATIN SMALL LETTER F WITH HOOK
-0x0084		"\u201E"	# DOUBLE LOW-9 QUOTATION MARK
-0x0085		"\u2026"	# HORIZONTAL ELLIPSIS
-0x0086		"\u2020"	# DAGGER
-0x0087		"\u2021"	# DOUBLE DAGGER
-0x0088		"\u02C6"	# MODIFIER LETTER CIRCUMFLEX ACCENT
-0x0089		"\u2030"	# PER MILLE SIGN
-0x008A		"\u0160"	# LATIN CAPITAL LETTER S WITH CARON
-0x008B		"\u2039"	# SINGLE LEFT-POINTING ANGLE QUOTATION MARK
-0x008C		"\u0152"	# LATIN CAPITAL LIGATURE OE
+0x0082		"‚"		# SINGLE LOW-9 QUOTATION MARK
+0x0083		"ƒ"		# LATIN SMALL LETTER F WITH HOOK
+0x0084		"„"		# DOUBLE LOW-9 QUOTATION MARK
+0x0085		"…"		# HORIZONTAL ELLIPSIS
+0x0086		"†"		# DAGGER
+0x0087		"‡"		# DOUBLE DAGGER
+0x0088		"ˆ"		# MODIFIER LETTER CIRCUMFLEX ACCENT
+0x0089		"‰"		# PER MILLE SIGN
+0x008A		"Š"		# LATIN CAPITAL LETTER S WITH CARON
+0x008B		"‹"		# SINGLE LEFT-POINTING ANGLE QUOTATION MARK
+0x008C		"Œ"		# LATIN CAPITAL LIGATURE OE
 0x008D		"-"		# undefined, or control character
-0x008E		"\u017D"	# LATIN CAPITAL LETTER Z WITH CARON
+0x008E		"Ž"		# LATIN CAPITAL LETTER Z WITH CARON
 0x008F		"-"		# undefined, or control character
 
 0x0090		"-"		# undefined, or control character
-0x0091		"\u2018"	# LEFT SINGLE QUOTATION MARK
-0x0092		"\u2019"	# RIGHT SINGLE QUOTATION MARK
-0x0093		"\u201C"	# LEFT DOUBLE QUOTATION MARK
-0x0094		"\u201D"	# RIGHT DOUBLE QUOTATION MARK
-0x0095		"\u2022"	# BULLET
-0x0096		"\u2013"	# EN DASH
-0x0097		"\u2014"	# EM DASH
-0x0098		"\u02DC"	# SMALL TILDE
-0x0099		"\u2122"	# TRADE MARK SIGN
-0x009A		"\u0161"	# LATIN SMALL LETTER S WITH CARON
-0x009B		"\u203A"	# SINGLE RIGHT-POINTING ANGLE QUOTATION MARK
-0x009C		"\u0153"	# LATIN SMALL LIGATURE OE
+0x0091		"‘"		# LEFT SINGLE QUOTATION MARK
+0x0092		"’"		# RIGHT SINGLE QUOTATION MARK
+0x0093		"“"		# LEFT DOUBLE QUOTATION MARK
+0x0094		"”"		# RIGHT DOUBLE QUOTATION MARK
+0x0095		"•"		# BULLET
+0x0096		"–"		# EN DASH
+0x0097		"—"		# EM DASH
+0x0098		"˜"		# SMALL TILDE
+0x0099		"™"		# TRADE MARK SIGN
+0x009A		"š"		# LATIN SMALL LETTER S WITH CARON
+0x009B		"›"		# SINGLE RIGHT-POINTING ANGLE QUOTATION MARK
+0x009C		"œ"		# LATIN SMALL LIGATURE OE
 0x009D		"-"		# undefined, or control character
-0x009E		"\u017E"	# LATIN SMALL LETTER Z WITH CARON
-0x009F		"\u0178"	# LATIN CAPITAL LETTER Y WITH DIAERESIS
+0x009E		"ž"		# LATIN SMALL LETTER Z WITH CARON
+0x009F		"Ÿ"		# LATIN CAPITAL LETTER Y WITH DIAERESIS
 
 end
diff --git a/table/iso8859_1.tbl b/table/iso8859_1.tbl
index 05dca18..4d76c9c 100644
--- a/table/iso8859_1.tbl
+++ b/table/iso8859_1.tbl
@@ -26,105 +26,105 @@ start
 #
 
 0x00A0		" "		# NO-BREAK SPACE
-0x00A1		"\u00A1"	# INVERTED EXCLAMATION MARK
-0x00A2		"\u00A2"	# CENT SIGN
-0x00A3		"\u00A3"	# POUND SIGN
-0x00A4		"\u00A4"	# CURRENCY SIGN
-0x00A5		"\u00A5"	# YEN SIGN
-0x00A6		"\u00A6"	# BROKEN BAR
-0x00A7		"\u00A7"	# SECTION SIGN
-0x00A8		"\u00A8"	# DIAERESIS
-0x00A9		"\u00A9"	# COPYRIGHT SIGN
-0x00AA		"\u00AA"	# FEMININE ORDINAL INDICATOR
-0x00AB		"\u00AB"	# LEFT-POINTING DOUBLE ANGLE QUOTATION MARK
-0x00AC		"\u00AC"	# NOT SIGN
+0x00A1		"¡"		# INVERTED EXCLAMATION MARK
+0x00A2		"¢"		# CENT SIGN
+0x00A3		"£"		# POUND SIGN
+0x00A4		"¤"		# CURRENCY SIGN
+0x00A5		"¥"		# YEN SIGN
+0x00A6		"¦"		# BROKEN BAR
+0x00A7		"§"		# SECTION SIGN
+0x00A8		"¨"		# DIAERESIS
+0x00A9		"©"		# COPYRIGHT SIGN
+0x00AA		"ª"		# FEMININE ORDINAL INDICATOR
+0x00AB		"«"		# LEFT-POINTING DOUBLE ANGLE QUOTATION MARK
+0x00AC		"¬"		# NOT SIGN
 0x00AD		"-"		# SOFT HYPHEN
-0x00AE		"\u00AE"	# REGISTERED SIGN
-0x00AF		"\u00AF"	# MACRON
+0x00AE		"®"		# REGISTERED SIGN
+0x00AF		"¯"		# MACRON
 
-0x00B0		"\u00B0"	# DEGREE SIGN
-0x00B1		"\u00B1"	# PLUS-MINUS SIGN
-0x00B2		"\u00B2"	# SUPERSCRIPT TWO
-0x00B3		"\u00B3"	# SUPERSCRIPT THREE
-0x00B4		"\u00B4"	# ACUTE ACCENT
-0x00B5		"\u00B5"	# MICRO SIGN
-0x00B6		"\u00B6"	# PILCROW SIGN
-0x00B7		"\u00B7"	# MIDDLE DOT
-0x00B8		"\u00B8"	# CEDILLA
-0x00B9		"\u00B9"	# SUPERSCRIPT ONE
-0x00BA		"\u00BA"	# MASCULINE ORDINAL INDICATOR
-0x00BB		"\u00BB"	# RIGHT-POINTING DOUBLE ANGLE QUOTATION MARK
-0x00BC		"\u00BC"	# VULGAR FRACTION ONE QUARTER
-0x00BD		"\u00BD"	# VULGAR FRACTION ONE HALF
-0x00BE		"\u00BE"	# VULGAR FRACTION THREE QUARTERS
-0x00BF		"\u00BF"	# INVERTED QUESTION MARK
+0x00B0		"°"		# DEGREE SIGN
+0x00B1		"±"		# PLUS-MINUS SIGN
+0x00B2		"²"		# SUPERSCRIPT TWO
+0x00B3		"³"		# SUPERSCRIPT THREE
+0x00B4		"´"		# ACUTE ACCENT
+0x00B5		"µ"		# MICRO SIGN
+0x00B6		"¶"		# PILCROW SIGN
+0x00B7		"·"		# MIDDLE DOT
+0x00B8		"¸"		# CEDILLA
+0x00B9		"¹"		# SUPERSCRIPT ONE
+0x00BA		"º"		# MASCULINE ORDINAL INDICATOR
+0x00BB		"»"		# RIGHT-POINTING DOUBLE ANGLE QUOTATION MARK
+0x00BC		"¼"		# VULGAR FRACTION ONE QUARTER
+0x00BD		"½"		# VULGAR FRACTION ONE HALF
+0x00BE		"¾"		# VULGAR FRACTION THREE QUARTERS
+0x00BF		"¿"		# INVERTED QUESTION MARK
 
-0x00C0		"\u00C0"	# LATIN CAPITAL LETTER A WITH GRAVE
-0x00C1		"\u00C1"	# LATIN CAPITAL LETTER A WITH ACUTE
-0x00C2		"\u00C2"	# LATIN CAPITAL LETTER A WITH CIRCUMFLEX
-0x00C3		"\u00C3"	# LATIN CAPITAL LETTER A WITH TILDE
-0x00C4		"\u00C4"	# LATIN CAPITAL LETTER A WITH DIAERESIS
-0x00C5		"\u00C5"	# LATIN CAPITAL LETTER A WITH RING ABOVE
-0x00C6		"\u00C6"	# LATIN CAPITAL LETTER AE
-0x00C7		"\u00C7"	# LATIN CAPITAL LETTER C WITH CEDILLA
-0x00C8		"\u00C8"	# LATIN CAPITAL LETTER E WITH GRAVE
-0x00C9		"\u00C9"	# LATIN CAPITAL LETTER E WITH ACUTE
-0x00CA		"\u00CA"	# LATIN CAPITAL LETTER E WITH CIRCUMFLEX
-0x00CB		"\u00CB"	# LATIN CAPITAL LETTER E WITH DIAERESIS
-0x00CC		"\u00CC"	# LATIN CAPITAL LETTER I WITH GRAVE
-0x00CD		"\u00CD"	# LATIN CAPITAL LETTER I WITH ACUTE
-0x00CE		"\u00CE"	# LATIN CAPITAL LETTER I WITH CIRCUMFLEX
-0x00CF		"\u00CF"	# LATIN CAPITAL LETTER I WITH DIAERESIS
+0x00C0		"À"		# LATIN CAPITAL LETTER A WITH GRAVE
+0x00C1		"Á"		# LATIN CAPITAL LETTER A WITH ACUTE
+0x00C2		"Â"		# LATIN CAPITAL LETTER A WITH CIRCUMFLEX
+0x00C3		"Ã"		# LATIN CAPITAL LETTER A WITH TILDE
+0x00C4		"Ä"		# LATIN CAPITAL LETTER A WITH DIAERESIS
+0x00C5		"Å"		# LATIN CAPITAL LETTER A WITH RING ABOVE
+0x00C6		"Æ"		# LATIN CAPITAL LETTER AE
+0x00C7		"Ç"		# LATIN CAPITAL LETTER C WITH CEDILLA
+0x00C8		"È"		# LATIN CAPITAL LETTER E WITH GRAVE
+0x00C9		"É"		# LATIN CAPITAL LETTER E WITH ACUTE
+0x00CA		"Ê"		# LATIN CAPITAL LETTER E WITH CIRCUMFLEX
+0x00CB		"Ë"		# LATIN CAPITAL LETTER E WITH DIAERESIS
+0x00CC		"Ì"		# LATIN CAPITAL LETTER I WITH GRAVE
+0x00CD		"Í"		# LATIN CAPITAL LETTER I WITH ACUTE
+0x00CE		"Î"		# LATIN CAPITAL LETTER I WITH CIRCUMFLEX
+0x00CF		"Ï"		# LATIN CAPITAL LETTER I WITH DIAERESIS
 
-0x00D0		"\u00D0"	# LATIN CAPITAL LETTER ETH (Icelandic)
-0x00D1		"\u00D1"	# LATIN CAPITAL LETTER N WITH TILDE
-0x00D2		"\u00D2"	# LATIN CAPITAL LETTER O WITH GRAVE
-0x00D3		"\u00D3"	# LATIN CAPITAL LETTER O WITH ACUTE
-0x00D4		"\u00D4"	# LATIN CAPITAL LETTER O WITH CIRCUMFLEX
-0x00D5		"\u00D5"	# LATIN CAPITAL LETTER O WITH TILDE
-0x00D6		"\u00D6"	# LATIN CAPITAL LETTER O WITH DIAERESIS
-0x00D7		"\u00D7"	# MULTIPLICATION SIGN
-0x00D8		"\u00D8"	# LATIN CAPITAL LETTER O WITH STROKE
-0x00D9		"\u00D9"	# LATIN CAPITAL LETTER U WITH GRAVE
-0x00DA		"\u00DA"	# LATIN CAPITAL LETTER U WITH ACUTE
-0x00DB		"\u00DB"	# LATIN CAPITAL LETTER U WITH CIRCUMFLEX
-0x00DC		"\u00DC"	# LATIN CAPITAL LETTER U WITH DIAERESIS
-0x00DD		"\u00DD"	# LATIN CAPITAL LETTER Y WITH ACUTE
-0x00DE		"\u00DE"	# LATIN CAPITAL LETTER THORN (Icelandic)
-0x00DF		"\u00DF"	# LATIN SMALL LETTER SHARP S (German)
+0x00D0		"Ð"		# LATIN CAPITAL LETTER ETH (Icelandic)
+0x00D1		"Ñ"		# LATIN CAPITAL LETTER N WITH TILDE
+0x00D2		"Ò"		# LATIN CAPITAL LETTER O WITH GRAVE
+0x00D3		"Ó"		# LATIN CAPITAL LETTER O WITH ACUTE
+0x00D4		"Ô"		# LATIN CAPITAL LETTER O WITH CIRCUMFLEX
+0x00D5		"Õ"		# LATIN CAPITAL LETTER O WITH TILDE
+0x00D6		"Ö"		# LATIN CAPITAL LETTER O WITH DIAERESIS
+0x00D7		"×"		# MULTIPLICATION SIGN
+0x00D8		"Ø"		# LATIN CAPITAL LETTER O WITH STROKE
+0x00D9		"Ù"		# LATIN CAPITAL LETTER U WITH GRAVE
+0x00DA		"Ú"		# LATIN CAPITAL LETTER U WITH ACUTE
+0x00DB		"Û"		# LATIN CAPITAL LETTER U WITH CIRCUMFLEX
+0x00DC		"Ü"		# LATIN CAPITAL LETTER U WITH DIAERESIS
+0x00DD		"Ý"		# LATIN CAPITAL LETTER Y WITH ACUTE
+0x00DE		"Þ"		# LATIN CAPITAL LETTER THORN (Icelandic)
+0x00DF		"ß"		# LATIN SMALL LETTER SHARP S (German)
 
-0x00E0		"\u00E0"	# LATIN SMALL LETTER A WITH GRAVE
-0x00E1		"\u00E1"	# LATIN SMALL LETTER A WITH ACUTE
-0x00E2		"\u00E2"	# LATIN SMALL LETTER A WITH CIRCUMFLEX
-0x00E3		"\u00E3"	# LATIN SMALL LETTER A WITH TILDE
-0x00E4		"\u00E4"	# LATIN SMALL LETTER A WITH DIAERESIS
-0x00E5		"\u00E5"	# LATIN SMALL LETTER A WITH RING ABOVE
-0x00E6		"\u00E6"	# LATIN SMALL LETTER AE
-0x00E7		"\u00E7"	# LATIN SMALL LETTER C WITH CEDILLA
-0x00E8		"\u00E8"	# LATIN SMALL LETTER E WITH GRAVE
-0x00E9		"\u00E9"	# LATIN SMALL LETTER E WITH ACUTE
-0x00EA		"\u00EA"	# LATIN SMALL LETTER E WITH CIRCUMFLEX
-0x00EB		"\u00EB"	# LATIN SMALL LETTER E WITH DIAERESIS
-0x00EC		"\u00EC"	# LATIN SMALL LETTER I WITH GRAVE
-0x00ED		"\u00ED"	# LATIN SMALL LETTER I WITH ACUTE
-0x00EE		"\u00EE"	# LATIN SMALL LETTER I WITH CIRCUMFLEX
-0x00EF		"\u00EF"	# LATIN SMALL LETTER I WITH DIAERESIS
+0x00E0		"à"		# LATIN SMALL LETTER A WITH GRAVE
+0x00E1		"á"		# LATIN SMALL LETTER A WITH ACUTE
+0x00E2		"â"		# LATIN SMALL LETTER A WITH CIRCUMFLEX
+0x00E3		"ã"		# LATIN SMALL LETTER A WITH TILDE
+0x00E4		"ä"		# LATIN SMALL LETTER A WITH DIAERESIS
+0x00E5		"å"		# LATIN SMALL LETTER A WITH RING ABOVE
+0x00E6		"æ"		# LATIN SMALL LETTER AE
+0x00E7		"ç"		# LATIN SMALL LETTER C WITH CEDILLA
+0x00E8		"è"		# LATIN SMALL LETTER E WITH GRAVE
+0x00E9		"é"		# LATIN SMALL LETTER E WITH ACUTE
+0x00EA		"ê"		# LATIN SMALL LETTER E WITH CIRCUMFLEX
+0x00EB		"ë"		# LATIN SMALL LETTER E WITH DIAERESIS
+0x00EC		"ì"		# LATIN SMALL LETTER I WITH GRAVE
+0x00ED		"í"		# LATIN SMALL LETTER I WITH ACUTE
+0x00EE		"î"		# LATIN SMALL LETTER I WITH CIRCUMFLEX
+0x00EF		"ï"		# LATIN SMALL LETTER I WITH DIAERESIS
 
-0x00F0		"\u00F0"	# LATIN SMALL LETTER ETH (Icelandic)
-0x00F1		"\u00F1"	# LATIN SMALL LETTER N WITH TILDE
-0x00F2		"\u00F2"	# LATIN SMALL LETTER O WITH GRAVE
-0x00F3		"\u00F3"	# LATIN SMALL LETTER O WITH ACUTE
-0x00F4		"\u00F4"	# LATIN SMALL LETTER O WITH CIRCUMFLEX
-0x00F5		"\u00F5"	# LATIN SMALL LETTER O WITH TILDE
-0x00F6		"\u00F6"	# LATIN SMALL LETTER O WITH DIAERESIS
-0x00F7		"\u00F7"	# DIVISION SIGN
-0x00F8		"\u00F8"	# LATIN SMALL LETTER O WITH STROKE
-0x00F9		"\u00F9"	# LATIN SMALL LETTER U WITH GRAVE
-0x00FA		"\u00FA"	# LATIN SMALL LETTER U WITH ACUTE
-0x00FB		"\u00FB"	# LATIN SMALL LETTER U WITH CIRCUMFLEX
-0x00FC		"\u00FC"	# LATIN SMALL LETTER U WITH DIAERESIS
-0x00FD		"\u00FD"	# LATIN SMALL LETTER Y WITH ACUTE
-0x00FE		"\u00FE"	# LATIN SMALL LETTER THORN (Icelandic)
-0x00FF		"\u00FF"	# LATIN SMALL LETTER Y WITH DIAERESIS
+0x00F0		"ð"		# LATIN SMALL LETTER ETH (Icelandic)
+0x00F1		"ñ"		# LATIN SMALL LETTER N WITH TILDE
+0x00F2		"ò"		# LATIN SMALL LETTER O WITH GRAVE
+0x00F3		"ó"		# LATIN SMALL LETTER O WITH ACUTE
+0x00F4		"ô"		# LATIN SMALL LETTER O WITH CIRCUMFLEX
+0x00F5		"õ"		# LATIN SMALL LETTER O WITH TILDE
+0x00F6		"ö"		# LATIN SMALL LETTER O WITH DIAERESIS
+0x00F7		"÷"		# DIVISION SIGN
+0x00F8		"ø"		# LATIN SMALL LETTER O WITH STROKE
+0x00F9		"ù"		# LATIN SMALL LETTER U WITH GRAVE
+0x00FA		"ú"		# LATIN SMALL LETTER U WITH ACUTE
+0x00FB		"û"		# LATIN SMALL LETTER U WITH CIRCUMFLEX
+0x00FC		"ü"		# LATIN SMALL LETTER U WITH DIAERESIS
+0x00FD		"ý"		# LATIN SMALL LETTER Y WITH ACUTE
+0x00FE		"þ"		# LATIN SMALL LETTER THORN (Icelandic)
+0x00FF		"ÿ"		# LATIN SMALL LETTER Y WITH DIAERESIS
 
 end
-- 
2.43.0


From 89b7bb1d1af94591d54ec9d7be585367f9ac6b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:11 +0000
Subject: [PATCH 10/20] fix: don't access memory beyond a quoted string that
 contains a NUL

The string was copied up to the NUL, and then accessed at the position of the
closing quote.
---
 src/config_file_lex.c | 6 +++---
 src/config_file_lex.l | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/config_file_lex.c b/src/config_file_lex.c
index b3f4c70..90f9099 100644
--- a/src/config_file_lex.c
+++ b/src/config_file_lex.c
@@ -933,12 +933,12 @@ case 19:
 YY_RULE_SETUP
 #line 45 "config_file_lex.l"
 {
-    yylval.string = strdup(yytext+1);
-    if (yylval.string[yyleng-2] != '"') {
+    if (yytext[yyleng-1] != '"') {
         printf("Unterminated character string\n");
+        yylval.string = strdup(yytext+1);
     }
     else {
-        yylval.string[yyleng-2] = '\0';
+        yylval.string = strndup(yytext+1, yyleng-2);
     }
     return QSTRING;
 }
diff --git a/src/config_file_lex.l b/src/config_file_lex.l
index f38ed29..13c0a75 100644
--- a/src/config_file_lex.l
+++ b/src/config_file_lex.l
@@ -43,12 +43,12 @@ wipeup             { return WIPEUP; }
 [}]     { return CLOSE; }
 
 \"[^\"\n]*[\"\n] {
-    yylval.string = strdup(yytext+1);
-    if (yylval.string[yyleng-2] != '"') {
+    if (yytext[yyleng-1] != '"') {
         printf("Unterminated character string\n");
+        yylval.string = strdup(yytext+1);
     }
     else {
-        yylval.string[yyleng-2] = '\0';
+        yylval.string = strndup(yytext+1, yyleng-2);
     }
     return QSTRING;
 }
-- 
2.43.0


From 0b8c1aa0d2f429f505ed8b75f1503491d2974d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:29 +0000
Subject: [PATCH 11/20] fix: escape defaults and backslashes when generating a
 builtin table

A default with a quote or backslash gave a wrong or broken C string, and a
translation with a literal \u became a different character than in the file.
---
 src/generate_builtin_table.c | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/generate_builtin_table.c b/src/generate_builtin_table.c
index dcb03e2..4836169 100644
--- a/src/generate_builtin_table.c
+++ b/src/generate_builtin_table.c
@@ -36,15 +36,8 @@ static char *escape_string(char *in)
     while (*in != '\0') {
         switch (*in) {
             case '"':
-                *work++ = '\\';
-                *work++ = *in++;
-                break;
-
             case '\\':
-                // leave \u and \U alone
-                if (*(in + 1) != 'u' && *(in + 1) != 'U') {
-                    *work++ = '\\';
-                }
+                *work++ = '\\';
                 *work++ = *in++;
                 break;
 
@@ -131,7 +124,7 @@ static void generate_loader(char *filename)
     } else {
         printf(
             "    .default_translation = \"%s\",\n",
-            table->default_translation
+            escape_string(table->default_translation)
         );
     }
 
-- 
2.43.0


From 7e7e318e3954196a7402ea0b240ae02d7d1b930e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:36 +0000
Subject: [PATCH 12/20] fix: report an unusable table instead of crashing in
 generate-builtin-table

---
 src/generate_builtin_table.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/generate_builtin_table.c b/src/generate_builtin_table.c
index 4836169..f400bf4 100644
--- a/src/generate_builtin_table.c
+++ b/src/generate_builtin_table.c
@@ -58,6 +58,10 @@ static void generate_loader(char *filename)
     int i;
 
     hold_table = parse_table(filename);
+    if (hold_table == NULL) {
+        fprintf(stderr, "unable to parse file: \"%s\"\n", filename);
+        exit(EXIT_FAILURE);
+    }
 
     table = table_resize(hold_table, hold_table->max_key + 1, 1);
 
-- 
2.43.0


From 3899c0a153453c9cf99fbaaef2d0cc8e806fe133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:35 +0000
Subject: [PATCH 13/20] fix: don't write control characters as \x escapes that
 absorb following digits

---
 src/escape_utf_8.c | 54 +++++++++++++++++++++++-----------------------
 table/c_escape.tbl | 50 +++++++++++++++++++++---------------------
 2 files changed, 52 insertions(+), 52 deletions(-)

diff --git a/src/escape_utf_8.c b/src/escape_utf_8.c
index 74f92a9..448c80b 100644
--- a/src/escape_utf_8.c
+++ b/src/escape_utf_8.c
@@ -28,12 +28,12 @@
  * Generated from c_escape.tbl
  */
 static table_row_t builtin_c_escape_rows[36] = {
-    { .key  = 0x0001, .data = "\\x01" },
-    { .key  = 0x0002, .data = "\\x02" },
-    { .key  = 0x0003, .data = "\\x03" },
-    { .key  = 0x0004, .data = "\\x04" },
-    { .key  = 0x0005, .data = "\\x05" },
-    { .key  = 0x0006, .data = "\\x06" },
+    { .key  = 0x0001, .data = "\\001" },
+    { .key  = 0x0002, .data = "\\002" },
+    { .key  = 0x0003, .data = "\\003" },
+    { .key  = 0x0004, .data = "\\004" },
+    { .key  = 0x0005, .data = "\\005" },
+    { .key  = 0x0006, .data = "\\006" },
     { .key  = 0x0007, .data = "\\a" },
     { .key  = 0x0008, .data = "\\b" },
     { .key  = 0x0009, .data = "\\t" },
@@ -41,29 +41,29 @@ static table_row_t builtin_c_escape_rows[36] = {
     { .key  = 0x000b, .data = "\\v" },
     { .key  = 0x000c, .data = "\\f" },
     { .key  = 0x000d, .data = "\\r" },
-    { .key  = 0x000e, .data = "\\x0e" },
-    { .key  = 0x000f, .data = "\\x0f" },
-    { .key  = 0x0010, .data = "\\x10" },
-    { .key  = 0x0011, .data = "\\x11" },
-    { .key  = 0x0012, .data = "\\x12" },
-    { .key  = 0x0013, .data = "\\x13" },
-    { .key  = 0x0014, .data = "\\x14" },
-    { .key  = 0x0015, .data = "\\x15" },
-    { .key  = 0x0016, .data = "\\x16" },
-    { .key  = 0x0017, .data = "\\x17" },
-    { .key  = 0x0018, .data = "\\x18" },
-    { .key  = 0x0019, .data = "\\x19" },
-    { .key  = 0x001a, .data = "\\x1a" },
-    { .key  = 0x001b, .data = "\\x1b" },
-    { .key  = 0x001c, .data = "\\x1c" },
-    { .key  = 0x001d, .data = "\\x1d" },
-    { .key  = 0x001e, .data = "\\x1e" },
-    { .key  = 0x001f, .data = "\\x1f" },
+    { .key  = 0x000e, .data = "\\016" },
+    { .key  = 0x000f, .data = "\\017" },
+    { .key  = 0x0010, .data = "\\020" },
+    { .key  = 0x0011, .data = "\\021" },
+    { .key  = 0x0012, .data = "\\022" },
+    { .key  = 0x0013, .data = "\\023" },
+    { .key  = 0x0014, .data = "\\024" },
+    { .key  = 0x0015, .data = "\\025" },
+    { .key  = 0x0016, .data = "\\026" },
+    { .key  = 0x0017, .data = "\\027" },
+    { .key  = 0x0018, .data = "\\030" },
+    { .key  = 0x0019, .data = "\\031" },
+    { .key  = 0x001a, .data = "\\032" },
+    { .key  = 0x001b, .data = "\\033" },
+    { .key  = 0x001c, .data = "\\034" },
+    { .key  = 0x001d, .data = "\\035" },
+    { .key  = 0x001e, .data = "\\036" },
+    { .key  = 0x001f, .data = "\\037" },
     { .key  = 0x0022, .data = "\\\"" },
     { .key  = 0x0027, .data = "\\'" },
     { .key  = 0x003f, .data = "\\?" },
     { .key  = 0x005c, .data = "\\\\" },
-    { .key  = 0x007f, .data = "\\x7f" },
+    { .key  = 0x007f, .data = "\\177" },
 };
 
 static table_t builtin_c_escape_table = {
@@ -85,8 +85,8 @@ static table_t builtin_c_escape_table = {
  * Generates a translation table that escapes everything not between 0x20 and
  * 0x7E (inclusive).
  *
- * For characters 0x01-0x1F and 0x7F, a \x escape sequence is used.  This could
- * be improved, e.g. use \n instead of \x0A and \t instead of \x09.
+ * For characters 0x01-0x1F and 0x7F, a named or octal escape sequence is used,
+ * because a \x escape sequence would absorb hexadecimal digits following it.
  *
  * For characters 0x80-
  */
diff --git a/table/c_escape.tbl b/table/c_escape.tbl
index 7da0d85..6254dc6 100644
--- a/table/c_escape.tbl
+++ b/table/c_escape.tbl
@@ -12,12 +12,12 @@
 
 start
 
-0x01		\x01	#  SOH (start of heading)
-0x02		\x02	#  STX (start of text)
-0x03		\x03	#  ETX (end of text)
-0x04		\x04	#  EOT (end of transmission)
-0x05		\x05	#  ENQ (enquiry)
-0x06		\x06	#  ACK (acknowledge)
+0x01		\001	#  SOH (start of heading)
+0x02		\002	#  STX (start of text)
+0x03		\003	#  ETX (end of text)
+0x04		\004	#  EOT (end of transmission)
+0x05		\005	#  ENQ (enquiry)
+0x06		\006	#  ACK (acknowledge)
 0x07		\a	#  BEL '\a' (bell)
 0x08		\b	#  BS  '\b' (backspace)
 0x09		\t	#  HT  '\t' (horizontal tab)
@@ -25,24 +25,24 @@ start
 0x0b		\v	#  VT  '\v' (vertical tab)
 0x0c		\f	#  FF  '\f' (form feed)
 0x0d		\r	#  CR  '\r' (carriage ret)
-0x0e		\x0e	#  SO  (shift out)
-0x0f		\x0f	#  SI  (shift in)
-0x10		\x10	#  DLE (data link escape)
-0x11		\x11	#  DC1 (device control 1)
-0x12		\x12	#  DC2 (device control 2)
-0x13		\x13	#  DC3 (device control 3)
-0x14		\x14	#  DC4 (device control 4)
-0x15		\x15	#  NAK (negative ack.)
-0x16		\x16	#  SYN (synchronous idle)
-0x17		\x17	#  ETB (end of trans. blk)
-0x18		\x18	#  CAN (cancel)
-0x19		\x19	#  EM  (end of medium)
-0x1a		\x1a	#  SUB (substitute)
-0x1b		\x1b	#  ESC (escape)
-0x1c		\x1c	#  FS  (file separator)
-0x1d		\x1d	#  GS  (group separator)
-0x1e		\x1e	#  RS  (record separator)
-0x1f		\x1f	#  US  (unit separator)
+0x0e		\016	#  SO  (shift out)
+0x0f		\017	#  SI  (shift in)
+0x10		\020	#  DLE (data link escape)
+0x11		\021	#  DC1 (device control 1)
+0x12		\022	#  DC2 (device control 2)
+0x13		\023	#  DC3 (device control 3)
+0x14		\024	#  DC4 (device control 4)
+0x15		\025	#  NAK (negative ack.)
+0x16		\026	#  SYN (synchronous idle)
+0x17		\027	#  ETB (end of trans. blk)
+0x18		\030	#  CAN (cancel)
+0x19		\031	#  EM  (end of medium)
+0x1a		\032	#  SUB (substitute)
+0x1b		\033	#  ESC (escape)
+0x1c		\034	#  FS  (file separator)
+0x1d		\035	#  GS  (group separator)
+0x1e		\036	#  RS  (record separator)
+0x1f		\037	#  US  (unit separator)
 
 0x22		'\"'	# "
 
@@ -52,6 +52,6 @@ start
 
 0x5c		\\	# \
 
-0x7f		\x7f	#  DEL
+0x7f		\177	#  DEL
 
 end
-- 
2.43.0


From 47a7feaefa4ca309e88a7713815a6288c0581fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:21 +0000
Subject: [PATCH 14/20] fix: escape line ends when generating a builtin table

---
 src/generate_builtin_table.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/generate_builtin_table.c b/src/generate_builtin_table.c
index f400bf4..f32b5f4 100644
--- a/src/generate_builtin_table.c
+++ b/src/generate_builtin_table.c
@@ -41,6 +41,12 @@ static char *escape_string(char *in)
                 *work++ = *in++;
                 break;
 
+            case '\n':
+            case '\r':
+                *work++ = '\\';
+                *work++ = (*in++ == '\n') ? 'n' : 'r';
+                break;
+
             default:
                 *work++ = *in++;
                 break;
-- 
2.43.0


From e1ec35579dcffc4ae0225b17fe0606d662d67422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:31 +0000
Subject: [PATCH 15/20] fix: report a directory listing that breaks off instead
 of taking it for complete

---
 src/file.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/file.c b/src/file.c
index c6056cd..64aee3c 100644
--- a/src/file.c
+++ b/src/file.c
@@ -221,7 +221,7 @@ void parse_dir(char *filename, options_t *options)
      */
     entries = filelist_init();
 
-    while ((dir_entry = readdir(dir_handle)) != NULL) {
+    while ((errno = 0, dir_entry = readdir(dir_handle)) != NULL) {
 
         /*
          * Check for files that need to be ignored
@@ -231,6 +231,10 @@ void parse_dir(char *filename, options_t *options)
         }
     }
 
+    if (errno != 0) {
+        fprintf(stderr, "unable to parse: %s\n", strerror(errno));
+    }
+
     closedir(dir_handle);
 
     while ((file_walk = filelist_get(entries))) {
-- 
2.43.0


From d809a3819ad634478f1c5fb6bfa7fd05ace235fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:42 +0000
Subject: [PATCH 16/20] fix: report input that can't be read in inline mode
 instead of taking it for the end

---
 src/file.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/file.c b/src/file.c
index 64aee3c..2d8fbab 100644
--- a/src/file.c
+++ b/src/file.c
@@ -448,6 +448,10 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
         }
     }
 
+    if (ferror(in_fp)) {
+        fprintf(stderr, "%s: %s\n", (in_filename != NULL) ? in_filename : "stdin", strerror(errno));
+    }
+
     if (in_filename != NULL) {
         fclose(in_fp);
     }
-- 
2.43.0


From 87942b0ec2e6bfcadff637a2e71cab71b721e0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:50 +0000
Subject: [PATCH 17/20] fix: refuse a translation table that can't be read to
 its end

---
 src/parse_table.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parse_table.c b/src/parse_table.c
index 83b07ed..61eab74 100644
--- a/src/parse_table.c
+++ b/src/parse_table.c
@@ -200,6 +200,14 @@ table_t *parse_table(char *filename)
 
     free(work);
     free(parsed);
+
+    if (ferror(table_file)) {
+        fprintf(stderr, "Unable to read translation table: %s\n", strerror(errno));
+        table_free(table);
+        fclose(table_file);
+        return NULL;
+    }
+
     fclose(table_file);
 
     return table;
-- 
2.43.0


From 7917696caacbe41f229ab055f2670dc64832f3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:57 +0000
Subject: [PATCH 18/20] fix: report output that can't be written, and exit with
 failure

---
 src/detox.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/detox.c b/src/detox.c
index 111ad8e..b3d562a 100644
--- a/src/detox.c
+++ b/src/detox.c
@@ -12,6 +12,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <errno.h>
+#include <unistd.h>
 
 #include "detox_struct.h"
 
@@ -22,6 +23,17 @@
 #include "parse_options.h"
 #include "sequence.h"
 
+/**
+ * Makes sure that everything written to STDOUT has got there.
+ */
+static void close_stdout(void)
+{
+    if (fflush(stdout) == EOF || ferror(stdout)) {
+        fprintf(stderr, "detox: unable to write output: %s\n", strerror(errno));
+        _exit(EXIT_FAILURE);
+    }
+}
+
 int main(int argc, char **argv)
 {
     struct stat stat_info;
@@ -33,6 +45,8 @@ int main(int argc, char **argv)
     char *file_work = NULL;
     char *file_walk;
 
+    atexit(close_stdout);
+
     main_options = parse_options_getopt(argc, argv);
 
     if (main_options == NULL) {
-- 
2.43.0


From c43b0e916dd2b2868516aef3d4cb7833e79d7361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:44 +0000
Subject: [PATCH 19/20] fix: report a directory entry that can't be examined
 instead of skipping it silently

---
 src/file.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/file.c b/src/file.c
index 2d8fbab..39897ad 100644
--- a/src/file.c
+++ b/src/file.c
@@ -242,6 +242,9 @@ void parse_dir(char *filename, options_t *options)
 
         err = lstat(new_file, &stat_info);
         if (err == -1) {
+            if (errno != ENOENT) {
+                fprintf(stderr, "%s: %s\n", new_file, strerror(errno));
+            }
             continue;
         }
 
-- 
2.43.0


From 849f740de5f2e98473de61d08b8fdb054e218def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:17 +0000
Subject: [PATCH 20/20] fix: do not rename onto a name that cannot be examined

If lstat() of the new name failed for any reason, the name was taken to be
free.  When it failed for another reason than that there is no such file (I/O
error, a size that does not fit, access denied), an existing file of that name
was overwritten.
---
 src/file.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/file.c b/src/file.c
index 39897ad..a1f8e0a 100644
--- a/src/file.c
+++ b/src/file.c
@@ -140,6 +140,13 @@ char *parse_file(char *filename, options_t *options)
     }
 
     err = lstat(new_filename, &stat_info_new);
+    if (err == -1 && errno != ENOENT) { // No telling whether it exists
+        fprintf(stderr, "Cannot rename %s to %s: %s\n", old_filename, new_filename, strerror(errno));
+
+        free(new_filename);
+        return old_filename;
+    }
+
     if (err != -1) { // New file exists
         if (stat_info_old.st_dev != stat_info_new.st_dev || // Different device
                 stat_info_old.st_ino != stat_info_new.st_ino || // Different inode
-- 
2.43.0

