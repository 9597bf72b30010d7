From 5d1715f60d53b87aeff277622a909b98117029f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:34 +0000
Subject: [PATCH 01/31] fix: do not skip past an invalid UTF-8 continuation
 byte

A truncated multi-byte sequence was given a length that could still cover
the bytes following the invalid one, including the string terminator, so
case-insensitive comparisons could read beyond the end of the string.
---
 src/utf8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utf8.c b/src/utf8.c
index 6e32218..58e4f27 100644
--- a/src/utf8.c
+++ b/src/utf8.c
@@ -63,7 +63,7 @@ unsigned cyaml_utf8_get_codepoint(
 			if ((s[i] & 0xc0) != 0x80) {
 				/* Need to shorten length so we don't consume
 				 * this byte with this invalid character. */
-				*len -= i;
+				*len = i;
 				goto invalid;
 			}
 
-- 
2.43.0


From a462153285a7125b78aa39c200b6906eeecde6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:35 +0000
Subject: [PATCH 02/31] fix: step over whole inline fixed sequence entries when
 freeing

When the entries of a sequence are themselves non-pointer fixed length
sequences, the distance between entries is the whole inner sequence.
---
 src/free.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/free.c b/src/free.c
index 266cd7b..431a39e 100644
--- a/src/free.c
+++ b/src/free.c
@@ -67,6 +67,8 @@ static void cyaml__free_sequence(
 
 	if (schema->flags & CYAML_FLAG_POINTER) {
 		data_size = sizeof(data);
+	} else if (schema->type == CYAML_SEQUENCE_FIXED) {
+		data_size *= schema->sequence.max;
 	}
 
 	for (unsigned i = 0; i < count; i++) {
-- 
2.43.0


From ca9da8164551fe3dcfe822f309631d8461800909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:35 +0000
Subject: [PATCH 03/31] fix: save negative enum values by name

The stored value needs sign extending before it is compared with the
enumeration's values.
---
 src/save.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/save.c b/src/save.c
index 6fbcfe3..1a80875 100644
--- a/src/save.c
+++ b/src/save.c
@@ -694,6 +694,8 @@ static cyaml_err_t cyaml__write_enum(
 	if (err == CYAML_OK) {
 		const cyaml_strval_t *strings = schema->enumeration.strings;
 		const char *string = NULL;
+
+		number = cyaml_sign_pad((uint64_t)number, schema->data_size);
 		for (uint32_t i = 0; i < schema->enumeration.count; i++) {
 			if (number == strings[i].val) {
 				string = strings[i].str;
-- 
2.43.0


From 093197a0e8e8544e500a11f49ae6375a5f917c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:36 +0000
Subject: [PATCH 04/31] fix: only save flags whose bits are all set in the
 value

A flag with more than one bit was emitted when any of its bits was set, so
loading the saved document gave a value with extra bits set.
---
 src/save.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/save.c b/src/save.c
index 1a80875..fa73636 100644
--- a/src/save.c
+++ b/src/save.c
@@ -813,6 +813,7 @@ static cyaml_err_t cyaml__emit_flags_sequence(
 		const cyaml_schema_value_t *schema,
 		uint64_t number)
 {
+	uint64_t remaining = number;
 	yaml_event_t event;
 	cyaml_err_t err;
 	int ret;
@@ -829,20 +830,20 @@ static cyaml_err_t cyaml__emit_flags_sequence(
 	for (uint32_t i = 0; i < schema->enumeration.count; i++) {
 		const cyaml_strval_t *strval = &schema->enumeration.strings[i];
 		uint64_t flag = (uint64_t)strval->val;
-		if (number & flag) {
+		if ((number & flag) == flag && (remaining & flag) != 0) {
 			err = cyaml__emit_scalar(ctx, schema, strval->str,
 					YAML_STR_TAG);
 			if (err != CYAML_OK) {
 				return err;
 			}
-			number &= ~flag;
+			remaining &= ~flag;
 		}
 	}
-	if (number != 0) {
+	if (remaining != 0) {
 		if (schema->flags & CYAML_FLAG_STRICT) {
 			return CYAML_ERR_INVALID_VALUE;
 		} else {
-			const char *string = cyaml__get_uint(number, false);
+			const char *string = cyaml__get_uint(remaining, false);
 			err = cyaml__emit_scalar(ctx, schema, string,
 					YAML_STR_TAG);
 			if (err != CYAML_OK) {
-- 
2.43.0


From c308cd69d5c140987fdfd7d4b2454f05afc8156d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:36 +0000
Subject: [PATCH 05/31] fix: treat numerical unsigned values as unsigned when
 loading

Negative values were accepted for 64-bit unsigned integers and bitfield
values and wrapped around, while numerical flag values above INT64_MAX,
which are documented as unsigned and which saving may write, were rejected.
---
 src/load.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/load.c b/src/load.c
index b0c8483..1002701 100644
--- a/src/load.c
+++ b/src/load.c
@@ -1892,7 +1892,9 @@ static inline cyaml_err_t cyaml__read_uint64_t(
 	errno = 0;
 	temp = strtoull(value, &end, 0);
 
-	if (end == value || end == NULL || *end != '\0' || errno == ERANGE) {
+	/* Note that strtoull negates values with a minus sign. */
+	if (end == value || end == NULL || *end != '\0' || errno == ERANGE ||
+	    strchr(value, '-') != NULL) {
 		cyaml__log(ctx->config, CYAML_LOG_ERROR,
 				"Load: Invalid uint64_t value: '%s'\n",
 				value);
@@ -2141,16 +2143,12 @@ static cyaml_err_t cyaml__set_flag(
 	}
 
 	if (!(schema->flags & CYAML_FLAG_STRICT)) {
-		long long temp;
-		char *end = NULL;
+		uint64_t temp;
 		uint64_t max = (~(uint64_t)0) >> ((8 - schema->data_size) * 8);
 
-		errno = 0;
-		temp = strtoll(value, &end, 0);
-
-		if (!(end == value || end == NULL || *end != '\0' ||
-		      errno == ERANGE || temp < 0 || (uint64_t)temp > max)) {
-			*flags_out |= ((uint64_t)temp);
+		if (cyaml__read_uint64_t(ctx, value, &temp) == CYAML_OK &&
+		    temp <= max) {
+			*flags_out |= temp;
 			return CYAML_OK;
 		}
 	}
-- 
2.43.0


From c3109f428f5cb7f3d4721a81d7f6c981de9a32aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:36 +0000
Subject: [PATCH 06/31] fix: report bad flags and bitfield sizes in the schema

A data size over eight bytes, or a bitfield value with no bits, gave shifts
by more than the width of the type (undefined behaviour) rather than the
documented errors.
---
 src/load.c | 9 +++++++--
 src/save.c | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/load.c b/src/load.c
index 1002701..068bdcd 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2180,7 +2180,7 @@ static cyaml_err_t cyaml__read_flags_value(
 	cyaml_err_t err = CYAML_OK;
 	const yaml_event_t *const event = cyaml__current_event(ctx);
 
-	if (schema->data_size == 0) {
+	if (schema->data_size == 0 || schema->data_size > sizeof(value)) {
 		return CYAML_ERR_INVALID_DATA_SIZE;
 	}
 
@@ -2239,7 +2239,8 @@ static cyaml_err_t cyaml__get_bitval_index(
 	uint32_t i;
 
 	for (i = 0; i < schema->bitfield.count; i++) {
-		if (bitdef[i].bits + bitdef[i].offset > schema->data_size * 8) {
+		if (bitdef[i].bits == 0 || bitdef[i].bits +
+				bitdef[i].offset > schema->data_size * 8) {
 			return CYAML_ERR_BAD_BITVAL_IN_SCHEMA;
 		}
 		if (cyaml__strcmp(ctx->config, schema,
@@ -2336,6 +2337,10 @@ static cyaml_err_t cyaml__read_bitfield_value(
 	cyaml_err_t err = CYAML_OK;
 	const yaml_event_t *const event = cyaml__current_event(ctx);
 
+	if (schema->data_size > sizeof(value)) {
+		return CYAML_ERR_INVALID_DATA_SIZE;
+	}
+
 	while (!exit) {
 		cyaml_event_t cyaml_event;
 		err = cyaml_get_next_event(ctx);
diff --git a/src/save.c b/src/save.c
index fa73636..f2f21fe 100644
--- a/src/save.c
+++ b/src/save.c
@@ -913,7 +913,8 @@ static cyaml_err_t cyaml__emit_bitfield_mapping(
 		uint64_t value;
 		uint64_t mask;
 
-		if (bitdef[i].bits + bitdef[i].offset > schema->data_size * 8) {
+		if (bitdef[i].bits == 0 || bitdef[i].bits +
+				bitdef[i].offset > schema->data_size * 8) {
 			return CYAML_ERR_BAD_BITVAL_IN_SCHEMA;
 		}
 
-- 
2.43.0


From e0d5efb74bcb4a933d10eeb19bfa3b64bf4f4aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:37 +0000
Subject: [PATCH 07/31] fix: save single precision floats without losing
 precision

Six significant digits are not enough to represent every float.  Use up to
nine, but only as many as are needed to get the same value back.
---
 src/save.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index f2f21fe..05f1cb6 100644
--- a/src/save.c
+++ b/src/save.c
@@ -16,6 +16,8 @@
 #include <stdbool.h>
 #include <assert.h>
 #include <limits.h>
+#include <stdlib.h>
+#include <float.h>
 
 #include <yaml.h>
 
@@ -552,7 +554,13 @@ static const char * cyaml__get_float(
 {
 	static char string[64];
 
-	sprintf(string, "%g", value);
+	/* Use the shortest precision that preserves the value. */
+	for (int i = FLT_DIG; i <= FLT_DECIMAL_DIG; i++) {
+		sprintf(string, "%.*g", i, value);
+		if ((float)strtod(string, NULL) == (float)value) {
+			break;
+		}
+	}
 
 	return string;
 }
-- 
2.43.0


From 4bf6673846d30949cd231a219fdfcb92f0b51c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:21 +0000
Subject: [PATCH 08/31] fix: reject single precision underflow in strict mode

Overflow of a float was checked for separately from the range of a double,
but underflow was not, so values too small for a float became zero.
---
 src/load.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/load.c b/src/load.c
index 068bdcd..db24f9d 100644
--- a/src/load.c
+++ b/src/load.c
@@ -422,6 +422,9 @@ static cyaml_err_t cyaml__store_float(
 			if (value > FLT_MAX || value < -FLT_MAX) {
 				return CYAML_ERR_INVALID_VALUE;
 			}
+			if (value != 0 && value > -FLT_MIN && value < FLT_MIN) {
+				return CYAML_ERR_INVALID_VALUE;
+			}
 		}
 
 		fvalue = (float)value;
-- 
2.43.0


From 0911ea8f77b8790aafa396c4d75d720ccdae2eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:21 +0000
Subject: [PATCH 09/31] fix: reject sequences with more entries than the count
 can hold

The sequence entry count was silently truncated to the size of the client's
count member, losing (and leaking) the entries past the end.
---
 src/load.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/load.c b/src/load.c
index db24f9d..eceef4f 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2824,6 +2824,18 @@ static cyaml_err_t cyaml__seq_entry(
 		return CYAML_ERR_SEQUENCE_ENTRIES_MAX;
 	}
 
+	if (schema->type != CYAML_SEQUENCE_FIXED &&
+	    state->sequence.count_size > 0 &&
+	    state->sequence.count_size < sizeof(state->sequence.count) &&
+	    (state->sequence.count + 1) >>
+			(state->sequence.count_size * CHAR_BIT) != 0) {
+		cyaml__log(ctx->config, CYAML_LOG_ERROR,
+				"Load: Too many entries for sequence count "
+				"(size: %"PRIu8" bytes).\n",
+				state->sequence.count_size);
+		return CYAML_ERR_SEQUENCE_ENTRIES_MAX;
+	}
+
 	err = cyaml__data_handle_pointer(ctx, schema, event, &value_data);
 	if (err != CYAML_OK) {
 		return err;
-- 
2.43.0


From 5e27fcfc1585fce7ad131f4de3d7046bf9be7423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:22 +0000
Subject: [PATCH 10/31] fix: free everything when a sequence's count size is
 bad

The allocation for the sequence was freed where the error was found, while
freeing the mapping stopped at that field, leaking any fields after it.
---
 src/free.c | 2 +-
 src/load.c | 6 ------
 2 files changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/free.c b/src/free.c
index 431a39e..ef9001c 100644
--- a/src/free.c
+++ b/src/free.c
@@ -102,7 +102,7 @@ static void cyaml__free_mapping(
 			count = cyaml_data_read(schema->count_size,
 					data + schema->count_offset, &err);
 			if (err != CYAML_OK) {
-				return;
+				count = 0;
 			}
 		}
 		cyaml__free_value(cfg, &schema->value,
diff --git a/src/load.c b/src/load.c
index eceef4f..441bfb4 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2854,12 +2854,6 @@ static cyaml_err_t cyaml__seq_entry(
 		if (err != CYAML_OK) {
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
 				"Load: Failed writing sequence count\n");
-			if (schema->flags & CYAML_FLAG_POINTER) {
-				cyaml__log(ctx->config, CYAML_LOG_DEBUG,
-						"Load: Freeing %p\n",
-						state->sequence.data);
-				cyaml__free(ctx->config, state->sequence.data);
-			}
 			return err;
 		}
 	}
-- 
2.43.0


From d1ad8ce7a815b1d128f5e23775be0491bff47bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:22 +0000
Subject: [PATCH 11/31] fix: give sequence validation callbacks the sequence
 data

For sequences behind a pointer, the callback got the location of the pointer
to the data instead of the entries it is documented to get, and which it
gets for sequences that are not behind a pointer.
---
 src/load.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/load.c b/src/load.c
index 441bfb4..8873cdc 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2881,6 +2881,8 @@ static cyaml_err_t cyaml__seq_end(
 {
 	const cyaml_state_t *state = ctx->state;
 	const cyaml_schema_value_t *schema = state->schema;
+	const uint8_t *data = (schema->flags & CYAML_FLAG_POINTER) ?
+			state->sequence.data : state->data;
 
 	CYAML_UNUSED(event);
 
@@ -2896,7 +2898,7 @@ static cyaml_err_t cyaml__seq_end(
 	if (schema->sequence.validation_cb != NULL) {
 		if (!schema->sequence.validation_cb(
 				ctx->config->validation_ctx,
-				schema, state->data, state->sequence.count)) {
+				schema, data, state->sequence.count)) {
 			return CYAML_ERR_INVALID_VALUE;
 		}
 	}
-- 
2.43.0


From 054063751831dcd10394ed3d7197fa99849542e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:23 +0000
Subject: [PATCH 12/31] fix: report failure to write out the last of a saved
 file

The file is buffered, so write errors (such as a full disc) may only be found
when the file is closed.  Previously saving reported success.
---
 src/save.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index 05f1cb6..785afcd 100644
--- a/src/save.c
+++ b/src/save.c
@@ -1394,7 +1394,11 @@ cyaml_err_t cyaml_save_file(
 
 	/* Cleanup */
 	yaml_emitter_delete(&emitter);
-	fclose(file);
+	if (fclose(file) != 0) {
+		cyaml__log(config, CYAML_LOG_ERROR,
+				"Save: Failed to write file: %s\n", path);
+		return CYAML_ERR_LIBYAML_EMITTER;
+	}
 
 	return CYAML_OK;
 }
-- 
2.43.0


From 60f798c5b01a75f0a67b64fa08481dced05f4655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:11 +0000
Subject: [PATCH 13/31] fix: do not share number conversion buffers between
 threads

Saving converts numbers to strings in static buffers.  Concurrent saves of
unrelated data could put each other's values in their documents.
---
 src/save.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/save.c b/src/save.c
index 785afcd..6b5e827 100644
--- a/src/save.c
+++ b/src/save.c
@@ -515,7 +515,7 @@ static cyaml_err_t cyaml__emit_scalar(
 static const char * cyaml__get_int(
 		int64_t value)
 {
-	static char string[32];
+	static _Thread_local char string[32];
 
 	sprintf(string, "%"PRIi64, value);
 
@@ -532,7 +532,7 @@ static const char * cyaml__get_int(
 static const char * cyaml__get_uint(
 		uint64_t value, bool hex)
 {
-	static char string[32];
+	static _Thread_local char string[32];
 
 	if (hex) {
 		sprintf(string, "0x%"PRIx64, value);
@@ -552,7 +552,7 @@ static const char * cyaml__get_uint(
 static const char * cyaml__get_float(
 		double value)
 {
-	static char string[64];
+	static _Thread_local char string[64];
 
 	/* Use the shortest precision that preserves the value. */
 	for (int i = FLT_DIG; i <= FLT_DECIMAL_DIG; i++) {
@@ -574,7 +574,7 @@ static const char * cyaml__get_float(
 static const char * cyaml__get_double(
 		double value)
 {
-	static char string[64];
+	static _Thread_local char string[64];
 
 	sprintf(string, "%.16e", value);
 
-- 
2.43.0


From beffda0bc6e832ba10c5457133af97205f4f8887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:26 +0000
Subject: [PATCH 14/31] fix: copy whole of inline sequences of pointers or
 sequences

The size of a sequence was calculated from the size of the values its entries
point to, rather than that of the pointers.  Similarly, for entries that are
fixed length sequences, the size of only one of their entries was used.
---
 src/copy.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/copy.c b/src/copy.c
index 64176aa..1218cf1 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -647,9 +647,15 @@ static size_t cyaml__get_data_len(
 		const cyaml_schema_value_t *schema,
 		unsigned seq_count)
 {
-	size_t len = cyaml__is_sequence(schema) ?
-			schema->sequence.entry->data_size :
-			schema->data_size;
+	size_t len = schema->data_size;
+
+	if (cyaml__is_sequence(schema)) {
+		const cyaml_schema_value_t *entry = schema->sequence.entry;
+
+		len = (entry->flags & CYAML_FLAG_POINTER) ?
+				sizeof(void *) :
+				cyaml__get_data_len(entry, 0);
+	}
 
 	if (schema->type == CYAML_SEQUENCE) {
 		len *= seq_count;
-- 
2.43.0


From 2b947a38f24e4f4b0f166273407da90bd6222ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:27 +0000
Subject: [PATCH 15/31] fix: copy NULL values and empty sequences

Copying failed for documents with a NULL pointer in a sequence or in a
required mapping field, even though the schema allows it, and for empty
sequences, which loading represents as NULL with a count of zero.  For an
optional sequence that is NULL, it left the state for the sequence behind.
---
 src/copy.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/copy.c b/src/copy.c
index 1218cf1..56f8bb3 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -246,8 +246,17 @@ static cyaml_err_t cyaml__data_handle_pointer(
 		size_t delta = schema->data_size;
 		uint8_t *value_copy = NULL;
 
-		if (*value_data_io == NULL) {
-			return CYAML_ERR_BAD_PARAM_NULL_DATA;
+		bool empty = cyaml__is_sequence(schema) &&
+				state->sequence.count == 0;
+
+		/* The copy's pointers are all initially NULL, so there's
+		 * nothing to do for NULL values and empty sequences. */
+		if (empty || *value_data_io == NULL) {
+			*value_data_io = NULL;
+			return (empty || cyaml__flag_check_all(schema->flags,
+					CYAML_FLAG_POINTER_NULL)) ?
+					CYAML_OK :
+					CYAML_ERR_BAD_PARAM_NULL_DATA;
 		}
 
 		switch (schema->type) {
@@ -426,7 +435,7 @@ static cyaml_err_t cyaml__clone_value(
 		 * they're handled in the sequence-specific code.
 		 */
 		err = cyaml__data_handle_pointer(ctx, schema, &data, &copy);
-		if (err != CYAML_OK) {
+		if (err != CYAML_OK || data == NULL) {
 			return err;
 		}
 	}
@@ -457,7 +466,8 @@ static cyaml_err_t cyaml__clone_value(
 		}
 		ctx->state->sequence.count = seq_count;
 		err = cyaml__data_handle_pointer(ctx, schema, &data, &copy);
-		if (err != CYAML_OK) {
+		if (err != CYAML_OK || data == NULL) {
+			cyaml__stack_pop(ctx);
 			return err;
 		}
 		err = cyaml__write_sequence_count(ctx, schema, seq_count);
-- 
2.43.0


From f7aa0484769aadb58395f6d9ff6a496cc2bf6565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:27 +0000
Subject: [PATCH 16/31] fix: copy NULL document if all top level fields are
 optional

Loading gives NULL when the top level mapping has only optional fields and
the document sets none of them, and copying documents that it allows this.
---
 src/copy.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/copy.c b/src/copy.c
index 56f8bb3..d759add 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -492,7 +492,23 @@ static cyaml_err_t cyaml__clone_start(
 		cyaml_ctx_t *ctx)
 {
 	cyaml_state_t *state = ctx->state;
-	return cyaml__clone_value(ctx, state->schema,
+	const cyaml_schema_value_t *schema = state->schema;
+
+	if (schema->type == CYAML_MAPPING &&
+	    (schema->flags & CYAML_FLAG_POINTER) &&
+	    cyaml_data_read_pointer(state->data) == NULL) {
+		const cyaml_schema_field_t *field = schema->mapping.fields;
+
+		while (field->key != NULL &&
+		       (field->value.flags & CYAML_FLAG_OPTIONAL)) {
+			field++;
+		}
+		if (field->key == NULL) {
+			return CYAML_OK;
+		}
+	}
+
+	return cyaml__clone_value(ctx, schema,
 			state->data, ctx->seq_count, state->copy);
 }
 
-- 
2.43.0


From 875839198d99778f2983a9fe43c6bde6a9c2c813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:28 +0000
Subject: [PATCH 17/31] fix: save empty sequences

Loading an empty sequence for a sequence behind a pointer gives NULL and a
count of zero, which could not be saved unless the field was optional.
---
 src/save.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index 6b5e827..d81065a 100644
--- a/src/save.c
+++ b/src/save.c
@@ -1006,7 +1006,9 @@ static cyaml_err_t cyaml__write_value(
 	data = cyaml_data_save_handle_pointer(ctx->config, schema,
 			data, "Save");
 
-	if (data == NULL) {
+	if (data == NULL && !(schema->type == CYAML_SEQUENCE &&
+			seq_count == 0 && !cyaml__flag_check_all(
+				schema->flags, CYAML_FLAG_POINTER_NULL))) {
 		if (cyaml__flag_check_all(schema->flags,
 				CYAML_FLAG_POINTER_NULL_STR)) {
 			return cyaml__emit_scalar(ctx, schema, "null",
-- 
2.43.0


From 61b1cd27724df2b754072368aa3515c356c1be49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:28 +0000
Subject: [PATCH 18/31] fix: name the right field and entry in backtraces

Save and copy backtraces named the field after the one with the problem (or
printed the NULL key of the end marker), and gave a sequence's length instead
of the entry.  Load backtraces named the first field of a mapping in which no
field had been seen yet.
---
 src/copy.c | 11 +++++++++--
 src/load.c |  1 +
 src/save.c | 13 ++++++++++---
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/copy.c b/src/copy.c
index d759add..851aa47 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -316,14 +316,21 @@ static void cyaml__backtrace(
 		case CYAML_STATE_IN_MAP_KEY: /* Fall through. */
 		case CYAML_STATE_IN_MAP_VALUE:
 			assert(state->mapping.field != NULL);
+			if (state->mapping.field ==
+					state->schema->mapping.fields) {
+				cyaml__log(ctx->config, CYAML_LOG_ERROR,
+						"  in mapping\n");
+				break;
+			}
+			/* Fields are advanced before their value is copied. */
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
 					"  in mapping field: %s\n",
-					state->mapping.field->key);
+					state->mapping.field[-1].key);
 			break;
 		case CYAML_STATE_IN_SEQUENCE:
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
 					"  in sequence entry: %"PRIu64"\n",
-					state->sequence.count);
+					state->sequence.entry);
 			break;
 		default:
 			break;
diff --git a/src/load.c b/src/load.c
index 8873cdc..d713aba 100644
--- a/src/load.c
+++ b/src/load.c
@@ -1575,6 +1575,7 @@ static cyaml_err_t cyaml__stack_push(
 	case CYAML_STATE_IN_MAP_KEY:
 		assert(schema->type == CYAML_MAPPING);
 		s.mapping.fields = schema->mapping.fields;
+		s.mapping.fields_idx = CYAML_FIELDS_IDX_NONE;
 		s.mapping.fields_count = cyaml__get_mapping_field_count(
 				schema->mapping.fields);
 		err = cyaml__mapping_bitfieid_create(ctx, &s);
diff --git a/src/save.c b/src/save.c
index d81065a..3843834 100644
--- a/src/save.c
+++ b/src/save.c
@@ -454,14 +454,21 @@ static void cyaml__backtrace(
 		case CYAML_STATE_IN_MAP_KEY: /* Fall through. */
 		case CYAML_STATE_IN_MAP_VALUE:
 			assert(state->mapping.field != NULL);
+			if (state->mapping.field ==
+					state->schema->mapping.fields) {
+				cyaml__log(ctx->config, CYAML_LOG_ERROR,
+						"  in mapping\n");
+				break;
+			}
+			/* Fields are advanced before their value is written. */
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
 					"  in mapping field: %s\n",
-					state->mapping.field->key);
+					state->mapping.field[-1].key);
 			break;
 		case CYAML_STATE_IN_SEQUENCE:
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
-					"  in sequence entry: %"PRIu32"\n",
-					state->sequence.count);
+					"  in sequence entry: %"PRIu64"\n",
+					state->sequence.entry);
 			break;
 		default:
 			/** \todo \ref CYAML_STATE_IN_DOC handling for multi
-- 
2.43.0


From 48a545ec5b7c038c533d14fb9044f257429ed3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:29 +0000
Subject: [PATCH 19/31] fix: reject empty streams if the schema requires a
 document

Loading a stream with no document reported success, and gave NULL, even if
the schema had required mapping fields or sequence entries.
---
 src/load.c | 50 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/src/load.c b/src/load.c
index d713aba..99d3a00 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2590,6 +2590,47 @@ static cyaml_err_t cyaml__doc_start(
 			ctx->state->schema, ctx->state->data);
 }
 
+/**
+ * Check whether the schema allows for there being no document at all.
+ *
+ * \param[in]  ctx     The CYAML loading context.
+ * \param[in]  schema  The schema for the document's root value.
+ * \return \ref CYAML_OK on success, or appropriate error code otherwise.
+ */
+static cyaml_err_t cyaml__validate_no_document(
+		const cyaml_ctx_t *ctx,
+		const cyaml_schema_value_t *schema)
+{
+	cyaml_err_t err = CYAML_OK;
+
+	if (cyaml__flag_check_all(schema->flags, CYAML_FLAG_POINTER_NULL)) {
+		return CYAML_OK;
+	}
+
+	if (schema->type == CYAML_MAPPING) {
+		const cyaml_schema_field_t *field = schema->mapping.fields;
+
+		for (; field->key != NULL; field++) {
+			if (!(field->value.flags & CYAML_FLAG_OPTIONAL)) {
+				err = CYAML_ERR_MAPPING_FIELD_MISSING;
+			}
+		}
+	} else if (cyaml__is_sequence(schema)) {
+		if (schema->sequence.min > 0) {
+			err = CYAML_ERR_SEQUENCE_ENTRIES_MIN;
+		}
+	} else if (schema->type != CYAML_IGNORE) {
+		err = CYAML_ERR_INVALID_VALUE;
+	}
+
+	if (err != CYAML_OK) {
+		cyaml__log(ctx->config, CYAML_LOG_ERROR,
+				"Load: No document in stream\n");
+	}
+
+	return err;
+}
+
 /**
  * YAML loading handler for finalising the \ref CYAML_STATE_IN_STREAM state.
  *
@@ -2602,6 +2643,15 @@ static cyaml_err_t cyaml__stream_end(
 		const yaml_event_t *event)
 {
 	CYAML_UNUSED(event);
+
+	if (ctx->state->stream.doc_count == 0) {
+		cyaml_err_t err = cyaml__validate_no_document(ctx,
+				ctx->state->schema);
+		if (err != CYAML_OK) {
+			return err;
+		}
+	}
+
 	cyaml__stack_pop(ctx);
 	return CYAML_OK;
 }
-- 
2.43.0


From cf4bb6902bd2370cd9c7db4f3d748dac6352e7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:56 +0000
Subject: [PATCH 20/31] fix: reject scalars with embedded NUL characters

YAML double quoted scalars may contain escaped NULs.  Values and keys were
truncated at the first NUL, so loading succeeded but gave a value which was
not the value in the document, or used the wrong mapping field.
---
 src/load.c | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/load.c b/src/load.c
index 99d3a00..f490d72 100644
--- a/src/load.c
+++ b/src/load.c
@@ -568,6 +568,20 @@ static const char * cyaml__get_yaml_event_alias(const yaml_event_t *event)
 	return (const char *)event->data.alias.anchor;
 }
 
+/**
+ * Check whether a scalar contains a NUL character.
+ *
+ * Values are handled as C strings, which can't represent such a scalar.
+ *
+ * \param[in]  event  The `libyaml` event.  Must be a scalar.
+ * \return true if the scalar contains a NUL, false otherwise.
+ */
+static inline bool cyaml__scalar_has_nul(const yaml_event_t *event)
+{
+	return memchr(event->data.scalar.value, '\0',
+			event->data.scalar.length) != NULL;
+}
+
 /**
  * Handle an alias event.
  *
@@ -2198,6 +2212,9 @@ static cyaml_err_t cyaml__read_flags_value(
 
 		switch (cyaml_event) {
 		case CYAML_EVT_SCALAR:
+			if (cyaml__scalar_has_nul(event)) {
+				return CYAML_ERR_INVALID_VALUE;
+			}
 			err = cyaml__set_flag(ctx, schema,
 					(const char *)event->data.scalar.value,
 					&value);
@@ -2298,6 +2315,9 @@ static cyaml_err_t cyaml__set_bitval(
 
 	switch (cyaml__get_event_type(event)) {
 	case CYAML_EVT_SCALAR:
+		if (cyaml__scalar_has_nul(event)) {
+			return CYAML_ERR_INVALID_VALUE;
+		}
 		err = cyaml__read_uint64_t(ctx,
 				(const char *)event->data.scalar.value, &value);
 		if (err != CYAML_OK) {
@@ -2354,6 +2374,9 @@ static cyaml_err_t cyaml__read_bitfield_value(
 		cyaml_event = cyaml__get_event_type(event);
 		switch (cyaml_event) {
 		case CYAML_EVT_SCALAR:
+			if (cyaml__scalar_has_nul(event)) {
+				return CYAML_ERR_INVALID_VALUE;
+			}
 			err = cyaml__set_bitval(ctx, schema, &value);
 			if (err != CYAML_OK) {
 				return err;
@@ -2493,6 +2516,14 @@ static cyaml_err_t cyaml__read_value(
 			cyaml__type_to_str(schema->type),
 			schema->flags & CYAML_FLAG_POINTER ? " (pointer)" : "");
 
+	if (cyaml_event == CYAML_EVT_SCALAR && schema->type != CYAML_IGNORE) {
+		if (cyaml__scalar_has_nul(event)) {
+			cyaml__log(ctx->config, CYAML_LOG_ERROR,
+					"Load: NUL character in value\n");
+			return CYAML_ERR_INVALID_VALUE;
+		}
+	}
+
 	if (cyaml_event == CYAML_EVT_SCALAR) {
 		if (cyaml__string_is_null_ptr(schema,
 				(const char *)event->data.scalar.value)) {
@@ -2748,8 +2779,10 @@ static cyaml_err_t cyaml__map_key(
 	cyaml_err_t err = CYAML_OK;
 
 	key = (const char *)event->data.scalar.value;
-	ctx->state->mapping.fields_idx = cyaml__get_mapping_field_idx(
-			ctx->config, ctx->state->schema, key);
+	ctx->state->mapping.fields_idx = cyaml__scalar_has_nul(event) ?
+			CYAML_FIELDS_IDX_NONE :
+			cyaml__get_mapping_field_idx(
+					ctx->config, ctx->state->schema, key);
 	cyaml__log(ctx->config, CYAML_LOG_INFO, "Load: [%s]\n", key);
 
 	if (ctx->state->mapping.fields_idx == CYAML_FIELDS_IDX_NONE) {
-- 
2.43.0


From 5b7dbcf2416545df15be848e320f847f783b963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:00 +0000
Subject: [PATCH 21/31] fix: save empty fixed-length sequences

---
 src/save.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index 3843834..e12acc3 100644
--- a/src/save.c
+++ b/src/save.c
@@ -1013,7 +1013,8 @@ static cyaml_err_t cyaml__write_value(
 	data = cyaml_data_save_handle_pointer(ctx->config, schema,
 			data, "Save");
 
-	if (data == NULL && !(schema->type == CYAML_SEQUENCE &&
+	if (data == NULL && !((schema->type == CYAML_SEQUENCE ||
+			schema->type == CYAML_SEQUENCE_FIXED) &&
 			seq_count == 0 && !cyaml__flag_check_all(
 				schema->flags, CYAML_FLAG_POINTER_NULL))) {
 		if (cyaml__flag_check_all(schema->flags,
-- 
2.43.0


From beb111c634eb83189830d7529e56013c42dbf6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:36 +0000
Subject: [PATCH 22/31] fix: accept the shortest text for the extreme strict
 floats

---
 src/load.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/load.c b/src/load.c
index f490d72..c01de91 100644
--- a/src/load.c
+++ b/src/load.c
@@ -416,19 +416,19 @@ static cyaml_err_t cyaml__store_float(
 	CYAML_UNUSED(ctx);
 
 	if (schema->data_size == sizeof(float)) {
-		float fvalue;
+		float fvalue = (float)value;
 
+		/* The limits are for the rounded value, so that the shortest
+		 * text for FLT_MAX and FLT_MIN can be loaded. */
 		if (cyaml__flag_check_all(schema->flags, CYAML_FLAG_STRICT)) {
-			if (value > FLT_MAX || value < -FLT_MAX) {
+			if (fvalue > FLT_MAX || fvalue < -FLT_MAX) {
 				return CYAML_ERR_INVALID_VALUE;
 			}
-			if (value != 0 && value > -FLT_MIN && value < FLT_MIN) {
+			if (value != 0 && fvalue > -FLT_MIN && fvalue < FLT_MIN) {
 				return CYAML_ERR_INVALID_VALUE;
 			}
 		}
 
-		fvalue = (float)value;
-
 		if (validate_cb != NULL) {
 			if (!validate_cb(ctx->config->validation_ctx,
 					schema, fvalue)) {
-- 
2.43.0


From 2d31509ab89799e37c4dad352d5a4d4c0f3c05ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:44 +0000
Subject: [PATCH 23/31] fix: report missing data when copying a top level value
 that is no pointer

---
 src/copy.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/copy.c b/src/copy.c
index 851aa47..d6440fb 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -637,6 +637,7 @@ static cyaml_err_t cyaml__clone_sequence(
  *
  * \param[in] config     The client's CYAML library config.
  * \param[in] schema     The schema describing the content of data.
+ * \param[in] data       The data to be copied.
  * \param[in] seq_count  Top level sequence count.
  * \param[in] data_out   Points to client's address to write data to.
  * \return \ref CYAML_OK on success, or appropriate error code otherwise.
@@ -644,6 +645,7 @@ static cyaml_err_t cyaml__clone_sequence(
 static inline cyaml_err_t cyaml__validate_copy_params(
 		const cyaml_config_t *config,
 		const cyaml_schema_value_t *schema,
+		const cyaml_data_t *data,
 		unsigned seq_count,
 		cyaml_data_t **data_out)
 {
@@ -665,6 +667,9 @@ static inline cyaml_err_t cyaml__validate_copy_params(
 	if ((schema->flags & CYAML_FLAG_POINTER) && (*data_out != NULL)) {
 		return CYAML_ERR_DATA_TARGET_NON_NULL;
 	}
+	if (!(schema->flags & CYAML_FLAG_POINTER) && data == NULL) {
+		return CYAML_ERR_BAD_PARAM_NULL_DATA;
+	}
 	return CYAML_OK;
 }
 
@@ -722,7 +727,7 @@ cyaml_err_t cyaml_copy(
 	};
 	cyaml_err_t err = CYAML_OK;
 
-	err = cyaml__validate_copy_params(config, schema, seq_count, data_out);
+	err = cyaml__validate_copy_params(config, schema, data, seq_count, data_out);
 	if (err != CYAML_OK) {
 		if (ctx.config != NULL) {
 			cyaml__log(ctx.config, CYAML_LOG_ERROR,
-- 
2.43.0


From 0a61f9a05d28c9211acef4dfd5241cdd17f98c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:44 +0000
Subject: [PATCH 24/31] fix: freeing NULL data does nothing for any schema

---
 src/free.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/free.c b/src/free.c
index ef9001c..7ee6ff7 100644
--- a/src/free.c
+++ b/src/free.c
@@ -158,6 +158,9 @@ cyaml_err_t cyaml_free(
 		return CYAML_ERR_BAD_PARAM_NULL_SCHEMA;
 	}
 	cyaml__log(config, CYAML_LOG_DEBUG, "Free: Top level data: %p\n", data);
+	if (data == NULL) {
+		return CYAML_OK;
+	}
 	cyaml__free_value(config, schema,
 			(schema->flags & CYAML_FLAG_POINTER) ? &data : data,
 			seq_count);
-- 
2.43.0


From fd994736ca962f6d0ff8066a2d5e9465ccd3023e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:54 +0000
Subject: [PATCH 25/31] fix: load backtraces point at the key with the problem

An unknown or repeated key was reported at the position of the member before
it, and a missing member or a refused mapping as being in its last field.
---
 src/load.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/load.c b/src/load.c
index c01de91..6809d65 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2778,6 +2778,9 @@ static cyaml_err_t cyaml__map_key(
 	const char *key;
 	cyaml_err_t err = CYAML_OK;
 
+	ctx->state->line = event->start_mark.line;
+	ctx->state->column = event->start_mark.column;
+
 	key = (const char *)event->data.scalar.value;
 	ctx->state->mapping.fields_idx = cyaml__scalar_has_nul(event) ?
 			CYAML_FIELDS_IDX_NONE :
@@ -2813,9 +2816,6 @@ static cyaml_err_t cyaml__map_key(
 	/* Toggle mapping sub-state to value */
 	ctx->state->state = CYAML_STATE_IN_MAP_VALUE;
 
-	ctx->state->line = event->start_mark.line;
-	ctx->state->column = event->start_mark.column;
-
 	return err;
 }
 
@@ -2836,6 +2836,9 @@ static cyaml_err_t cyaml__map_end(
 
 	CYAML_UNUSED(event);
 
+	/* Any problem from here on is with the mapping, not its last field. */
+	ctx->state->mapping.fields_idx = CYAML_FIELDS_IDX_NONE;
+
 	err = cyaml__mapping_bitfieid_validate(ctx);
 	if (err != CYAML_OK) {
 		return err;
-- 
2.43.0


From bd7276a0a4ca050bcd9a6cd0f63e97c8eb2384cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 26/31] fix: mappings with more than 65534 members in their
 schema

Member counts and indices were held in 16 bits, so members beyond were
stored in the place of others, and the record of members seen was too small.
---
 src/load.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/load.c b/src/load.c
index 6809d65..bf2a9f6 100644
--- a/src/load.c
+++ b/src/load.c
@@ -28,7 +28,7 @@
 #include "util.h"
 
 /** Identifies that no mapping schema entry was found for key. */
-#define CYAML_FIELDS_IDX_NONE 0xffff
+#define CYAML_FIELDS_IDX_NONE 0xffffffff
 
 /**
  * CYAML events.  These correspond to `libyaml` events.
@@ -74,8 +74,8 @@ typedef struct cyaml_state {
 			const cyaml_schema_field_t *fields;
 			/** Bit field of mapping fields found. */
 			cyaml_bitfield_t *fields_set;
-			uint16_t fields_count;
-			uint16_t fields_idx;
+			uint32_t fields_count;
+			uint32_t fields_idx;
 		} mapping;
 		/**  Additional state for \ref CYAML_STATE_IN_SEQUENCE state. */
 		struct {
@@ -1130,13 +1130,13 @@ static inline const yaml_event_t * cyaml__current_event(
  * \return index the mapping schema's mapping fields array for key, or
  *         \ref CYAML_FIELDS_IDX_NONE if key is not present in schema.
  */
-static inline uint16_t cyaml__get_mapping_field_idx(
+static inline uint32_t cyaml__get_mapping_field_idx(
 		const cyaml_config_t *cfg,
 		const cyaml_schema_value_t *schema,
 		const char *key)
 {
 	const cyaml_schema_field_t *fields = schema->mapping.fields;
-	uint16_t index = 0;
+	uint32_t index = 0;
 
 	assert(schema->type == CYAML_MAPPING);
 
@@ -1211,7 +1211,7 @@ static cyaml_err_t cyaml__stack_ensure(
  * \param[in]  mapping_schema  Array of mapping schema fields.
  * \return Number of entries in mapping_schema array.
  */
-static uint16_t cyaml__get_mapping_field_count(
+static uint32_t cyaml__get_mapping_field_count(
 		const cyaml_schema_field_t *mapping_schema)
 {
 	const cyaml_schema_field_t *entry = mapping_schema;
@@ -1220,7 +1220,7 @@ static uint16_t cyaml__get_mapping_field_count(
 		entry++;
 	}
 
-	return (uint16_t)(entry - mapping_schema);
+	return (uint32_t)(entry - mapping_schema);
 }
 
 /**
-- 
2.43.0


From 2744a744926218e9760f45b55c992f8d5d609372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:46 +0000
Subject: [PATCH 27/31] fix: sequences of more than 4 GiB

Offsets of entries were computed in 32 bits when loading and freeing, so
entries were stored over earlier ones and released more than once.
---
 src/free.c | 9 +++++----
 src/load.c | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/free.c b/src/free.c
index 7ee6ff7..ef96d2d 100644
--- a/src/free.c
+++ b/src/free.c
@@ -22,6 +22,7 @@
  * are unbound, e.g. for a data tree structure.
  */
 
+#include <inttypes.h>
 #include <stdbool.h>
 #include <assert.h>
 #include <string.h>
@@ -60,10 +61,10 @@ static void cyaml__free_sequence(
 		uint64_t count)
 {
 	const cyaml_schema_value_t *schema = sequence_schema->sequence.entry;
-	uint32_t data_size = schema->data_size;
+	size_t data_size = schema->data_size;
 
 	cyaml__log(cfg, CYAML_LOG_DEBUG,
-			"Free: Freeing sequence with count: %u\n", count);
+			"Free: Freeing sequence with count: %"PRIu64"\n", count);
 
 	if (schema->flags & CYAML_FLAG_POINTER) {
 		data_size = sizeof(data);
@@ -71,9 +72,9 @@ static void cyaml__free_sequence(
 		data_size *= schema->sequence.max;
 	}
 
-	for (unsigned i = 0; i < count; i++) {
+	for (uint64_t i = 0; i < count; i++) {
 		cyaml__log(cfg, CYAML_LOG_DEBUG,
-				"Free: Freeing sequence entry: %u\n", i);
+				"Free: Freeing sequence entry: %"PRIu64"\n", i);
 		cyaml__free_value(cfg, schema, data + data_size * i, 0);
 	}
 }
diff --git a/src/load.c b/src/load.c
index bf2a9f6..f03f1e9 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2931,7 +2931,7 @@ static cyaml_err_t cyaml__seq_entry(
 	cyaml__log(ctx->config, CYAML_LOG_DEBUG,
 			"Load: Sequence entry: %u (%"PRIu32" bytes)\n",
 			state->sequence.count, schema->data_size);
-	value_data += schema->data_size * state->sequence.count;
+	value_data += (size_t)schema->data_size * state->sequence.count;
 	state->sequence.count++;
 
 	if (schema->type != CYAML_SEQUENCE_FIXED) {
-- 
2.43.0


From b6d9690bc6e3c244dd379f0b6d2097bf08636c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 28/31] fix: CYAML_FIELD describes the entries and the count of
 array members

---
 include/cyaml/cyaml.h   |  9 +++++++-
 include/cyaml/private.h | 48 +++++++++++++++++++++++++++++++++++++++++
 2 files changed, 56 insertions(+), 1 deletion(-)

diff --git a/include/cyaml/cyaml.h b/include/cyaml/cyaml.h
index 188b473..a69be54 100644
--- a/include/cyaml/cyaml.h
+++ b/include/cyaml/cyaml.h
@@ -945,6 +945,10 @@ typedef enum cyaml_err {
  *
  * Use this for any structure members that are not pointers.
  *
+ * \note For \ref CYAML_SEQUENCE and \ref CYAML_SEQUENCE_FIXED types, the member
+ *       must be an array. For the \ref CYAML_SEQUENCE type, there must be a
+ *       `<_member>_count` member for storing the number of entries in it.
+ *
  * \param[in]  _TYPE       The CYAML type for the field. It must be one of:
  *                         * `INT` for \ref CYAML_INT
  *                         * `UINT` for \ref CYAML_UINT
@@ -969,10 +973,13 @@ typedef enum cyaml_err {
 { \
 	.key = _key, \
 	.data_offset = offsetof(_structure, _member), \
+	CYAML__FIELD_COUNT_ ## _TYPE(_structure, \
+			CYAML__SEQUENCE_COUNT_ ## _TYPE(_member, _count)) \
 	.value = { \
 		CYAML_VALUE(_TYPE, \
 				CYAML__POINTER_REMOVE(_flags), \
-				CYAML__MEMBER(_structure, _member), \
+				CYAML__FIELD_VALUE_ ## _TYPE( \
+					CYAML__MEMBER(_structure, _member)), \
 				__VA_ARGS__), \
 	}, \
 }
diff --git a/include/cyaml/private.h b/include/cyaml/private.h
index 526427b..01be78b 100644
--- a/include/cyaml/private.h
+++ b/include/cyaml/private.h
@@ -84,6 +84,54 @@ extern "C"
 /** Fake a valid sequence count member for SEQUENCE_FIXED. */
 #define CYAML__SEQUENCE_COUNT_SEQUENCE_FIXED(_member, _count) _member
 
+/** Get the type of the value of a non-pointer member for INT. */
+#define CYAML__FIELD_VALUE_INT(_member)             _member
+/** Get the type of the value of a non-pointer member for UINT. */
+#define CYAML__FIELD_VALUE_UINT(_member)            _member
+/** Get the type of the value of a non-pointer member for BOOL. */
+#define CYAML__FIELD_VALUE_BOOL(_member)            _member
+/** Get the type of the value of a non-pointer member for ENUM. */
+#define CYAML__FIELD_VALUE_ENUM(_member)            _member
+/** Get the type of the value of a non-pointer member for FLAGS. */
+#define CYAML__FIELD_VALUE_FLAGS(_member)           _member
+/** Get the type of the value of a non-pointer member for FLOAT. */
+#define CYAML__FIELD_VALUE_FLOAT(_member)           _member
+/** Get the type of the value of a non-pointer member for STRING. */
+#define CYAML__FIELD_VALUE_STRING(_member)          _member
+/** Get the type of the value of a non-pointer member for MAPPING. */
+#define CYAML__FIELD_VALUE_MAPPING(_member)         _member
+/** Get the type of the value of a non-pointer member for BITFIELD. */
+#define CYAML__FIELD_VALUE_BITFIELD(_member)        _member
+/** Get the type of the entries of an array member for SEQUENCE. */
+#define CYAML__FIELD_VALUE_SEQUENCE(_member)        *(_member)
+/** Get the type of the entries of an array member for SEQUENCE_FIXED. */
+#define CYAML__FIELD_VALUE_SEQUENCE_FIXED(_member)  *(_member)
+
+/** No sequence count member for INT. */
+#define CYAML__FIELD_COUNT_INT(_structure, _count)
+/** No sequence count member for UINT. */
+#define CYAML__FIELD_COUNT_UINT(_structure, _count)
+/** No sequence count member for BOOL. */
+#define CYAML__FIELD_COUNT_BOOL(_structure, _count)
+/** No sequence count member for ENUM. */
+#define CYAML__FIELD_COUNT_ENUM(_structure, _count)
+/** No sequence count member for FLAGS. */
+#define CYAML__FIELD_COUNT_FLAGS(_structure, _count)
+/** No sequence count member for FLOAT. */
+#define CYAML__FIELD_COUNT_FLOAT(_structure, _count)
+/** No sequence count member for STRING. */
+#define CYAML__FIELD_COUNT_STRING(_structure, _count)
+/** No sequence count member for MAPPING. */
+#define CYAML__FIELD_COUNT_MAPPING(_structure, _count)
+/** No sequence count member for BITFIELD. */
+#define CYAML__FIELD_COUNT_BITFIELD(_structure, _count)
+/** Location of the sequence count member for SEQUENCE. */
+#define CYAML__FIELD_COUNT_SEQUENCE(_structure, _count) \
+	.count_offset = offsetof(_structure, _count), \
+	.count_size = sizeof(CYAML__MEMBER(_structure, _count)),
+/** No sequence count member for SEQUENCE_FIXED. */
+#define CYAML__FIELD_COUNT_SEQUENCE_FIXED(_structure, _count)
+
 /** Adapt flags for mapping schema building macro for INT. */
 #define CYAML__HANDLE_PTR_INT(_flags)            CYAML__POINTER_ADD(_flags)
 /** Adapt flags for mapping schema building macro for UINT. */
-- 
2.43.0


From ee2097678860c59f91ce88893ea0b74428934df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 29/31] fix: default sequences whose count can't be written, or
 without entries

The copy of the default was made before its count was found not to be
writable, and freeing without the count leaked the copy's entries. A count
too big for the count member was cut short, with the same result. And an
empty default made the load fail, because cyaml_copy refuses a count of
zero.
---
 src/load.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/load.c b/src/load.c
index f03f1e9..2dbbe53 100644
--- a/src/load.c
+++ b/src/load.c
@@ -1457,6 +1457,27 @@ static cyaml_err_t cyaml__field_apply_default(
 		schema_default = schema->sequence.missing;
 		if (schema->type == CYAML_SEQUENCE) {
 			seq_count = schema->sequence.missing_count;
+			if (seq_count == 0) {
+				return CYAML_OK;
+			}
+			/* Needs checking before the copy is made, since the
+			 * copy can't be freed without the written count. */
+			if (field->count_size == 0 ||
+			    field->count_size > sizeof(seq_count)) {
+				cyaml__log(ctx->config, CYAML_LOG_ERROR,
+						"Load: Bad sequence count size"
+						" for field %s\n", field->key);
+				return CYAML_ERR_INVALID_DATA_SIZE;
+			}
+			if (field->count_size < sizeof(seq_count) &&
+			    seq_count >> (field->count_size * CHAR_BIT) != 0) {
+				cyaml__log(ctx->config, CYAML_LOG_ERROR,
+						"Load: Too many entries for "
+						"sequence count (size: "
+						"%"PRIu8" bytes).\n",
+						field->count_size);
+				return CYAML_ERR_SEQUENCE_ENTRIES_MAX;
+			}
 		} else {
 			seq_count = schema->sequence.max;
 		}
-- 
2.43.0


From f00a9457eb297eda92f0ed893c4787b02f5db891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 30/31] fix: copies of inline sequences of variable length
 sequences are refused with the right error

The length of the copy was taken to be zero, and the allocation of nothing
reported as a failed one.
---
 src/copy.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/copy.c b/src/copy.c
index d6440fb..992c63a 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -690,9 +690,11 @@ static size_t cyaml__get_data_len(
 	if (cyaml__is_sequence(schema)) {
 		const cyaml_schema_value_t *entry = schema->sequence.entry;
 
+		/* The count is only used if the entry is itself a variable
+		 * length sequence, which gets refused later. */
 		len = (entry->flags & CYAML_FLAG_POINTER) ?
 				sizeof(void *) :
-				cyaml__get_data_len(entry, 0);
+				cyaml__get_data_len(entry, 1);
 	}
 
 	if (schema->type == CYAML_SEQUENCE) {
-- 
2.43.0


From b8e96b6b5659041e7114a206c89501c4c1f513c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 31/31] fix: pointer flags on ignored fields made load allocate
 and free release other data

A CYAML_IGNORE field has no data, but with CYAML_FLAG_POINTER among its
flags, loading its value tried to allocate zero bytes for it (reported as
out of memory), and freeing a mapping read a pointer at the field's unset
offset and freed that: a double free of the mapping's first member.
---
 src/free.c | 5 +++++
 src/load.c | 6 ++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/free.c b/src/free.c
index ef96d2d..338802d 100644
--- a/src/free.c
+++ b/src/free.c
@@ -119,6 +119,11 @@ static void cyaml__free_value(
 		uint8_t * data,
 		uint64_t count)
 {
+	if (schema->type == CYAML_IGNORE) {
+		/* Ignored values have no data, whatever their flags. */
+		return;
+	}
+
 	if (schema->flags & CYAML_FLAG_POINTER) {
 		data = cyaml_data_read_pointer(data);
 		if (data == NULL) {
diff --git a/src/load.c b/src/load.c
index 2dbbe53..0a8cbc8 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2559,9 +2559,11 @@ static cyaml_err_t cyaml__read_value(
 		return err;
 	}
 
-	if (cyaml__is_sequence(schema) == false) {
+	if (cyaml__is_sequence(schema) == false &&
+	    schema->type != CYAML_IGNORE) {
 		/* Since sequences extend their allocation for each entry,
-		 * they're handled in the sequence-specific code.
+		 * they're handled in the sequence-specific code.  There is no
+		 * data to allocate for an ignored value.
 		 */
 		err = cyaml__data_handle_pointer(ctx, schema, event, &data);
 		if (err != CYAML_OK) {
-- 
2.43.0

