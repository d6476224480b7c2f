From ee464675e4d121e3200a03c9ebebf9ca23ab18c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:13 +0000
Subject: [PATCH 01/23] fix: encode TL fields of lists and of long elements
 correctly

The count of a list entry does not include the TL fields, lengths around
16^n - n were encoded with too few or too many TL fields, and stale bytes of
a reused buffer were mixed into the first TL field.
---
 sml/src/sml_shared.c | 60 ++++++++++++++++----------------------------
 1 file changed, 21 insertions(+), 39 deletions(-)

diff --git a/sml/src/sml_shared.c b/sml/src/sml_shared.c
index d7cad9d..7ac0ddf 100644
--- a/sml/src/sml_shared.c
+++ b/sml/src/sml_shared.c
@@ -55,49 +55,31 @@ int sml_buf_get_next_length(sml_buffer *buf) {
 }
 
 void sml_buf_set_type_and_length(sml_buffer *buf, unsigned int type, unsigned int l) {
-	// set the type
-	buf->buffer[buf->cursor] = type;
-
-	if (type != SML_TYPE_LIST) {
-		l++;
-	}
-
-	if (l > SML_LENGTH_FIELD) {
-
-		// how much shifts are necessary
-		int mask_pos = (sizeof(unsigned int) * 2) - 1;
-
-		// the 4 most significant bits of l (1111 0000 0000 ...)
-		unsigned int mask = 0xF0 << (8 * (sizeof(unsigned int) - 1));
-
-		// select the next 4 most significant bits with a bit set until there
-		// is something
-		while (!(mask & l)) {
-			mask >>= 4;
-			mask_pos--;
+	// the number of TL-fields and the value to encode; the number of entries of
+	// a list does not include the TL-fields, all other lengths do
+	unsigned int fields = 1;
+	u64 length = l;
+
+	if (type == SML_TYPE_LIST) {
+		while (length >> (4 * fields)) {
+			fields++;
 		}
-
-		l += mask_pos; // for every TL-field
-
-		if ((0x0F << (4 * (mask_pos + 1))) & l) {
-			// for the rare case that the addition of the number of TL-fields
-			// result in another TL-field.
-			mask_pos++;
-			l++;
-		}
-
-		// copy 4 bits of the number to the buffer
-		while (mask > SML_LENGTH_FIELD) {
-			buf->buffer[buf->cursor] |= SML_ANOTHER_TL;
-			buf->buffer[buf->cursor] |= ((mask & l) >> (4 * mask_pos));
-			mask >>= 4;
-			mask_pos--;
-			buf->cursor++;
+	} else {
+		while ((length + fields) >> (4 * fields)) {
+			fields++;
 		}
+		length += fields;
 	}
 
-	buf->buffer[buf->cursor] |= (l & SML_LENGTH_FIELD);
-	buf->cursor++;
+	// 4 bits of the length in each TL-field, the most significant ones first;
+	// the first TL-field contains the type
+	while (fields > 0) {
+		fields--;
+		buf->buffer[buf->cursor] =
+			type | (fields ? SML_ANOTHER_TL : 0) | ((length >> (4 * fields)) & SML_LENGTH_FIELD);
+		buf->cursor++;
+		type = 0;
+	}
 }
 
 int sml_buf_has_errors(sml_buffer *buf) { return buf->error != 0; }
-- 
2.43.0


From 56b9b7f4924847d62ce2d8abe932355d5c1bf20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:32 +0000
Subject: [PATCH 02/23] fix: write the last entry of a profile pack request's
 object list

---
 sml/src/sml_get_profile_pack_request.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sml/src/sml_get_profile_pack_request.c b/sml/src/sml_get_profile_pack_request.c
index 6729b08..5020037 100644
--- a/sml/src/sml_get_profile_pack_request.c
+++ b/sml/src/sml_get_profile_pack_request.c
@@ -56,7 +56,7 @@ void sml_get_profile_pack_request_write(sml_get_profile_pack_request *msg, sml_b
 			len++;
 		}
 		sml_buf_set_type_and_length(buf, SML_TYPE_LIST, len);
-		for (l = msg->object_list; l->next; l = l->next) {
+		for (l = msg->object_list; l; l = l->next) {
 			sml_obj_req_entry_write(l->object_list_entry, buf);
 		}
 	} else {
-- 
2.43.0


From 99b95cca0780edc8fca3d8d0c9198fbba8fd4635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:32 +0000
Subject: [PATCH 03/23] fix: release the previous checksum when a message is
 written again

---
 sml/src/sml_message.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index de91085..431b170 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -135,6 +135,7 @@ void sml_message_write(sml_message *msg, sml_buffer *buf) {
 	sml_u8_write(msg->abort_on_error, buf);
 	sml_message_body_write(msg->message_body, buf);
 
+	sml_number_free(msg->crc);
 	msg->crc =
 		sml_u16_init(sml_crc16_calculate(&(buf->buffer[msg_start]), buf->cursor - msg_start));
 	sml_u16_write(msg->crc, buf);
-- 
2.43.0


From 627d1931a40f031153febcaefbcd757429ddeec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:33 +0000
Subject: [PATCH 04/23] fix: write an empty tree path as an empty list

Nothing at all was written for it, so that the message around it could not
be parsed.
---
 sml/src/sml_tree.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sml/src/sml_tree.c b/sml/src/sml_tree.c
index e54561e..2cc1a54 100644
--- a/sml/src/sml_tree.c
+++ b/sml/src/sml_tree.c
@@ -73,13 +73,11 @@ void sml_tree_path_write(sml_tree_path *tree_path, sml_buffer *buf) {
 		return;
 	}
 
-	if (tree_path->path_entries && tree_path->path_entries_len > 0) {
-		sml_buf_set_type_and_length(buf, SML_TYPE_LIST, tree_path->path_entries_len);
+	sml_buf_set_type_and_length(buf, SML_TYPE_LIST, tree_path->path_entries_len);
 
-		int i;
-		for (i = 0; i < tree_path->path_entries_len; i++) {
-			sml_octet_string_write(tree_path->path_entries[i], buf);
-		}
+	int i;
+	for (i = 0; i < tree_path->path_entries_len; i++) {
+		sml_octet_string_write(tree_path->path_entries[i], buf);
 	}
 }
 
-- 
2.43.0


From bd3f0e967856d86c4daf278f1f0f103a01f72d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:33 +0000
Subject: [PATCH 05/23] fix: report a message body without a type tag as an
 error

The message was accepted without body, and every user of message_body->tag
(sml_file_print, for example) dereferenced a null pointer.
---
 sml/src/sml_message.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index 431b170..f9d95e1 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -167,8 +167,10 @@ sml_message_body *sml_message_body_parse(sml_buffer *buf) {
 	}
 
 	msg_body->tag = sml_u32_parse(buf);
-	if (sml_buf_has_errors(buf) || msg_body->tag == NULL)
+	if (sml_buf_has_errors(buf) || msg_body->tag == NULL) {
+		buf->error = 1;
 		goto error;
+	}
 
 	switch (*(msg_body->tag)) {
 	case SML_MESSAGE_OPEN_REQUEST:
@@ -221,6 +223,7 @@ sml_message_body *sml_message_body_parse(sml_buffer *buf) {
 	return msg_body;
 
 error:
+	sml_number_free(msg_body->tag);
 	free(msg_body);
 	return NULL;
 }
-- 
2.43.0


From 75bae4ed8fc1c85cd056cc06d638fda7b8dfd0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 06/23] fix: reject messages of an unknown type

Their content was not skipped: the checksum was read from the middle of it.
---
 sml/src/sml_message.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index f9d95e1..a284ceb 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -217,7 +217,8 @@ sml_message_body *sml_message_body_parse(sml_buffer *buf) {
 		break;
 	default:
 		fprintf(stderr, "libsml: error: message type %04X not yet implemented\n", *(msg_body->tag));
-		break;
+		buf->error = 1;
+		goto error;
 	}
 
 	return msg_body;
-- 
2.43.0


From d42b42c1e124ac2d3a69d9e70416f13912255813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:52 +0000
Subject: [PATCH 07/23] fix: mark the buffer as erroneous when a time or
 parameter value is invalid

Both parsers gave up in the middle of the element without setting the error,
and parsing went on with the bytes that were left.
---
 sml/src/sml_time.c | 1 +
 sml/src/sml_tree.c | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_time.c b/sml/src/sml_time.c
index 6e7beba..1b9012c 100644
--- a/sml/src/sml_time.c
+++ b/sml/src/sml_time.c
@@ -107,6 +107,7 @@ sml_time *sml_time_parse(sml_buffer *buf) {
 			sml_number_free(t3);
 		break;
 	default:
+		buf->error = 1;
 		goto error;
 	}
 
diff --git a/sml/src/sml_tree.c b/sml/src/sml_tree.c
index 2cc1a54..79ce0a1 100644
--- a/sml/src/sml_tree.c
+++ b/sml/src/sml_tree.c
@@ -229,8 +229,10 @@ sml_proc_par_value *sml_proc_par_value_parse(sml_buffer *buf) {
 	}
 
 	ppv->tag = sml_u8_parse(buf);
-	if (sml_buf_has_errors(buf) || !(ppv->tag))
+	if (sml_buf_has_errors(buf) || !(ppv->tag)) {
+		buf->error = 1;
 		goto error;
+	}
 
 	switch (*(ppv->tag)) {
 	case SML_PROC_PAR_VALUE_TAG_VALUE:
-- 
2.43.0


From 95becb5c50dae487c16934aeb4c3a06d2a977e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:53 +0000
Subject: [PATCH 08/23] fix: do not take the sign of an empty number from the
 byte behind it

---
 sml/src/sml_number.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sml/src/sml_number.c b/sml/src/sml_number.c
index 706a4c6..dd6c383 100644
--- a/sml/src/sml_number.c
+++ b/sml/src/sml_number.c
@@ -107,7 +107,7 @@ void *sml_number_parse(sml_buffer *buf, unsigned char type, int max_size) {
 	}
 
 	b = sml_buf_get_current_byte(buf);
-	if (type == SML_TYPE_INTEGER && (b & 128)) {
+	if (type == SML_TYPE_INTEGER && l > 0 && (b & 128)) {
 		negative_int = 1;
 	}
 
-- 
2.43.0


From 19f7839dc1fdb44a1da4e5632cd77f954bac30d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:53 +0000
Subject: [PATCH 09/23] fix: reject values and status words of more than eight
 bytes

They were stored as 16-byte numbers with a type no consumer knows.
---
 sml/src/sml_status.c | 5 +++++
 sml/src/sml_value.c  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/sml/src/sml_status.c b/sml/src/sml_status.c
index 11939da..6adabeb 100644
--- a/sml/src/sml_status.c
+++ b/sml/src/sml_status.c
@@ -42,6 +42,11 @@ sml_status *sml_status_parse(sml_buffer *buf) {
 		while (max < ((byte & SML_LENGTH_FIELD) - 1)) {
 			max <<= 1;
 		}
+		if (max > 8) {
+			// there are no numbers with more than 64 bits
+			buf->error = 1;
+			break;
+		}
 
 		status->data.status8 = sml_number_parse(buf, type, max);
 		status->type |= max;
diff --git a/sml/src/sml_value.c b/sml/src/sml_value.c
index fab9d0e..19ac624 100644
--- a/sml/src/sml_value.c
+++ b/sml/src/sml_value.c
@@ -45,6 +45,11 @@ sml_value *sml_value_parse(sml_buffer *buf) {
 		while (max < ((byte & SML_LENGTH_FIELD) - 1)) {
 			max <<= 1;
 		}
+		if (max > 8) {
+			// there are no numbers with more than 64 bits
+			buf->error = 1;
+			break;
+		}
 
 		value->data.uint8 = sml_number_parse(buf, type, max);
 		value->type |= max;
-- 
2.43.0


From 001ab0dcfb18137833d18629448b6314557c13f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:53 +0000
Subject: [PATCH 10/23] fix: apply the DZG DVS74 workaround to signed numbers
 only

Short octet strings and booleans were given the type of a number, so that
their content was read and released as such.
---
 sml/src/sml_list.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sml/src/sml_list.c b/sml/src/sml_list.c
index 3662d38..7400f7a 100644
--- a/sml/src/sml_list.c
+++ b/sml/src/sml_list.c
@@ -251,6 +251,7 @@ sml_list *sml_list_entry_parse(sml_buffer *buf, struct workarounds *workarounds)
 	} else if (workarounds->old_dzg_dvs74 && l->obj_name &&
 			   l->obj_name->len == sizeof(dzg_power_name) &&
 			   memcmp(l->obj_name->str, dzg_power_name, sizeof(dzg_power_name)) == 0 && l->value &&
+			   (l->value->type & SML_TYPE_FIELD) == SML_TYPE_INTEGER &&
 			   (value_len_more == 1 || value_len_more == 2 || value_len_more == 3)) {
 		l->value->type &= ~SML_TYPE_FIELD;
 		l->value->type |= SML_TYPE_UNSIGNED;
-- 
2.43.0


From 794864ac82a5fad6ea8aa4c9667f2bec69419e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:12 +0000
Subject: [PATCH 11/23] fix: do not decode hexadecimal text into an array on
 the stack

Its size was zero for an empty text, which is undefined, and a long text
overflowed the stack.
---
 sml/src/sml_octet_string.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/sml/src/sml_octet_string.c b/sml/src/sml_octet_string.c
index f7db408..ab1e257 100644
--- a/sml/src/sml_octet_string.c
+++ b/sml/src/sml_octet_string.c
@@ -45,15 +45,24 @@ octet_string *sml_octet_string_init(unsigned char *str, int length) {
 }
 
 octet_string *sml_octet_string_init_from_hex(char *str) {
+	if (str == NULL) {
+		return NULL;
+	}
+
 	int i, len = strlen(str);
 	if (len % 2 != 0) {
 		return NULL;
 	}
-	unsigned char bytes[len / 2];
-	for (i = 0; i < (len / 2); i++) {
-		bytes[i] = c2ptoi(&(str[i * 2]));
+
+	octet_string *s = sml_octet_string_init(NULL, 0);
+	if (len > 0) {
+		s->str = (unsigned char *)malloc(len / 2);
+		s->len = len / 2;
+		for (i = 0; i < (len / 2); i++) {
+			s->str[i] = c2ptoi(&(str[i * 2]));
+		}
 	}
-	return sml_octet_string_init(bytes, len / 2);
+	return s;
 }
 
 void sml_octet_string_free(octet_string *str) {
-- 
2.43.0


From b4a95092f16c564ed6353101bc4554475bbfdc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 12/23] fix: handle absent, empty and malformed octet strings

Comparing with text of odd length or with an absent string dereferenced a
null pointer; empty strings were copied and compared through null pointers.
---
 sml/src/sml_octet_string.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/sml/src/sml_octet_string.c b/sml/src/sml_octet_string.c
index ab1e257..ee61322 100644
--- a/sml/src/sml_octet_string.c
+++ b/sml/src/sml_octet_string.c
@@ -104,8 +104,10 @@ void sml_octet_string_write(octet_string *str, sml_buffer *buf) {
 	}
 
 	sml_buf_set_type_and_length(buf, SML_TYPE_OCTET_STRING, (unsigned int)str->len);
-	memcpy(sml_buf_get_current_buf(buf), str->str, str->len);
-	buf->cursor += str->len;
+	if (str->len > 0) {
+		memcpy(sml_buf_get_current_buf(buf), str->str, str->len);
+		buf->cursor += str->len;
+	}
 }
 
 octet_string *sml_octet_string_generate_uuid() {
@@ -132,19 +134,15 @@ octet_string *sml_octet_string_generate_uuid() {
 }
 
 int sml_octet_string_cmp(octet_string *s1, octet_string *s2) {
-	if (s1->len != s2->len) {
+	if (s1 == NULL || s2 == NULL || s1->len != s2->len) {
 		return -1;
 	}
-	return memcmp(s1->str, s2->str, s1->len);
+	return s1->len > 0 ? memcmp(s1->str, s2->str, s1->len) : 0;
 }
 
 int sml_octet_string_cmp_with_hex(octet_string *str, char *hex) {
 	octet_string *hstr = sml_octet_string_init_from_hex(hex);
-	if (str->len != hstr->len) {
-		sml_octet_string_free(hstr);
-		return -1;
-	}
-	int result = memcmp(str->str, hstr->str, str->len);
+	int result = sml_octet_string_cmp(str, hstr);
 	sml_octet_string_free(hstr);
 	return result;
 }
-- 
2.43.0


From f0bfb38a9dea9c13389654e08309e0df672c5e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:14 +0000
Subject: [PATCH 13/23] fix: count the messages of a file in an int

A file with more than 32767 messages wrapped the counter and the messages
were written in front of the array.
---
 sml/include/sml/sml_file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sml/include/sml/sml_file.h b/sml/include/sml/sml_file.h
index d864d40..b6cd76f 100644
--- a/sml/include/sml/sml_file.h
+++ b/sml/include/sml/sml_file.h
@@ -30,7 +30,7 @@ extern "C" {
 // a SML file consist of multiple SML messages
 typedef struct {
 	sml_message **messages;
-	short messages_len;
+	int messages_len;
 	sml_buffer *buf;
 } sml_file;
 
-- 
2.43.0


From dcc612604e5312c07e4c2e08e3b6e8e2aaca08b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:14 +0000
Subject: [PATCH 14/23] fix: close /dev/urandom after generating an id

---
 sml/src/sml_octet_string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sml/src/sml_octet_string.c b/sml/src/sml_octet_string.c
index ee61322..235d795 100644
--- a/sml/src/sml_octet_string.c
+++ b/sml/src/sml_octet_string.c
@@ -121,6 +121,7 @@ octet_string *sml_octet_string_generate_uuid() {
 #ifdef __linux__
 	int fd = open("/dev/urandom", O_RDONLY);
 	read(fd, uuid, 16);
+	close(fd);
 #else
 	int i;
 	for (i = 0; i < 16; i++) {
-- 
2.43.0


From 9c6eef561ce36fb7b286c3d0e447a50861da3af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:33 +0000
Subject: [PATCH 15/23] fix: limit the nesting depth of parsed trees

Four bytes of input per level were enough to overflow the stack.
---
 sml/src/sml_tree.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sml/src/sml_tree.c b/sml/src/sml_tree.c
index 79ce0a1..c9a1a22 100644
--- a/sml/src/sml_tree.c
+++ b/sml/src/sml_tree.c
@@ -106,11 +106,19 @@ sml_tree *sml_tree_init() {
 	return tree;
 }
 
-sml_tree *sml_tree_parse(sml_buffer *buf) {
+// nesting of trees that is accepted, to limit the use of the stack
+#define SML_TREE_MAX_DEPTH 256
+
+static sml_tree *sml_tree_parse_depth(sml_buffer *buf, int depth) {
 	if (sml_buf_optional_is_skipped(buf)) {
 		return NULL;
 	}
 
+	if (depth > SML_TREE_MAX_DEPTH) {
+		buf->error = 1;
+		return NULL;
+	}
+
 	sml_tree *tree = sml_tree_init();
 
 	if (sml_buf_get_next_type(buf) != SML_TYPE_LIST) {
@@ -140,7 +148,7 @@ sml_tree *sml_tree_parse(sml_buffer *buf) {
 		sml_tree *c;
 		int elems;
 		for (elems = sml_buf_get_next_length(buf); elems > 0; elems--) {
-			c = sml_tree_parse(buf);
+			c = sml_tree_parse_depth(buf, depth + 1);
 			if (sml_buf_has_errors(buf)) {
 				if (c)
 					sml_tree_free(c);
@@ -159,6 +167,8 @@ error:
 	return NULL;
 }
 
+sml_tree *sml_tree_parse(sml_buffer *buf) { return sml_tree_parse_depth(buf, 1); }
+
 void sml_tree_add_tree(sml_tree *base_tree, sml_tree *tree) {
 	base_tree->child_list_len++;
 	base_tree->child_list =
-- 
2.43.0


From c4f94b51aada88ffa5255e456cd524697ed32048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:33 +0000
Subject: [PATCH 16/23] fix: reject lengths that do not fit into an int

Their upper bits were lost, which is undefined, too.
---
 sml/src/sml_shared.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sml/src/sml_shared.c b/sml/src/sml_shared.c
index 7ac0ddf..689ae62 100644
--- a/sml/src/sml_shared.c
+++ b/sml/src/sml_shared.c
@@ -16,6 +16,7 @@
 // You should have received a copy of the GNU General Public License
 // along with libSML.  If not, see <http://www.gnu.org/licenses/>.
 
+#include <limits.h>
 #include <sml/sml_shared.h>
 #include <stdio.h>
 #include <string.h>
@@ -33,6 +34,10 @@ int sml_buf_get_next_length(sml_buffer *buf) {
 
 	for (; buf->cursor < buf->buffer_len;) {
 		byte = sml_buf_get_current_byte(buf);
+		if (length > (INT_MAX >> 4)) {
+			buf->error = 1;
+			return -1;
+		}
 		length <<= 4;
 		length |= (byte & SML_LENGTH_FIELD);
 
-- 
2.43.0


From 5b29e65b38ed0785aec97d3b19289e421da3f23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 17/23] fix: check the length of a time given as a list of
 three values

---
 sml/src/sml_time.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_time.c b/sml/src/sml_time.c
index 1b9012c..dd9af56 100644
--- a/sml/src/sml_time.c
+++ b/sml/src/sml_time.c
@@ -70,7 +70,10 @@ sml_time *sml_time_parse(sml_buffer *buf) {
 		// Some meters (e.g. FROETEC Multiflex ZG22) giving not one uint32
 		// as timestamp, but a list of 3 values.
 		// Ignoring these values, so that parsing does not fail.
-		sml_buf_get_next_length(buf); // should we check the length here?
+		if (sml_buf_get_next_length(buf) != 3) {
+			buf->error = 1;
+			goto error;
+		}
 		u32 *t1 = sml_u32_parse(buf);
 		if (sml_buf_has_errors(buf)) {
 			if (t1)
-- 
2.43.0


From 1891bdc847491a402ea6a008c79a0843b44dc948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 18/23] fix: write a time without value as absent

It was written as a list with an absent value, which sml_time_parse()
rejects. Such times are the result of reading the list of three values
some meters send.
---
 sml/src/sml_time.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sml/src/sml_time.c b/sml/src/sml_time.c
index dd9af56..97b81ec 100644
--- a/sml/src/sml_time.c
+++ b/sml/src/sml_time.c
@@ -127,6 +127,12 @@ void sml_time_write(sml_time *t, sml_buffer *buf) {
 		return;
 	}
 
+	if (t->data.timestamp == 0) {
+		// a time without value cannot be represented
+		sml_buf_optional_write(buf);
+		return;
+	}
+
 	sml_buf_set_type_and_length(buf, SML_TYPE_LIST, 2);
 	sml_u8_write(t->tag, buf);
 	sml_u32_write(t->data.timestamp, buf);
-- 
2.43.0


From 6d44b6724165634f03b20364b5747dbdcbb6960d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:43 +0000
Subject: [PATCH 19/23] fix: find a start sequence directly behind an escape
 byte

A byte 0x1b that did not continue the start sequence was discarded even if
it began the next one, and the frame was lost.
---
 sml/src/sml_transport.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index 17f868c..bff0e41 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -79,6 +79,9 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 
 		if ((buf[len] == 0x1b && len < 4) || (buf[len] == 0x01 && len >= 4)) {
 			len++;
+		} else if (buf[len] == 0x1b) {
+			// the last byte may belong to a start sequence nevertheless
+			len = (len == 4) ? 4 : 1;
 		} else {
 			len = 0;
 		}
-- 
2.43.0


From a50de3e22eb5c0be9bb758ae4543741eccee6dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:43 +0000
Subject: [PATCH 20/23] fix: read frames directly into the buffer of the caller

A copy of the buffer on the stack overflowed it for large buffers and had
no size at all for an empty one. A frame may fill the buffer completely.
---
 sml/src/sml_transport.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index bff0e41..fec35f5 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -62,8 +62,7 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 	FD_ZERO(&readfds);
 	FD_SET(fd, &readfds);
 
-	unsigned char buf[max_len];
-	memset(buf, 0, max_len);
+	unsigned char *buf = buffer;
 	unsigned int len = 0;
 
 	if (max_len < 8) {
@@ -88,7 +87,7 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 	}
 
 	// found start sequence
-	while ((len + 8) < max_len) {
+	while ((len + 8) <= max_len) {
 		if (sml_read(fd, &readfds, &(buf[len]), 4) == 0) {
 			return 0;
 		}
@@ -103,7 +102,6 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 			if (buf[len] == 0x1a) {
 				// found end sequence
 				len += 4;
-				memcpy(buffer, &(buf[0]), len);
 				return len;
 			} else {
 				// don't read other escaped sequences yet
-- 
2.43.0


From 645ed688bf7fa44eff100abae2784cbbb5fd2f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:44 +0000
Subject: [PATCH 21/23] fix: wait for input with poll()

select() cannot be used with descriptors of FD_SETSIZE and above: FD_SET()
wrote behind its argument.
---
 sml/src/sml_transport.c | 42 ++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index fec35f5..bafdfe4 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -17,6 +17,7 @@
 // along with libSML.  If not, see <http://www.gnu.org/licenses/>.
 
 #include <errno.h> // for errno
+#include <poll.h>
 #include <sml/sml_crc16.h>
 #include <sml/sml_shared.h>
 #include <sml/sml_transport.h>
@@ -32,36 +33,35 @@ unsigned char esc_seq[] = {0x1b, 0x1b, 0x1b, 0x1b};
 unsigned char start_seq[] = {0x1b, 0x1b, 0x1b, 0x1b, 0x01, 0x01, 0x01, 0x01};
 unsigned char end_seq[] = {0x1b, 0x1b, 0x1b, 0x1b, 0x1a};
 
-size_t sml_read(int fd, fd_set *set, unsigned char *buffer, size_t len) {
+size_t sml_read(int fd, unsigned char *buffer, size_t len) {
 
 	ssize_t r = 0;
 	size_t tr = 0;
+	struct pollfd pfd = {.fd = fd, .events = POLLIN};
+
+	if (fd < 0) {
+		return 0;
+	}
 
 	while (tr < len) {
-		select(fd + 1, set, 0, 0, 0);
-		if (FD_ISSET(fd, set)) {
-
-			r = read(fd, &(buffer[tr]), len - tr);
-			if (r == 0)
-				return 0; // EOF
-			if (r < 0) {
-				if (errno == EINTR || errno == EAGAIN)
-					continue; // should be ignored
-				fprintf(stderr, "libsml: sml_read(): read error\n");
-				return 0;
-			}
-			tr += r;
+		poll(&pfd, 1, -1);
+
+		r = read(fd, &(buffer[tr]), len - tr);
+		if (r == 0)
+			return 0; // EOF
+		if (r < 0) {
+			if (errno == EINTR || errno == EAGAIN)
+				continue; // should be ignored
+			fprintf(stderr, "libsml: sml_read(): read error\n");
+			return 0;
 		}
+		tr += r;
 	}
 	return tr;
 }
 
 size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 
-	fd_set readfds;
-	FD_ZERO(&readfds);
-	FD_SET(fd, &readfds);
-
 	unsigned char *buf = buffer;
 	unsigned int len = 0;
 
@@ -72,7 +72,7 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 	}
 
 	while (len < 8) {
-		if (sml_read(fd, &readfds, &(buf[len]), 1) == 0) {
+		if (sml_read(fd, &(buf[len]), 1) == 0) {
 			return 0;
 		}
 
@@ -88,14 +88,14 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 
 	// found start sequence
 	while ((len + 8) <= max_len) {
-		if (sml_read(fd, &readfds, &(buf[len]), 4) == 0) {
+		if (sml_read(fd, &(buf[len]), 4) == 0) {
 			return 0;
 		}
 
 		if (memcmp(&buf[len], esc_seq, 4) == 0) {
 			// found esc sequence
 			len += 4;
-			if (sml_read(fd, &readfds, &(buf[len]), 4) == 0) {
+			if (sml_read(fd, &(buf[len]), 4) == 0) {
 				return 0;
 			}
 
-- 
2.43.0


From b8c7cdc50bfbb8d3ed0c08afcc486b79f8e196fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:44 +0000
Subject: [PATCH 22/23] fix: go on listening after a damaged or oversized frame

sml_transport_listen() ended for good at the first one.
---
 sml/src/sml_transport.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index bafdfe4..ee7a656 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -60,7 +60,9 @@ size_t sml_read(int fd, unsigned char *buffer, size_t len) {
 	return tr;
 }
 
-size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
+// Reads the next frame. Returns 0 if there is none: because it is damaged or does
+// not fit into the buffer or, which is reported in *end, because there is no input.
+static size_t sml_transport_read_frame(int fd, unsigned char *buffer, size_t max_len, int *end) {
 
 	unsigned char *buf = buffer;
 	unsigned int len = 0;
@@ -68,11 +70,13 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 	if (max_len < 8) {
 		// prevent buffer overflow
 		fprintf(stderr, "libsml: error: sml_transport_read(): passed buffer too small!\n");
+		*end = 1;
 		return 0;
 	}
 
 	while (len < 8) {
 		if (sml_read(fd, &(buf[len]), 1) == 0) {
+			*end = 1;
 			return 0;
 		}
 
@@ -89,6 +93,7 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 	// found start sequence
 	while ((len + 8) <= max_len) {
 		if (sml_read(fd, &(buf[len]), 4) == 0) {
+			*end = 1;
 			return 0;
 		}
 
@@ -96,6 +101,7 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 			// found esc sequence
 			len += 4;
 			if (sml_read(fd, &(buf[len]), 4) == 0) {
+				*end = 1;
 				return 0;
 			}
 
@@ -115,13 +121,22 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 	return 0;
 }
 
+size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
+	int end = 0;
+	return sml_transport_read_frame(fd, buffer, max_len, &end);
+}
+
 void sml_transport_listen(int fd, void (*sml_transport_receiver)(unsigned char *buffer,
 																 size_t buffer_len)) {
 	unsigned char buffer[MC_SML_BUFFER_LEN];
 	size_t bytes;
+	int end = 0;
 
-	while ((bytes = sml_transport_read(fd, buffer, MC_SML_BUFFER_LEN)) > 0) {
-		sml_transport_receiver(buffer, bytes);
+	while (!end) {
+		bytes = sml_transport_read_frame(fd, buffer, MC_SML_BUFFER_LEN, &end);
+		if (bytes > 0) {
+			sml_transport_receiver(buffer, bytes);
+		}
 	}
 }
 
-- 
2.43.0


From 128e7043043d0d4059d5b1ae282b45115d8108bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 23/23] fix: grow the buffer when more is written than it holds

A file of more than 512 bytes was written behind the end of the buffer
made by sml_file_init(), as the writers never checked its length.
---
 sml/include/sml/sml_shared.h |  8 ++++++--
 sml/src/sml_boolean.c        |  3 +++
 sml/src/sml_message.c        |  3 +++
 sml/src/sml_number.c         |  3 +++
 sml/src/sml_octet_string.c   |  2 +-
 sml/src/sml_shared.c         | 30 ++++++++++++++++++++++++++++++
 sml/src/sml_transport.c      |  9 +++++++++
 7 files changed, 55 insertions(+), 3 deletions(-)

diff --git a/sml/include/sml/sml_shared.h b/sml/include/sml/sml_shared.h
index 86dec36..a4ea17a 100644
--- a/sml/include/sml/sml_shared.h
+++ b/sml/include/sml/sml_shared.h
@@ -63,8 +63,8 @@ typedef int64_t i64;
 //          the cursor points to the current position during parsing
 //
 // Writing: At the beginning the buffer field is malloced and zeroed with
-//          a default length, this default length is stored in buffer_len
-//          (i.e. the maximum bytes one can write to this buffer)
+//          a default length, this default length is stored in buffer_len;
+//          the buffer grows if more is written
 //          cursor points to the position, where on can write during the
 //          writing process. If a file is completely written to the buffer,
 //          cursor is the number of bytes written to the buffer.
@@ -98,6 +98,10 @@ unsigned char sml_buf_get_current_byte(sml_buffer *buf);
 // Returns a pointer to the current buffer position.
 unsigned char *sml_buf_get_current_buf(sml_buffer *buf);
 
+// Makes sure that len more bytes can be written to the buffer. If there is no memory
+// for them, 0 is returned, an error is set, and nothing must be written.
+int sml_buf_reserve(sml_buffer *buf, size_t len);
+
 void sml_buf_optional_write(sml_buffer *buf);
 
 // Sets the number of bytes read (moves the cursor forward)
diff --git a/sml/src/sml_boolean.c b/sml/src/sml_boolean.c
index b1a8548..f247f07 100644
--- a/sml/src/sml_boolean.c
+++ b/sml/src/sml_boolean.c
@@ -62,6 +62,9 @@ void sml_boolean_write(sml_boolean *boolean, sml_buffer *buf) {
 	}
 
 	sml_buf_set_type_and_length(buf, SML_TYPE_BOOLEAN, 1);
+	if (!sml_buf_reserve(buf, 1)) {
+		return;
+	}
 	if (*boolean == SML_BOOLEAN_FALSE) {
 		buf->buffer[buf->cursor] = SML_BOOLEAN_FALSE;
 	} else {
diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index a284ceb..cf0f1a5 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -141,6 +141,9 @@ void sml_message_write(sml_message *msg, sml_buffer *buf) {
 	sml_u16_write(msg->crc, buf);
 
 	// end of message
+	if (!sml_buf_reserve(buf, 1)) {
+		return;
+	}
 	buf->buffer[buf->cursor] = 0x0;
 	buf->cursor++;
 }
diff --git a/sml/src/sml_number.c b/sml/src/sml_number.c
index dd6c383..d0107a7 100644
--- a/sml/src/sml_number.c
+++ b/sml/src/sml_number.c
@@ -135,6 +135,9 @@ void sml_number_write(void *np, unsigned char type, int size, sml_buffer *buf) {
 	}
 
 	sml_buf_set_type_and_length(buf, type, size);
+	if (!sml_buf_reserve(buf, size)) {
+		return;
+	}
 	memcpy(sml_buf_get_current_buf(buf), np, size);
 
 	if (!(sml_number_endian() == SML_BIG_ENDIAN)) {
diff --git a/sml/src/sml_octet_string.c b/sml/src/sml_octet_string.c
index 235d795..1feaba2 100644
--- a/sml/src/sml_octet_string.c
+++ b/sml/src/sml_octet_string.c
@@ -104,7 +104,7 @@ void sml_octet_string_write(octet_string *str, sml_buffer *buf) {
 	}
 
 	sml_buf_set_type_and_length(buf, SML_TYPE_OCTET_STRING, (unsigned int)str->len);
-	if (str->len > 0) {
+	if (str->len > 0 && sml_buf_reserve(buf, str->len)) {
 		memcpy(sml_buf_get_current_buf(buf), str->str, str->len);
 		buf->cursor += str->len;
 	}
diff --git a/sml/src/sml_shared.c b/sml/src/sml_shared.c
index 689ae62..649f06d 100644
--- a/sml/src/sml_shared.c
+++ b/sml/src/sml_shared.c
@@ -76,6 +76,10 @@ void sml_buf_set_type_and_length(sml_buffer *buf, unsigned int type, unsigned in
 		length += fields;
 	}
 
+	if (!sml_buf_reserve(buf, fields)) {
+		return;
+	}
+
 	// 4 bits of the length in each TL-field, the most significant ones first;
 	// the first TL-field contains the type
 	while (fields > 0) {
@@ -114,7 +118,33 @@ sml_buffer *sml_buffer_init(size_t length) {
 	return buf;
 }
 
+int sml_buf_reserve(sml_buffer *buf, size_t len) {
+	if (buf->cursor <= buf->buffer_len && len <= buf->buffer_len - buf->cursor) {
+		return 1;
+	}
+
+	size_t new_len = buf->cursor + len;
+	if (new_len < 2 * buf->buffer_len) {
+		new_len = 2 * buf->buffer_len;
+	}
+
+	unsigned char *p = (unsigned char *)realloc(buf->buffer, new_len);
+	if (p == NULL) {
+		buf->error = 1;
+		return 0;
+	}
+	memset(p + buf->buffer_len, 0, new_len - buf->buffer_len);
+	buf->buffer = p;
+	buf->buffer_len = new_len;
+
+	return 1;
+}
+
 void sml_buf_optional_write(sml_buffer *buf) {
+	if (!sml_buf_reserve(buf, 1)) {
+		return;
+	}
+
 	buf->buffer[buf->cursor] = SML_OPTIONAL_SKIPPED;
 	buf->cursor++;
 }
diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index ee7a656..27c3dd6 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -143,14 +143,23 @@ void sml_transport_listen(int fd, void (*sml_transport_receiver)(unsigned char *
 int sml_transport_write(int fd, sml_file *file) {
 	sml_buffer *buf = file->buf;
 	buf->cursor = 0;
+	buf->error = 0;
 
 	// add start sequence
+	if (!sml_buf_reserve(buf, 8)) {
+		return 0;
+	}
 	memcpy(sml_buf_get_current_buf(buf), start_seq, 8);
 	buf->cursor += 8;
 
 	// add file
 	sml_file_write(file);
 
+	// room for the padding and the end sequence
+	if (!sml_buf_reserve(buf, 3 + 8) || sml_buf_has_errors(buf)) {
+		return 0;
+	}
+
 	// add padding bytes
 	int padding = (buf->cursor % 4) ? (4 - buf->cursor % 4) : 0;
 	if (padding) {
-- 
2.43.0

