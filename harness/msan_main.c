// C01: the library under MemorySanitizer, in pure C (an uninstrumented C++
// runtime would be reported).  Reads recorded inputs:
//   u32 length of name, name, u32 cursor, u32 length, bytes
// name "file": a whole file; "stream": a transport stream; else an element parser.
#define _GNU_SOURCE
#include "vf.h"
#include <sanitizer/msan_interface.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

typedef struct { const char *name; void *(*parse)(sml_buffer *); void (*fre)(void *); void (*write)(void *, sml_buffer *); uint32_t tag; int num; } el;
#define P(id, type, l) static void *p_##id(sml_buffer *b) { return l##_parse(b); } static void f_##id(void *p) { l##_free((type *)p); } static void w_##id(void *p, sml_buffer *b) { l##_write((type *)p, b); }
#define N(x) static void *p_##x(sml_buffer *b) { return sml_##x##_parse(b); } static void w_##x(void *p, sml_buffer *b) { sml_##x##_write((x *)p, b); }
N(u8) N(u16) N(u32) N(u64) N(i8) N(i16) N(i32) N(i64)
static void f_num(void *p) { sml_number_free(p); }
P(oct, octet_string, sml_octet_string) P(bool, sml_boolean, sml_boolean) P(value, sml_value, sml_value) P(status, sml_status, sml_status) P(time, sml_time, sml_time)
P(path, sml_tree_path, sml_tree_path) P(tree, sml_tree, sml_tree) P(list, sml_list, sml_list) P(ppv, sml_proc_par_value, sml_proc_par_value) P(tupel, sml_tupel_entry, sml_tupel_entry)
P(period, sml_period_entry, sml_period_entry) P(hdr, sml_prof_obj_header_entry, sml_prof_obj_header_entry) P(pope, sml_prof_obj_period_entry, sml_prof_obj_period_entry)
P(ventry, sml_value_entry, sml_value_entry) P(body, sml_message_body, sml_message_body)
P(m100, sml_open_request, sml_open_request) P(m101, sml_open_response, sml_open_response) P(m200, sml_close_request, sml_close_request) P(m201, sml_close_response, sml_close_response)
P(m300, sml_get_profile_pack_request, sml_get_profile_pack_request) P(m301, sml_get_profile_pack_response, sml_get_profile_pack_response)
P(m400, sml_get_profile_list_request, sml_get_profile_list_request) P(m401, sml_get_profile_list_response, sml_get_profile_list_response)
P(m500, sml_get_proc_parameter_request, sml_get_proc_parameter_request) P(m501, sml_get_proc_parameter_response, sml_get_proc_parameter_response)
P(m600, sml_set_proc_parameter_request, sml_set_proc_parameter_request) P(m700, sml_get_list_request, sml_get_list_request) P(m701, sml_get_list_response, sml_get_list_response) P(mff01, sml_attention_response, sml_attention_response)
static void *sv(sml_buffer *b) { return sml_value_entry_parse(b); } static void svf(void *p) { sml_value_entry_free(p); } static void svw(void *p, sml_buffer *b) { sml_value_entry_write(p, b); }
static void *p_vseq(sml_buffer *b) { return sml_sequence_parse(b, sv, svf); } static void f_vseq(void *p) { sml_sequence_free(p); } static void w_vseq(void *p, sml_buffer *b) { sml_sequence_write(p, b, svw); }
#define E(n, id) {n, p_##id, f_##id, w_##id, 0, 0}
#define EN(n, id, s) {n, p_##id, f_num, w_##id, 0, s}
#define EM(n, t, id) {n, p_##id, f_##id, w_##id, t, 0}
static const el els[] = {
	E("octet_string", oct), EN("u8", u8, 1), EN("u16", u16, 2), EN("u32", u32, 4), EN("u64", u64, 8), EN("i8", i8, 1), EN("i16", i16, 2), EN("i32", i32, 4), EN("i64", i64, 8),
	E("boolean", bool), E("value", value), E("status", status), E("time", time), E("tree_path", path), E("tree", tree), E("list", list), E("proc_par_value", ppv), E("tupel_entry", tupel),
	E("period_entry", period), E("header_entry", hdr), E("period_obj_entry", pope), E("value_entry", ventry), E("sequence", vseq), E("message_body", body),
	EM("open_request", 0x100, m100), EM("open_response", 0x101, m101), EM("close_request", 0x200, m200), EM("close_response", 0x201, m201),
	EM("profile_pack_request", 0x300, m300), EM("profile_pack_response", 0x301, m301), EM("profile_list_request", 0x400, m400), EM("profile_list_response", 0x401, m401),
	EM("get_proc_parameter_request", 0x500, m500), EM("get_proc_parameter_response", 0x501, m501), EM("set_proc_parameter_request", 0x600, m600),
	EM("get_list_request", 0x700, m700), EM("get_list_response", 0x701, m701), EM("attention_response", 0xff01, mff01)};
static vf_out O;
static void defined(const void *p, size_t n) { if (n) __msan_check_mem_is_initialized(p, n); }
static void dumped(void) { defined(O.p, O.len); }
static void value(sml_value *v) {
	if (!v) return;
	int k = v->type & SML_TYPE_FIELD;
	if (k == SML_TYPE_INTEGER || k == SML_TYPE_UNSIGNED) { double d = sml_value_to_double(v); defined(&d, 8); }
	else if (v->type == SML_TYPE_OCTET_STRING) for (int m = 0; m < 2; m++) { char *s = NULL, *r = sml_value_to_strhex(v, &s, m); if (r) { defined(r, strlen(r) + 1); free(s); } }
}
static void rewrite(sml_file *f) { f->buf->cursor = 0; sml_file_write(f); defined(f->buf->buffer, f->buf->cursor); }
static void file(unsigned char *b, size_t n) {
	sml_file *f = sml_file_parse(b, n);
	vo_reset(&O); vd_file(&O, f, 0); dumped();
	octet_string *prev = NULL;
	for (int i = 0; i < f->messages_len; i++) {
		sml_message *m = f->messages[i];
		if (*m->message_body->tag == SML_MESSAGE_GET_LIST_RESPONSE) for (sml_list *l = ((sml_get_list_response *)m->message_body->data)->val_list; l; l = l->next) {
			value(l->value); char h[] = "0100010800ff"; int x = sml_octet_string_cmp_with_hex(l->obj_name, h); defined(&x, sizeof x);
			if (prev) { x = sml_octet_string_cmp(prev, l->obj_name); defined(&x, sizeof x); } prev = l->obj_name;
		}
	}
	sml_file_print(f); rewrite(f); rewrite(f); sml_file_free(f);
}
static void heard(unsigned char *b, size_t n) { defined(b, n); if (n >= 16) file(b + 8, n - 16); }
static void stream(const unsigned char *b, size_t n, size_t cap) {
	int fd = memfd_create("s", 0); if (write(fd, b, n) != (ssize_t)n) _exit(7);
	lseek(fd, 0, SEEK_SET); sml_transport_listen(fd, heard);
	lseek(fd, 0, SEEK_SET);
	for (int k = 0; k < 400; k++) { unsigned char *u = malloc(cap); size_t m = sml_transport_read(fd, u, cap); if (m) heard(u, m); free(u); if (!m && lseek(fd, 0, SEEK_CUR) >= (off_t)n) break; }
	close(fd);
}
static void element(const el *e, const unsigned char *b, size_t n, size_t cur) {
	sml_buffer *u = sml_buffer_init(n); memcpy(u->buffer, b, n); u->cursor = cur;
	void *o = e->parse(u); defined(&u->cursor, sizeof u->cursor); defined(&u->error, sizeof u->error);
	if (o && !u->error) {
		if (e->num) defined(o, (size_t)e->num);
		if (e->tag) { vo_reset(&O); vd_bodydata(&O, e->tag, o, 0); dumped(); }
		if (!strcmp(e->name, "value")) value(o);
		sml_buffer *w = sml_buffer_init(8); e->write(o, w); defined(w->buffer, w->cursor); sml_buffer_free(w);
	}
	if (o) e->fre(o);
	sml_buffer_free(u);
}
#define FRESH(l) do { void *o = l##_init(); sml_buffer *w = sml_buffer_init(4); l##_write(o, w); defined(w->buffer, w->cursor); sml_buffer_free(w); l##_free(o); } while (0)
#define FREED(l) do { void *o = l##_init(); l##_free(o); } while (0)
static void fresh(void) {
	FREED(sml_open_request); FREED(sml_open_response); FREED(sml_close_request); FREED(sml_close_response); FREED(sml_get_profile_pack_request); FREED(sml_get_profile_pack_response); FREED(sml_get_profile_list_response);
	FREED(sml_get_proc_parameter_request); FREED(sml_get_proc_parameter_response); FREED(sml_set_proc_parameter_request); FREED(sml_get_list_request); FREED(sml_get_list_response); FREED(sml_attention_response);
	FREED(sml_status); FREED(sml_time); FREED(sml_tree); FREED(sml_tree_path); FREED(sml_proc_par_value); FREED(sml_tupel_entry); FREED(sml_period_entry); FREED(sml_value); FREED(sml_list); FREED(sml_file);
	FREED(sml_prof_obj_header_entry); FREED(sml_prof_obj_period_entry); FREED(sml_value_entry); FREED(sml_message);
	FRESH(sml_open_request); FRESH(sml_open_response); FRESH(sml_close_request); FRESH(sml_close_response); FRESH(sml_get_profile_pack_response);
	FRESH(sml_get_list_request); FRESH(sml_get_list_response); FRESH(sml_attention_response); FRESH(sml_tree_path); FRESH(sml_tree); FRESH(sml_prof_obj_header_entry); FRESH(sml_list);
	for (int k = 0; k < 200; k++) { octet_string *s = sml_octet_string_generate_uuid(); defined(s->str, (size_t)s->len); sml_octet_string_free(s); }
}
int main(int argc, char **argv) {
	if (argc < 3) return 8;
	FILE *f = fopen(argv[1], "rb"); if (!f) return 8;
	int crumb = -1; crumb = memfd_create("c", 0); (void)crumb;
	FILE *res = fopen(argv[2], "w"); if (!res) return 8;
	long only = argc > 3 ? atol(argv[3]) : -1;
	if (!freopen("/dev/null", "w", stdout)) return 9;
	if (!getenv("VF_STDERR") && !freopen("/dev/null", "w", stderr)) return 9;
	fresh();
	long i = 0; uint32_t l;
	while (fread(&l, 4, 1, f) == 1) {
		char name[64]; uint32_t cur, n; if (l > 60 || fread(name, 1, l, f) != l) return 8; name[l] = 0;
		if (fread(&cur, 4, 1, f) != 1 || fread(&n, 4, 1, f) != 1) return 8;
		unsigned char *b = malloc(n ? n : 1); if (fread(b, 1, n, f) != n) return 8;
		if (only < 0 || only == i) {
			rewind(res); fprintf(res, "%ld %s            \n", i, name); fflush(res);
			if (!strcmp(name, "file")) file(b, n);
			else if (!strcmp(name, "stream")) stream(b, n, cur);
			else { size_t k = 0, m = sizeof els / sizeof *els; while (k < m && strcmp(els[k].name, name)) k++; if (k == m) return 8; element(&els[k], b, n, cur); }
		}
		free(b); i++;
	}
	rewind(res); fprintf(res, "%ld done            \n", i); fclose(res);
	return 0;
}
