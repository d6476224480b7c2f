// Canonical textual form of everything libsml can deliver.  Pure C so that it
// can be compiled with the same instrumentation as the library (ASan: reads of
// freed or foreign memory, MSan: uninitialised fields).
#include "vf.h"
#include <string.h>
#ifdef VF_WRAP
void *__real_realloc(void *, size_t);
void __real_free(void *);
#define RREALLOC __real_realloc
#define RFREE __real_free
#else
#define RREALLOC realloc
#define RFREE free
#endif

void vo_reset(vf_out *o) { o->len = 0; if (o->p) o->p[0] = 0; }
void vo_free(vf_out *o) { RFREE(o->p); o->p = 0; o->len = o->cap = 0; }
static void need(vf_out *o, size_t n) {
	if (o->len + n + 1 > o->cap) {
		size_t c = o->cap ? o->cap * 2 : 4096;
		while (c < o->len + n + 1) c *= 2;
		o->p = RREALLOC(o->p, c);
		o->cap = c;
	}
}
void vo_ch(vf_out *o, char c) { need(o, 1); o->p[o->len++] = c; o->p[o->len] = 0; }
void vo_str(vf_out *o, const char *s) { while (*s) vo_ch(o, *s++); }
static void num(vf_out *o, uint64_t v) {
	char t[24]; int n = 0;
	do { t[n++] = (char)('0' + v % 10); v /= 10; } while (v);
	while (n) vo_ch(o, t[--n]);
}
void vd_u(vf_out *o, const char *pre, uint64_t v) { vo_str(o, pre); num(o, v); }
void vd_i(vf_out *o, const char *pre, int64_t v) {
	vo_str(o, pre);
	if (v < 0) { vo_ch(o, '-'); num(o, 0 - (uint64_t)v); } else num(o, (uint64_t)v);
}
#define ABSENT(p) if (!(p)) { vo_ch(o, '-'); return; }
void vd_oct(vf_out *o, const octet_string *s, int opt) {
	ABSENT(s)
	if ((opt & VD_ENC) && s->len == 0) { vo_ch(o, '-'); return; }
	static const char h[] = "0123456789abcdef";
	vo_ch(o, 'x');
	if (s->len < 0) { vo_str(o, "NEGLEN"); return; }
	for (int i = 0; i < s->len; i++) { vo_ch(o, h[s->str[i] >> 4]); vo_ch(o, h[s->str[i] & 15]); }
}
void vd_u8(vf_out *o, const u8 *p) { ABSENT(p) vd_u(o, "u", *p); }
void vd_u16(vf_out *o, const u16 *p) { ABSENT(p) vd_u(o, "u", *p); }
void vd_u32(vf_out *o, const u32 *p) { ABSENT(p) vd_u(o, "u", *p); }
void vd_u64(vf_out *o, const u64 *p) { ABSENT(p) vd_u(o, "u", *p); }
void vd_i8(vf_out *o, const i8 *p) { ABSENT(p) vd_i(o, "i", *p); }
void vd_i16(vf_out *o, const i16 *p) { ABSENT(p) vd_i(o, "i", *p); }
void vd_i32(vf_out *o, const i32 *p) { ABSENT(p) vd_i(o, "i", *p); }
void vd_i64(vf_out *o, const i64 *p) { ABSENT(p) vd_i(o, "i", *p); }
int vd_raw; // the stored byte of a boolean, not only its truth
void vd_bool(vf_out *o, const sml_boolean *b) { ABSENT(b) if (vd_raw) { vo_ch(o, 'b'); num(o, *b); return; } vo_str(o, *b ? "b1" : "b0"); }
void vd_value(vf_out *o, const sml_value *v, int opt) {
	ABSENT(v)
	switch (v->type) {
	case SML_TYPE_OCTET_STRING:
		if ((opt & VD_ENC) && (!v->data.bytes || v->data.bytes->len == 0)) { vo_ch(o, '-'); return; }
		vo_ch(o, 'v'); vd_oct(o, v->data.bytes, opt); break;
	case SML_TYPE_BOOLEAN: vo_ch(o, 'v'); vd_bool(o, v->data.boolean); break;
	case 0x51: vo_str(o, "v8"); vd_i8(o, v->data.int8); break;
	case 0x52: vo_str(o, "v16"); vd_i16(o, v->data.int16); break;
	case 0x54: vo_str(o, "v32"); vd_i32(o, v->data.int32); break;
	case 0x58: vo_str(o, "v64"); vd_i64(o, v->data.int64); break;
	case 0x61: vo_str(o, "v8"); vd_u8(o, v->data.uint8); break;
	case 0x62: vo_str(o, "v16"); vd_u16(o, v->data.uint16); break;
	case 0x64: vo_str(o, "v32"); vd_u32(o, v->data.uint32); break;
	case 0x68: vo_str(o, "v64"); vd_u64(o, v->data.uint64); break;
	default: vd_u(o, "vBADTYPE", v->type);
	}
}
void vd_status(vf_out *o, const sml_status *s) {
	ABSENT(s)
	switch (s->type) {
	case 0x61: vo_str(o, "s8"); vd_u8(o, s->data.status8); break;
	case 0x62: vo_str(o, "s16"); vd_u16(o, s->data.status16); break;
	case 0x64: vo_str(o, "s32"); vd_u32(o, s->data.status32); break;
	case 0x68: vo_str(o, "s64"); vd_u64(o, s->data.status64); break;
	default: vd_u(o, "sBADTYPE", s->type);
	}
}
void vd_time(vf_out *o, const sml_time *t, int opt) {
	ABSENT(t)
	if ((opt & VD_ENC) && !t->data.sec_index) { vo_ch(o, '-'); return; }
	vo_str(o, "t(");
	vd_u8(o, t->tag);
	vo_ch(o, ',');
	vd_u32(o, t->data.sec_index);
	vo_ch(o, ')');
}
void vd_path(vf_out *o, const sml_tree_path *t, int opt) {
	ABSENT(t)
	vo_str(o, "P[");
	for (int i = 0; i < t->path_entries_len; i++) { vd_oct(o, t->path_entries[i], opt); vo_ch(o, ' '); }
	vo_ch(o, ']');
}
void vd_period(vf_out *o, const sml_period_entry *t, int opt) {
	ABSENT(t)
	vo_str(o, "pe("); vd_oct(o, t->obj_name, opt);
	vo_ch(o, ' '); vd_u8(o, t->unit);
	vo_ch(o, ' '); vd_i8(o, t->scaler);
	vo_ch(o, ' '); vd_value(o, t->value, opt);
	vo_ch(o, ' '); vd_oct(o, t->value_signature, opt);
	vo_ch(o, ')');
}
void vd_tupel(vf_out *o, const sml_tupel_entry *t, int opt) {
	ABSENT(t)
	vo_str(o, "te("); vd_oct(o, t->server_id, opt);
	vo_ch(o, ' '); vd_time(o, t->sec_index, opt);
	vo_ch(o, ' '); vd_u64(o, t->status);
#define TRIP(x) vo_ch(o, ' '); vd_u8(o, t->unit_##x); vo_ch(o, ' '); vd_i8(o, t->scaler_##x); vo_ch(o, ' '); vd_i64(o, t->value_##x);
	TRIP(pA) TRIP(R1) TRIP(R4)
	vo_ch(o, ' '); vd_oct(o, t->signature_pA_R1_R4, opt);
	TRIP(mA) TRIP(R2) TRIP(R3)
	vo_ch(o, ' '); vd_oct(o, t->signature_mA_R2_R3, opt);
	vo_ch(o, ')');
}
void vd_ppv(vf_out *o, const sml_proc_par_value *v, int opt) {
	ABSENT(v)
	vo_str(o, "p("); vd_u8(o, v->tag); vo_ch(o, ' ');
	if (v->tag) switch (*v->tag) {
	case 1: vd_value(o, v->data.value, opt); break;
	case 2: vd_period(o, v->data.period_entry, opt); break;
	case 3: vd_tupel(o, v->data.tupel_entry, opt); break;
	case 4: vd_time(o, v->data.time, opt); break;
	default: vo_str(o, "BADTAG");
	}
	vo_ch(o, ')');
}
void vd_tree(vf_out *o, const sml_tree *t, int opt) {
	ABSENT(t)
	vo_str(o, "T("); vd_oct(o, t->parameter_name, opt);
	vo_ch(o, ' '); vd_ppv(o, t->parameter_value, opt);
	vo_str(o, " [");
	for (int i = 0; i < t->child_list_len; i++) { vd_tree(o, t->child_list[i], opt); vo_ch(o, ' '); }
	vo_str(o, "])");
}
void vd_list(vf_out *o, const sml_list *l, int opt) {
	ABSENT(l)
	vo_str(o, "L[");
	for (; l; l = l->next) {
		vo_str(o, "e("); vd_oct(o, l->obj_name, opt);
		vo_ch(o, ' '); vd_status(o, l->status);
		vo_ch(o, ' '); vd_time(o, l->val_time, opt);
		vo_ch(o, ' '); vd_u8(o, l->unit);
		vo_ch(o, ' '); vd_i8(o, l->scaler);
		vo_ch(o, ' '); vd_value(o, l->value, opt);
		vo_ch(o, ' '); vd_oct(o, l->value_signature, opt);
		vo_str(o, ") ");
	}
	vo_ch(o, ']');
}
void vd_hdr(vf_out *o, const sml_prof_obj_header_entry *e, int opt) {
	ABSENT(e)
	vo_str(o, "h("); vd_oct(o, e->obj_name, opt);
	vo_ch(o, ' '); vd_u8(o, e->unit);
	vo_ch(o, ' '); vd_i8(o, e->scaler);
	vo_ch(o, ')');
}
void vd_ventry(vf_out *o, const sml_value_entry *e, int opt) {
	ABSENT(e)
	vo_str(o, "ve("); vd_value(o, e->value, opt);
	vo_ch(o, ' '); vd_oct(o, e->value_signature, opt);
	vo_ch(o, ')');
}
typedef void (*edump)(vf_out *, const void *, int);
static void vd_seq(vf_out *o, const sml_sequence *s, edump f, int opt) {
	ABSENT(s)
	vo_str(o, "S[");
	for (int i = 0; i < s->elems_len; i++) { f(o, s->elems[i], opt); vo_ch(o, ' '); }
	vo_ch(o, ']');
}
static void e_ventry(vf_out *o, const void *e, int opt) { vd_ventry(o, e, opt); }
void vd_pope(vf_out *o, const sml_prof_obj_period_entry *e, int opt) {
	ABSENT(e)
	vo_str(o, "op("); vd_time(o, e->val_time, opt);
	vo_ch(o, ' '); vd_u64(o, e->status);
	vo_ch(o, ' '); vd_seq(o, e->value_list, e_ventry, opt);
	vo_ch(o, ' '); vd_oct(o, e->period_signature, opt);
	vo_ch(o, ')');
}
static void e_hdr(vf_out *o, const void *e, int opt) { vd_hdr(o, e, opt); }
static void e_pope(vf_out *o, const void *e, int opt) { vd_pope(o, e, opt); }
static void e_period(vf_out *o, const void *e, int opt) { vd_period(o, e, opt); }

void vd_bodydata(vf_out *o, uint32_t tag, const void *data, int opt) {
	ABSENT(data)
#define S vo_ch(o, ' ');
#define OCT(f) vd_oct(o, d->f, opt);
	vo_ch(o, '(');
	switch (tag) {
	case SML_MESSAGE_OPEN_REQUEST: {
		const sml_open_request *d = data;
		OCT(codepage) S OCT(client_id) S OCT(req_file_id) S OCT(server_id) S OCT(username) S OCT(password) S vd_u8(o, d->sml_version);
		break; }
	case SML_MESSAGE_OPEN_RESPONSE: {
		const sml_open_response *d = data;
		OCT(codepage) S OCT(client_id) S OCT(req_file_id) S OCT(server_id) S vd_time(o, d->ref_time, opt); S vd_u8(o, d->sml_version);
		break; }
	case SML_MESSAGE_CLOSE_REQUEST:
	case SML_MESSAGE_CLOSE_RESPONSE: {
		const sml_close_request *d = data;
		OCT(global_signature)
		break; }
	case SML_MESSAGE_GET_PROFILE_PACK_REQUEST:
	case SML_MESSAGE_GET_PROFILE_LIST_REQUEST: {
		const sml_get_profile_pack_request *d = data;
		OCT(server_id) S OCT(username) S OCT(password) S vd_bool(o, d->with_rawdata); S vd_time(o, d->begin_time, opt); S
		vd_time(o, d->end_time, opt); S vd_path(o, d->parameter_tree_path, opt); S
		if (d->object_list) {
			vo_str(o, "O[");
			for (const sml_obj_req_entry_list *l = d->object_list; l; l = l->next) { vd_oct(o, l->object_list_entry, opt); vo_ch(o, ' '); }
			vo_ch(o, ']');
		} else vo_ch(o, '-');
		S vd_tree(o, d->das_details, opt);
		break; }
	case SML_MESSAGE_GET_PROFILE_PACK_RESPONSE: {
		const sml_get_profile_pack_response *d = data;
		OCT(server_id) S vd_time(o, d->act_time, opt); S vd_u32(o, d->reg_period); S vd_path(o, d->parameter_tree_path, opt); S
		vd_seq(o, d->header_list, e_hdr, opt); S vd_seq(o, d->period_list, e_pope, opt); S OCT(rawdata) S OCT(profile_signature)
		break; }
	case SML_MESSAGE_GET_PROFILE_LIST_RESPONSE: {
		const sml_get_profile_list_response *d = data;
		OCT(server_id) S vd_time(o, d->act_time, opt); S vd_u32(o, d->reg_period); S vd_path(o, d->parameter_tree_path, opt); S
		vd_time(o, d->val_time, opt); S vd_u64(o, d->status); S vd_seq(o, d->period_list, e_period, opt); S OCT(rawdata) S OCT(period_signature)
		break; }
	case SML_MESSAGE_GET_PROC_PARAMETER_REQUEST: {
		const sml_get_proc_parameter_request *d = data;
		OCT(server_id) S OCT(username) S OCT(password) S vd_path(o, d->parameter_tree_path, opt); S OCT(attribute)
		break; }
	case SML_MESSAGE_GET_PROC_PARAMETER_RESPONSE: {
		const sml_get_proc_parameter_response *d = data;
		OCT(server_id) S vd_path(o, d->parameter_tree_path, opt); S vd_tree(o, d->parameter_tree, opt);
		break; }
	case SML_MESSAGE_SET_PROC_PARAMETER_REQUEST: {
		const sml_set_proc_parameter_request *d = data;
		OCT(server_id) S OCT(username) S OCT(password) S vd_path(o, d->parameter_tree_path, opt); S vd_tree(o, d->parameter_tree, opt);
		break; }
	case SML_MESSAGE_GET_LIST_REQUEST: {
		const sml_get_list_request *d = data;
		OCT(client_id) S OCT(server_id) S OCT(username) S OCT(password) S OCT(list_name)
		break; }
	case SML_MESSAGE_GET_LIST_RESPONSE: {
		const sml_get_list_response *d = data;
		OCT(client_id) S OCT(server_id) S OCT(list_name) S vd_time(o, d->act_sensor_time, opt); S vd_list(o, d->val_list, opt); S
		OCT(list_signature) S vd_time(o, d->act_gateway_time, opt);
		break; }
	case SML_MESSAGE_ATTENTION_RESPONSE: {
		const sml_attention_response *d = data;
		OCT(server_id) S OCT(attention_number) S OCT(attention_message) S vd_tree(o, d->attention_details, opt);
		break; }
	default: vo_str(o, "UNKNOWN");
	}
	vo_ch(o, ')');
}
void vd_body(vf_out *o, const sml_message_body *b, int opt) {
	if (!b) { vo_str(o, "NOBODY"); return; }
	if (!b->tag) { vo_str(o, "NOTAG"); return; }
	vd_u(o, "B", *b->tag);
	vd_bodydata(o, *b->tag, b->data, opt);
}
void vd_message(vf_out *o, const sml_message *m, int opt) {
	if (!m) { vo_str(o, "NULLMSG"); return; }
	vo_str(o, "M("); vd_oct(o, m->transaction_id, opt);
	vo_ch(o, ' '); vd_u8(o, m->group_id);
	vo_ch(o, ' '); vd_u8(o, m->abort_on_error);
	vo_ch(o, ' '); vd_body(o, m->message_body, opt);
	vo_ch(o, ')');
}
void vd_file(vf_out *o, const sml_file *f, int opt) {
	for (int i = 0; i < f->messages_len; i++) { vd_message(o, f->messages[i], opt); vo_ch(o, '\n'); }
}
