#include "build.hpp"
#include <cstdlib>
static int stdw(int nb) { return nb <= 1 ? 1 : nb <= 2 ? 2 : nb <= 4 ? 4 : 8; }
octet_string *bOct(const Node &n) {
	if (n.k == 'a') return nullptr;
	return sml_octet_string_init((unsigned char *)n.s.data(), (int)n.s.size());
}
void *bNum(const Node &n, int size) {
	if (n.k == 'a') return nullptr;
	return sml_number_init(n.v, n.k == 'i' ? SML_TYPE_INTEGER : SML_TYPE_UNSIGNED, size);
}
sml_boolean *bBool(const Node &n) { return n.k == 'a' ? nullptr : sml_boolean_init((u8)n.v); }
sml_value *bValue(const Node &n) {
	if (n.k == 'a') return nullptr;
	sml_value *v = sml_value_init();
	switch (n.k) {
	case 'o': v->type = SML_TYPE_OCTET_STRING; v->data.bytes = bOct(n); break;
	case 'b': v->type = SML_TYPE_BOOLEAN; v->data.boolean = bBool(n); break;
	default: { int w = stdw(n.nb); v->type = (u8)((n.k == 'i' ? SML_TYPE_INTEGER : SML_TYPE_UNSIGNED) | w); v->data.uint8 = (u8 *)bNum(n, w); }
	}
	return v;
}
sml_status *bStatus(const Node &n) {
	if (n.k == 'a') return nullptr;
	sml_status *s = sml_status_init();
	int w = stdw(n.nb);
	s->type = (u8)(SML_TYPE_UNSIGNED | w); s->data.status8 = (u8 *)bNum(n, w);
	return s;
}
sml_time *bTime(const Node &n) {
	if (n.k == 'a') return nullptr;
	sml_time *t = sml_time_init();
	if (n.k == 'u') { t->tag = sml_u8_init(SML_TIME_SEC_INDEX); t->data.sec_index = (u32 *)bNum(n, 4); return t; }
	t->tag = (u8 *)bNum(n.c[0], 1);
	if (n.c[1].k == 'u') t->data.timestamp = (u32 *)bNum(n.c[1], 4);
	return t;
}
sml_tree_path *bPath(const Node &n) {
	if (n.k == 'a') return nullptr;
	sml_tree_path *p = sml_tree_path_init();
	for (auto &c : n.c) sml_tree_path_add_path_entry(p, bOct(c));
	return p;
}
sml_period_entry *bPeriod(const Node &n) {
	if (n.k == 'a') return nullptr;
	sml_period_entry *e = sml_period_entry_init();
	e->obj_name = bOct(n.c[0]); e->unit = (sml_unit *)bNum(n.c[1], 1); e->scaler = (i8 *)bNum(n.c[2], 1);
	e->value = bValue(n.c[3]); e->value_signature = bOct(n.c[4]);
	return e;
}
sml_tupel_entry *bTupel(const Node &n) {
	if (n.k == 'a') return nullptr;
	sml_tupel_entry *e = sml_tupel_entry_init(); auto &c = n.c;
	e->server_id = bOct(c[0]); e->sec_index = bTime(c[1]); e->status = (u64 *)bNum(c[2], 8);
#define TR(x, i) e->unit_##x = (sml_unit *)bNum(c[i], 1); e->scaler_##x = (i8 *)bNum(c[i + 1], 1); e->value_##x = (i64 *)bNum(c[i + 2], 8);
	TR(pA, 3) TR(R1, 6) TR(R4, 9)
	e->signature_pA_R1_R4 = bOct(c[12]);
	TR(mA, 13) TR(R2, 16) TR(R3, 19)
	e->signature_mA_R2_R3 = bOct(c[22]);
	return e;
}
sml_proc_par_value *bPpv(const Node &n) {
	if (n.k == 'a') return nullptr;
	sml_proc_par_value *p = sml_proc_par_value_init();
	p->tag = (u8 *)bNum(n.c[0], 1);
	switch (n.c[0].v) {
	case 1: p->data.value = bValue(n.c[1]); break;
	case 2: p->data.period_entry = bPeriod(n.c[1]); break;
	case 3: p->data.tupel_entry = bTupel(n.c[1]); break;
	case 4: p->data.time = bTime(n.c[1]); break;
	}
	return p;
}
sml_tree *bTree(const Node &n) {
	if (n.k == 'a') return nullptr;
	sml_tree *t = sml_tree_init();
	t->parameter_name = bOct(n.c[0]); t->parameter_value = bPpv(n.c[1]);
	if (n.c[2].k == 'l') for (auto &c : n.c[2].c) sml_tree_add_tree(t, bTree(c));
	return t;
}
sml_list *bList(const Node &n) {
	if (n.k == 'a') return nullptr;
	sml_list *first = nullptr, *last = nullptr;
	for (auto &e : n.c) {
		sml_list *l = sml_list_init(); auto &c = e.c;
		l->obj_name = bOct(c[0]); l->status = bStatus(c[1]); l->val_time = bTime(c[2]); l->unit = (sml_unit *)bNum(c[3], 1);
		l->scaler = (i8 *)bNum(c[4], 1); l->value = bValue(c[5]); l->value_signature = bOct(c[6]);
		if (last) sml_list_add(last, l); else first = l;
		last = l;
	}
	return first;
}
sml_prof_obj_header_entry *bHdr(const Node &n) {
	sml_prof_obj_header_entry *e = sml_prof_obj_header_entry_init();
	e->obj_name = bOct(n.c[0]); e->unit = (sml_unit *)bNum(n.c[1], 1); e->scaler = (i8 *)bNum(n.c[2], 1);
	return e;
}
sml_value_entry *bVEntry(const Node &n) {
	sml_value_entry *e = sml_value_entry_init();
	e->value = bValue(n.c[0]); e->value_signature = bOct(n.c[1]);
	return e;
}
static void fHdr(void *p) { sml_prof_obj_header_entry_free((sml_prof_obj_header_entry *)p); }
static void fPope(void *p) { sml_prof_obj_period_entry_free((sml_prof_obj_period_entry *)p); }
static void fVE(void *p) { sml_value_entry_free((sml_value_entry *)p); }
static void fPer(void *p) { sml_period_entry_free((sml_period_entry *)p); }
template <class F> static sml_sequence *bSeq(const Node &n, void (*fr)(void *), F f) {
	sml_sequence *s = sml_sequence_init(fr);
	for (auto &c : n.c) sml_sequence_add(s, (void *)f(c));
	return s;
}
sml_prof_obj_period_entry *bPope(const Node &n) {
	sml_prof_obj_period_entry *e = sml_prof_obj_period_entry_init();
	e->val_time = bTime(n.c[0]); e->status = (u64 *)bNum(n.c[1], 8);
	e->value_list = bSeq(n.c[2], fVE, bVEntry);
	e->period_signature = bOct(n.c[3]);
	return e;
}
void *bBodyData(uint32_t tag, const Node &d) {
	auto &c = d.c;
#define O(f, i) m->f = bOct(c[i])
	switch (tag) {
	case 0x100: { auto *m = sml_open_request_init(); O(codepage, 0); O(client_id, 1); O(req_file_id, 2); O(server_id, 3); O(username, 4); O(password, 5); m->sml_version = (u8 *)bNum(c[6], 1); return m; }
	case 0x101: { auto *m = sml_open_response_init(); O(codepage, 0); O(client_id, 1); O(req_file_id, 2); O(server_id, 3); m->ref_time = bTime(c[4]); m->sml_version = (u8 *)bNum(c[5], 1); return m; }
	case 0x200: { auto *m = sml_close_request_init(); O(global_signature, 0); return m; }
	case 0x201: { auto *m = sml_close_response_init(); O(global_signature, 0); return m; }
	case 0x300: case 0x400: {
		auto *m = sml_get_profile_pack_request_init(); O(server_id, 0); O(username, 1); O(password, 2); m->with_rawdata = bBool(c[3]);
		m->begin_time = bTime(c[4]); m->end_time = bTime(c[5]); m->parameter_tree_path = bPath(c[6]);
		sml_obj_req_entry_list *last = nullptr;
		if (c[7].k == 'l') for (auto &e : c[7].c) {
			auto *l = (sml_obj_req_entry_list *)malloc(sizeof(sml_obj_req_entry_list));
			l->object_list_entry = bOct(e); l->next = nullptr;
			if (last) last->next = l; else m->object_list = l;
			last = l;
		}
		m->das_details = bTree(c[8]); return m; }
	case 0x301: { auto *m = sml_get_profile_pack_response_init(); O(server_id, 0); m->act_time = bTime(c[1]); m->reg_period = (u32 *)bNum(c[2], 4); m->parameter_tree_path = bPath(c[3]);
		m->header_list = bSeq(c[4], fHdr, bHdr); m->period_list = bSeq(c[5], fPope, bPope); O(rawdata, 6); O(profile_signature, 7); return m; }
	case 0x401: { auto *m = sml_get_profile_list_response_init(); O(server_id, 0); m->act_time = bTime(c[1]); m->reg_period = (u32 *)bNum(c[2], 4); m->parameter_tree_path = bPath(c[3]);
		m->val_time = bTime(c[4]); m->status = (u64 *)bNum(c[5], 8); m->period_list = bSeq(c[6], fPer, bPeriod); O(rawdata, 7); O(period_signature, 8); return m; }
	case 0x500: { auto *m = sml_get_proc_parameter_request_init(); O(server_id, 0); O(username, 1); O(password, 2); m->parameter_tree_path = bPath(c[3]); O(attribute, 4); return m; }
	case 0x501: { auto *m = sml_get_proc_parameter_response_init(); O(server_id, 0); m->parameter_tree_path = bPath(c[1]); m->parameter_tree = bTree(c[2]); return m; }
	case 0x600: { auto *m = sml_set_proc_parameter_request_init(); O(server_id, 0); O(username, 1); O(password, 2); m->parameter_tree_path = bPath(c[3]); m->parameter_tree = bTree(c[4]); return m; }
	case 0x700: { auto *m = sml_get_list_request_init(); O(client_id, 0); O(server_id, 1); O(username, 2); O(password, 3); O(list_name, 4); return m; }
	case 0x701: { auto *m = sml_get_list_response_init(); O(client_id, 0); O(server_id, 1); O(list_name, 2); m->act_sensor_time = bTime(c[3]); m->val_list = bList(c[4]); O(list_signature, 5); m->act_gateway_time = bTime(c[6]); return m; }
	case 0xff01: { auto *m = sml_attention_response_init(); O(server_id, 0); O(attention_number, 1); O(attention_message, 2); m->attention_details = bTree(c[3]); return m; }
	}
	abort();
}
sml_message_body *bBody(const Node &n) { return sml_message_body_init((u32)n.c[0].v, bBodyData((uint32_t)n.c[0].v, n.c[1])); }
sml_message *bMsg(const Msg &m) {
	sml_message *x = sml_message_init();
	sml_octet_string_free(x->transaction_id);
	x->transaction_id = bOct(m.tid);
	x->group_id = (u8 *)bNum(m.gid, 1); x->abort_on_error = (u8 *)bNum(m.abort, 1);
	x->message_body = bBody(m.body);
	return x;
}
