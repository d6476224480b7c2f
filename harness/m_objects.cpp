// C21: objects keep their content; what is added is appended; looking at an object changes nothing.
#include "core.hpp"
#include <algorithm>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>

struct Slot { sml_file *f = nullptr; std::vector<Msg> ms; std::vector<Bytes> want; std::map<Bytes, Bytes> said; bool parsed = false; };
static Bytes wantOf(const Msg &m) { Bytes b = encMsg(m); RefFile rf = refFile(b); if (rf.msgs.size() != 1) { fprintf(stderr, "harness: generator\n"); _exit(7); } return rf.msgs[0].dump; }
static void allAsExpected(Ctx &c, const std::vector<Slot> &ss, const Bytes &after) {
	for (size_t k = 0; k < ss.size(); k++) {
		if (!ss[k].f) continue;
		std::vector<Bytes> got = dumpFile(ss[k].f, VD_ENC);
		if (got == ss[k].want) continue;
		size_t i = 0; while (i < got.size() && i < ss[k].want.size() && got[i] == ss[k].want[i]) i++;
		Bytes g = i < got.size() ? got[i] : "(nothing)", w = i < ss[k].want.size() ? ss[k].want[i] : "(nothing)";
		size_t d = 0; while (d < g.size() && d < w.size() && g[d] == w[d]) d++; d = d > 60 ? d - 60 : 0;
		c.fail("content", "after " + after + " message " + std::to_string(i) + " of " + (ss[k].parsed ? "parsed" : "built") + " file " + std::to_string(k) + " holds ..." + g.substr(std::min(d, g.size()), 200) + " instead of ..." + w.substr(std::min(d, w.size()), 200));
	}
	c.note("contents compared");
}
// every object of every file as it is stored, with what encoding would even out
static Bytes stored(const std::vector<Slot> &ss) {
	Bytes a; vd_raw = 1;
	for (auto &s : ss) if (s.f) { for (auto &d : dumpFile(s.f, 0)) a += d + '\n'; a += "--\n"; }
	vd_raw = 0; return a;
}
// an answer given again has to be the same
static void again(Ctx &c, Slot &s, const Bytes &q, const Bytes &a) {
	auto it = s.said.find(q); if (it == s.said.end()) { s.said[q] = a; return; }
	c.note("answers repeated");
	if (it->second != a) c.fail("answer", q + " gives " + clipHex(a, 100) + " but gave " + clipHex(it->second, 100) + " before, and nothing was changed in between");
}
static Bytes printed(sml_file *f) {
	fflush(stdout); int save = dup(1), fd = memfd_create("p", MFD_CLOEXEC); dup2(fd, 1);
	LIB(sml_file_print(f)); fflush(stdout);
	dup2(save, 1); close(save); Bytes o((size_t)lseek(fd, 0, SEEK_END), 0); if (pread(fd, &o[0], o.size(), 0) < 0) _exit(7); close(fd); return o;
}
static Bytes dbl(double d) { char t[40]; snprintf(t, sizeof t, "%a", d); return t; }
static Bytes spaced(const Bytes &b) { Bytes h = hex(b), o; for (size_t i = 0; i + 1 < h.size(); i += 2) { o += h.substr(i, 2) + ' '; } return o; }
struct Val { sml_value *v; Node *n; };
struct Str { octet_string *o; Node *n; };
// the values and strings of message m, each with its place in the model
static void values(sml_message *m, Msg &mm, std::vector<Val> &v, std::vector<Str> &o) {
	o.push_back({m->transaction_id, &mm.tid});
	std::function<void(sml_tree *, Node &)> tree = [&](sml_tree *t, Node &n) {
		if (!t) return;
		o.push_back({t->parameter_name, &n.c[0]});
		if (t->parameter_value && t->parameter_value->tag) {
			Node &w = n.c[1].c[1];
			if (*t->parameter_value->tag == SML_PROC_PAR_VALUE_TAG_VALUE) v.push_back({t->parameter_value->data.value, &w});
			if (*t->parameter_value->tag == SML_PROC_PAR_VALUE_TAG_PERIOD_ENTRY && t->parameter_value->data.period_entry) { sml_period_entry *e = t->parameter_value->data.period_entry; v.push_back({e->value, &w.c[3]}); o.push_back({e->obj_name, &w.c[0]}); }
		}
		for (int i = 0; i < t->child_list_len; i++) tree(t->child_list[i], n.c[2].c[(size_t)i]);
	};
	Node &d = mm.body.c[1];
	switch (*m->message_body->tag) {
	case SML_MESSAGE_GET_LIST_RESPONSE: { size_t i = 0; for (sml_list *l = ((sml_get_list_response *)m->message_body->data)->val_list; l; l = l->next, i++) { Node &e = d.c[4].c[i]; v.push_back({l->value, &e.c[5]}); o.push_back({l->obj_name, &e.c[0]}); o.push_back({l->value_signature, &e.c[6]}); } break; }
	case SML_MESSAGE_GET_PROC_PARAMETER_RESPONSE: tree(((sml_get_proc_parameter_response *)m->message_body->data)->parameter_tree, d.c[2]); break;
	case SML_MESSAGE_ATTENTION_RESPONSE: tree(((sml_attention_response *)m->message_body->data)->attention_details, d.c[3]); break;
	default: break;
	}
}
// the owner of an object changes it in place, as the public structures allow
static bool editString(Rng &r, Str s) {
	if (!s.o || s.o->len < 1 || s.n->k != 'o') return false;
	if (s.o->len > 1 && r.one(3)) { s.o->len--; s.n->s.pop_back(); return true; }
	size_t i = r.below((uint64_t)s.o->len); char ch = (char)r.next(); s.o->str[i] = (unsigned char)ch; s.n->s[i] = ch; return true;
}
static bool editValue(Rng &r, Val x) {
	if (!x.v) return false;
	Node &n = *x.n; uint64_t w = r.one(2) ? r.next() : r.below(300) - 100;
	switch (n.k) {
	case 'o': return editString(r, {x.v->data.bytes, &n});
	case 'b': n.v = r.one(2) ? (r.one(2) ? SML_BOOLEAN_TRUE : SML_BOOLEAN_FALSE) : r.below(256); *x.v->data.boolean = (u8)n.v; return true;
	case 'i': case 'u':
		switch (x.v->type & SML_LENGTH_FIELD) {
		case 1: *x.v->data.uint8 = (u8)w; n.v = n.k == 'i' ? (uint64_t)(int8_t)w : (u8)w; break;
		case 2: *x.v->data.uint16 = (u16)w; n.v = n.k == 'i' ? (uint64_t)(int16_t)w : (u16)w; break;
		case 4: *x.v->data.uint32 = (u32)w; n.v = n.k == 'i' ? (uint64_t)(int32_t)w : (u32)w; break;
		case 8: *x.v->data.uint64 = w; n.v = w; break;
		default: return false;
		}
		return true;
	}
	return false;
}
// append one entry somewhere in message m; true if there was a place for it
static bool grow(Rng &r, Gen &g, sml_message *m, Msg &mm, Bytes &what) {
	Node &d = mm.body.c[1]; void *data = m->message_body->data; uint32_t tag = (uint32_t)mm.body.c[0].v;
	auto dup = [&](const Node &n, Node &e) { if (!n.c.empty() && r.one(4)) e = r.one(2) ? n.c.back() : n.c[r.below(n.c.size())]; }; // entries may well be equal
	auto path = [&](sml_tree_path *&p, Node &n) { Node e = Oct(r.bytes(1 + r.below(8))); dup(n, e); lib([&] { if (!p) p = sml_tree_path_init(); sml_tree_path_add_path_entry(p, bOct(e)); return 0; }); if (n.k == 'a') n = List(); n.c.push_back(e); what = "adding a path entry"; return true; };
	auto tree = [&](sml_tree *t, Node *n) {
		if (!t) return false;
		while (t->child_list_len && r.one(2)) { size_t i = r.below((uint64_t)t->child_list_len); t = t->child_list[i]; n = &n->c[2].c[i]; }
		Node e = g.el(tTree, 1); if (n->c[2].k == 'l') dup(n->c[2], e); lib([&] { sml_tree_add_tree(t, bTree(e)); return 0; });
		if (n->c[2].k == 'a') n->c[2] = List();
		n->c[2].c.push_back(e); what = "adding a tree"; return true;
	};
	auto seq = [&](sml_sequence *s, Node &n, T t) {
		if (!s) return false;
		if (t == tPope && s->elems_len && r.one(2)) { size_t i = r.below((uint64_t)s->elems_len); auto *e = (sml_prof_obj_period_entry *)s->elems[i]; if (!e->value_list) return false; Node x = g.el(tVEntry); dup(n.c[i].c[2], x); lib([&] { sml_sequence_add(e->value_list, bVEntry(x)); return 0; }); n.c[i].c[2].c.push_back(x); what = "adding a value to a period"; return true; }
		Node e = g.el(t); dup(n, e); lib([&] { sml_sequence_add(s, t == tHdr ? (void *)bHdr(e) : t == tPope ? (void *)bPope(e) : (void *)bPeriod(e)); return 0; });
		n.c.push_back(e); what = "adding to a sequence"; return true;
	};
	switch (tag) {
	case 0x300: case 0x400: { auto *q = (sml_get_profile_pack_request *)data; return r.one(2) ? path(q->parameter_tree_path, d.c[6]) : tree(q->das_details, &d.c[8]); }
	case 0x301: { auto *q = (sml_get_profile_pack_response *)data; int k = (int)r.below(4); return k == 0 ? path(q->parameter_tree_path, d.c[3]) : k == 1 ? seq(q->header_list, d.c[4], tHdr) : seq(q->period_list, d.c[5], tPope); }
	case 0x401: { auto *q = (sml_get_profile_list_response *)data; return r.one(3) ? path(q->parameter_tree_path, d.c[3]) : seq(q->period_list, d.c[6], tPeriod); }
	case 0x500: { auto *q = (sml_get_proc_parameter_request *)data; return path(q->parameter_tree_path, d.c[3]); }
	case 0x501: { auto *q = (sml_get_proc_parameter_response *)data; return r.one(3) ? path(q->parameter_tree_path, d.c[1]) : tree(q->parameter_tree, &d.c[2]); }
	case 0x600: { auto *q = (sml_set_proc_parameter_request *)data; return r.one(3) ? path(q->parameter_tree_path, d.c[3]) : tree(q->parameter_tree, &d.c[4]); }
	case 0x701: { auto *q = (sml_get_list_response *)data; if (!q->val_list) return false; sml_list *l = q->val_list; while (l->next) l = l->next; Node e = g.listEntry(); dup(d.c[4], e); Node one = List({e}); lib([&] { sml_list_add(l, bList(one)); return 0; }); d.c[4].c.push_back(e); what = "adding to a list"; return true; }
	case 0xff01: return tree(((sml_attention_response *)data)->attention_details, &d.c[3]);
	}
	return false;
}
static void m_c21(Ctx &c) {
	Bytes m0 = c.mode;
	c.units(c.cases, [&](long) {
		Rng &r = c.rng; long live0 = vf_live_blocks, fds = vf_fd_count(); std::vector<Slot> ss((size_t)r.range(2, 5)); Bytes hist, all;
		int ops = r.range(20, 70); static const std::vector<int> growing = {4, 4, 5, 7, 8, 9, 10, 12, 13, 12};
		for (int op = 0; op < ops; op++) {
			size_t k = r.below(ss.size()); Slot &s = ss[k];
			Prof p; p.stdWidth = true; p.zg22 = 0; p.budget = 120; p.bigStr = p.bigList = 1; p.absent = r.one(2) ? 20 : 50; Gen g(r, p); Bytes what;
			auto some = [&] { return genMsg(g, r.one(2) ? growing[r.below(growing.size())] : -1); };
			int what1 = 0; Bytes before = stored(ss);
			if (!s.f) {
				s = Slot(); int n = r.range(0, 3); for (int i = 0; i < n; i++) { s.ms.push_back(some()); likePrevious(r, s.ms.back(), i ? &s.ms[(size_t)i - 1] : nullptr); }
				s.parsed = r.one(2);
				if (s.parsed) { Bytes b; for (auto &m : s.ms) b += encMsg(m); Exact e(b); s.f = lib([&] { return sml_file_parse(e.p, e.n); }); memset(e.p, 0x5a, e.n); }
				else { s.f = lib([&] { return sml_file_init(); }); for (auto &m : s.ms) lib([&] { sml_file_add_message(s.f, bMsg(m)); return 0; }); }
				for (auto &m : s.ms) { s.want.push_back(wantOf(m)); all += encMsg(m); }
				what = s.parsed ? "parsing a file" : "building a file"; c.note(what);
			} else switch (what1 = (int)r.below(16)) {
			case 0: LIB(sml_file_free(s.f)); s = Slot(); what = "freeing a file"; c.note(what); break;
			case 1: { Msg m = some(); if (!s.ms.empty() && r.one(5)) m = s.ms.back(); lib([&] { sml_file_add_message(s.f, bMsg(m)); return 0; }); s.ms.push_back(m); s.want.push_back(wantOf(m)); s.said.clear(); what = "adding a message"; c.note(what); all += encMsg(m); break; }
			case 2: case 3: case 4: { if (s.ms.empty()) break; size_t i = r.below(s.ms.size()); if (grow(r, g, s.f->messages[i], s.ms[i], what)) { s.want[i] = wantOf(s.ms[i]); s.said.clear(); c.note(what); } break; }
			case 5: { size_t at = s.f->buf->cursor, len = s.f->buf->buffer_len; Bytes t = printed(s.f); if (s.f->buf->cursor != at || s.f->buf->buffer_len != len) c.fail("print", "printing a file moved its buffer's position"); again(c, s, "printing with " + std::to_string(s.f->buf->cursor) + " bytes in the buffer", t); what = "printing"; c.note(what); break; }
			case 6: { s.f->buf->cursor = 0; LIB(sml_file_write(s.f)); again(c, s, "writing", Bytes((char *)s.f->buf->buffer, s.f->buf->cursor)); what = "writing"; c.note(what); break; }
			case 7: { int fd = memfd_create("w", MFD_CLOEXEC); long n = lib([&] { return (long)sml_transport_write(fd, s.f); }); Bytes o((size_t)lseek(fd, 0, SEEK_END), 0); if (pread(fd, &o[0], o.size(), 0) < 0) _exit(7); close(fd); again(c, s, "sending", o + std::to_string(n)); what = "sending"; c.note(what); break; }
			case 8: { if (s.ms.empty()) break; size_t i = r.below(s.ms.size()); size_t at = r.one(3) ? 0 : r.one(2) ? r.below(3000) : r.one(2) ? dictInt(r, 200000) : r.below(200000); sml_buffer *b = lib([&] { return sml_buffer_init(at + r.below(2000)); }); b->cursor = at; lib([&] { if (r.one(2)) sml_message_write(s.f->messages[i], b); else sml_message_body_write(s.f->messages[i]->message_body, b); return 0; }); LIB(sml_buffer_free(b)); what = "writing one message elsewhere"; c.note(what); break; }
			case 9: case 10: { std::vector<Val> v; std::vector<Str> o; for (int i = 0; i < s.f->messages_len; i++) values(s.f->messages[i], s.ms[(size_t)i], v, o); Bytes a;
				for (auto &vn : v) { sml_value *x = vn.v; if (!x) { a += "- "; continue; } if (x->type == SML_TYPE_OCTET_STRING) for (int mix = 0; mix < 2; mix++) { char *t = nullptr, *q = lib([&] { return sml_value_to_strhex(x, &t, mix); }); Bytes h = q ? q : "(none)"; lib([&] { free(q); return 0; }); a += h; if (!mix && spaced(vn.n->s) != h) c.fail("convert", "the string " + clipHex(vn.n->s, 60) + " is shown as " + h.substr(0, 120)); }
					else if ((x->type & SML_TYPE_FIELD) == SML_TYPE_INTEGER || (x->type & SML_TYPE_FIELD) == SML_TYPE_UNSIGNED) { double got = lib([&] { return sml_value_to_double(x); }), want = vn.n->k == 'i' ? (double)(int64_t)vn.n->v : (double)vn.n->v; a += dbl(got); if (got != want) c.fail("convert", "the number " + dbl(want) + " is converted to " + dbl(got)); } a += ' '; c.note("values converted"); }
				again(c, s, "converting", a); what = "converting"; break; }
			case 11: { std::vector<Str> o, o2; std::vector<Val> v; for (int i = 0; i < s.f->messages_len; i++) values(s.f->messages[i], s.ms[(size_t)i], v, o); Slot &t = ss[r.below(ss.size())]; if (t.f) for (int i = 0; i < t.f->messages_len; i++) values(t.f->messages[i], t.ms[(size_t)i], v, o2);
				for (int q = 0; q < 12 && !o.empty(); q++) { octet_string *x = o[r.below(o.size())].o, *y = (o2.empty() || r.one(3) ? o[r.below(o.size())] : o2[r.below(o2.size())]).o; bool eq = x && y && x->len == y->len && !(x->len && memcmp(x->str, y->str, (size_t)x->len)); if ((lib([&] { return sml_octet_string_cmp(x, y); }) == 0) != eq) c.fail("compare", "comparing two strings of two files gives the wrong answer"); if (x) { Bytes h = hex(Bytes((char *)x->str, (size_t)x->len)); Bytes h0 = h; if (lib([&] { return sml_octet_string_cmp_with_hex(x, &h[0]); }) != 0 || h != h0) c.fail("compare", "a string of a file differs from its hexadecimal text"); } c.note("comparisons"); }
				what = "comparing"; break; }
			case 12: case 13: { std::vector<Str> o; std::vector<Val> v; if (s.ms.empty()) break; size_t i = r.below(s.ms.size()); values(s.f->messages[i], s.ms[i], v, o); int n = 0; for (int q = r.range(1, 4); q > 0; q--) n += !v.empty() && r.one(2) ? editValue(r, v[r.below(v.size())]) : editString(r, o[r.below(o.size())]); if (!n) break; s.want[i] = wantOf(s.ms[i]); s.said.clear(); what = "changing in place"; c.note(what); break; }
			case 14: { if (s.ms.size() < 2) break; size_t i = r.below(s.ms.size()), j = r.below(s.ms.size()); std::swap(s.f->messages[i], s.f->messages[j]); std::swap(s.ms[i], s.ms[j]); std::swap(s.want[i], s.want[j]); s.said.clear(); what = "exchanging messages"; c.note(what); break; }
			default: { Bytes b = genHostile(r); Exact e(b); sml_file *f = lib([&] { return sml_file_parse(e.p, e.n); }); LIB(sml_file_free(f)); what = "parsing and freeing something else"; c.note(what); }
			}
			if (what.empty()) continue;
			if (what1 >= 5 && what1 <= 11 && stored(ss) != before) c.fail("touched", what + " changed an object");
			if (what1 >= 5 && what1 <= 11) c.note("looks that changed nothing");
			hist += what + ", "; c.note("steps");
			if (hist.size() > 200) hist = hist.substr(hist.size() - 200);
			allAsExpected(c, ss, what + " (last steps: " + hist + "file " + std::to_string(k) + ")");
		}
		c.eval(all + std::to_string(ops));
		for (auto &s : ss) if (s.f) LIB(sml_file_free(s.f));
		if (vf_live_blocks != live0) c.fail("leak", std::to_string(vf_live_blocks - live0) + " blocks are left after everything was freed");
		if (vf_fd_count() != fds) c.fail("fd-leak", "descriptors are left open");
	});
	c.mode = m0 + "/long"; // one container grown to many entries, one by one
	c.units(40, [&](long u) {
		Rng &r = c.rng; Prof p; p.stdWidth = true; p.zg22 = 0; p.budget = 0; p.maxStr = 3; p.depth = 0; p.maxList = 1; p.bigStr = p.bigList = 0; Gen g(r, p); long live0 = vf_live_blocks;
		static const int sp[] = {5, 7, 8, 9, 10, 12, 13, 4}; Slot s; Prof p2 = p; p2.budget = 60; p2.absent = 0; Gen g2(r, p2);
		Msg m; do { m = genMsg(g2, sp[u % 8]); } while (specs()[(size_t)sp[u % 8]].tag == 0x701 && (m.body.c[1].c[4].k == 'a' || m.body.c[1].c[4].c.empty()));
		s.ms.push_back(m); s.f = lib([&] { return sml_file_init(); }); lib([&] { sml_file_add_message(s.f, bMsg(m)); return 0; });
		int n = u < 16 ? 300 : 60; Bytes what; c.eval(encMsg(m) + std::to_string(u));
		for (int i = 0; i < n; i++) if (grow(r, g, s.f->messages[0], s.ms[0], what) && (i < 70 || i % 16 == 0 || i == n - 1)) {
			s.want = {wantOf(s.ms[0])}; std::vector<Slot> v = {s}; allAsExpected(c, v, what + " number " + std::to_string(i)); c.note("entries added to one message");
		}
		LIB(sml_file_free(s.f)); if (vf_live_blocks != live0) c.fail("leak", "blocks are left after everything was freed");
	});
	c.mode = m0 + "/sparse"; // objects with fields left out that a meter would send: looking at them fills in nothing
	c.units(std::max(64L, c.cases / 4), [&](long u) {
		Rng &r = c.rng; Prof p; p.stdWidth = true; p.zg22 = r.one(4) ? 50 : 0; p.budget = 200; p.bigStr = p.bigList = 1; p.absent = r.range(0, 95); p.oddTag = 60; p.bareTime = 0; Gen g(r, p); long live0 = vf_live_blocks;
		std::vector<Slot> ss(1); Slot &s = ss[0]; s.f = lib([&] { return sml_file_init(); });
		for (int i = r.range(1, 3); i > 0; i--) { Msg m = genMsg(g, (int)(u % (long)specs().size())); if (r.one(3)) m.tid = Abs(); if (r.one(3)) m.gid = Abs(); if (r.one(3)) m.abort = Abs(); c.eval(encMsg(m)); lib([&] { sml_file_add_message(s.f, bMsg(m)); return 0; }); }
		Bytes before = stored(ss);
		for (int k = 0; k < 6; k++) {
			Bytes what;
			switch (r.below(4)) {
			case 0: again(c, s, "printing", (s.f->buf->cursor = 0, printed(s.f))); what = "printing"; break;
			case 1: s.f->buf->cursor = 0; LIB(sml_file_write(s.f)); again(c, s, "writing", Bytes((char *)s.f->buf->buffer, s.f->buf->cursor)); what = "writing"; break;
			case 2: { int fd = memfd_create("w", MFD_CLOEXEC); long n = lib([&] { return (long)sml_transport_write(fd, s.f); }); Bytes o((size_t)lseek(fd, 0, SEEK_END), 0); if (pread(fd, &o[0], o.size(), 0) < 0) _exit(7); close(fd); again(c, s, "sending", o + std::to_string(n)); what = "sending"; break; }
			default: { sml_buffer *b = lib([&] { return sml_buffer_init(r.below(2000)); }); LIB(sml_message_body_write(s.f->messages[0]->message_body, b)); again(c, s, "writing a body", Bytes((char *)b->buffer, b->cursor)); LIB(sml_buffer_free(b)); what = "writing a body"; }
			}
			if (stored(ss) != before) { Bytes a = stored(ss); size_t d = 0; while (d < a.size() && d < before.size() && a[d] == before[d]) d++; d = d > 60 ? d - 60 : 0; c.fail("touched", what + " changed an object from ..." + before.substr(d, 120) + " to ..." + a.substr(d, 120)); }
			c.note("looks that changed nothing");
		}
		LIB(sml_file_free(s.f)); if (vf_live_blocks != live0) c.fail("leak", "blocks are left after everything was freed");
	});
	c.mode = m0;
}
const Mode modes_objects[] = {{"c21", m_c21}, {nullptr, nullptr}};
