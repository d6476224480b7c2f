#include "core.hpp"
#include <set>
#include <csignal>
#include <ctime>
#include <sys/time.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>

Ctx *C;
Bytes rawInput;
static unsigned char *crumb; static const size_t CRUMB = 1 << 20;

Bytes clipHex(const Bytes &b, size_t n) { return b.size() > n ? hex(b.substr(0, n)) + "...(" + std::to_string(b.size()) + " bytes)" : hex(b); }
static Bytes jesc(const Bytes &s) {
	Bytes o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if (c < 32 || c > 126) { char t[8]; snprintf(t, sizeof t, "\\u%04x", c); o += t; }
		else o += (char)c;
	}
	return o + "\"";
}
static void writeResult(bool failed, const Bytes &key, const Bytes &msg) {
	Ctx &c = *C;
	FILE *f = fopen((c.out + ".json").c_str(), "w");
	if (!f) _exit(9);
	fprintf(f, "{\"mode\":%s,\"shard\":%d,\"failed\":%s,\"evals\":%ld,\"distinct\":%zu", jesc(c.mode).c_str(), c.shard, failed ? "true" : "false", c.evals, c.distinct.size());
	if (failed) fprintf(f, ",\"unit\":%ld,\"key\":%s,\"msg\":%s,\"input\":\"%s\"", c.unit, jesc(key).c_str(), jesc(msg).c_str(), clipHex(c.input, 200000).c_str());
	fprintf(f, ",\"counts\":{");
	bool first = true;
	for (auto &kv : c.cnt) { fprintf(f, "%s%s:%ld", first ? "" : ",", jesc(kv.first).c_str(), kv.second); first = false; }
	fprintf(f, "},\"knowns\":{");
	first = true;
	for (auto &kv : c.knowns) { fprintf(f, "%s%s:%s", first ? "" : ",", jesc(kv.first).c_str(), jesc(kv.second).c_str()); first = false; }
	fprintf(f, "},\"samples\":[");
	for (size_t i = 0; i < c.samples.size(); i++) fprintf(f, "%s%s", i ? "," : "", jesc(c.samples[i]).c_str());
	fprintf(f, "]}\n");
	fclose(f);
	f = fopen((c.out + ".hash").c_str(), "wb");
	if (f) { for (uint64_t h : c.distinct) fwrite(&h, 8, 1, f); fclose(f); }
}
void Ctx::fail(const Bytes &key, const Bytes &msg) {
	writeResult(true, key, msg);
	if (!rawInput.empty()) { FILE *f = fopen((out + ".raw").c_str(), "wb"); if (f) { fwrite(rawInput.data(), 1, rawInput.size(), f); fclose(f); } }
	_exit(3);
}
void Ctx::finish() { writeResult(false, "", ""); }
void Ctx::known(const Bytes &key, const Bytes &msg) { knowns[key] = msg; }
long unitSeconds = 60;
// a unit that uses 60 s of processor time is reported as not ending
static void overTime(int) { _exit(78); }
static void watchdog(bool on) {
	struct itimerval t = {{0, 0}, {on ? unitSeconds : 0, 0}};
	if (unitSeconds) setitimer(ITIMER_PROF, &t, nullptr);
}
void Ctx::units(long n, const std::function<void(long)> &f) {
	signal(SIGPROF, overTime);
	static const time_t start = time(nullptr);
	for (long k = shard; k < n; k += nshards) {
		if (only >= 0 && k != only) continue;
		if (!thorough && only < 0 && (n == cases || n == cases / 2 || n == cases / 4) && k > n * 2 / 5 && time(nullptr) - start > 90) { note("units left out on a slow machine", (n - k + nshards - 1) / nshards); break; }
		unit = k;
		if (crumb) memcpy(crumb, &k, sizeof k);
		rng = Rng(mix(mix(seed, hashBytes(mode)), (uint64_t)k));
		watchdog(true);
		f(k);
	}
	watchdog(false);
}
void Ctx::eval(const Bytes &in, bool nontrivial) {
	evals++;
	input = in;
	if (nontrivial) distinct.insert(hashBytes(in));
	if (samples.size() < 3 && nontrivial && (evals == 1 || evals == 37 || evals == 501)) samples.push_back("unit " + std::to_string(unit) + ": " + clipHex(in, 160));
	if (crumb) {
		uint64_t n = in.size(), m = n < CRUMB - 64 ? n : CRUMB - 64;
		memcpy(crumb + 8, &n, 8);
		memcpy(crumb + 64, in.data(), m);
	}
}
long liveBlocks() { return vf_live_blocks; }

std::vector<Bytes> dumpFile(const sml_file *f, int opt) {
	std::vector<Bytes> v;
	for (int i = 0; i < f->messages_len; i++) v.push_back(dumpMsg(f->messages[i], opt));
	return v;
}
Bytes dumpMsg(const sml_message *m, int opt) {
	static vf_out o;
	vo_reset(&o);
	vd_message(&o, m, opt);
	return Bytes(o.p, o.len);
}
static void touchValue(sml_value *v) {
	if (!v) return;
	int k = v->type & SML_TYPE_FIELD;
	if (k == SML_TYPE_INTEGER || k == SML_TYPE_UNSIGNED) {
		volatile double d = sml_value_to_double(v); (void)d;
	} else if (v->type == SML_TYPE_OCTET_STRING) {
		for (int mixed = 0; mixed < 2; mixed++) {
			char *s = nullptr;
			char *r = sml_value_to_strhex(v, &s, mixed);
			if (r) { volatile size_t n = strlen(r); (void)n; free(r); }
		}
	}
}
void touchValues(const sml_file *f) {
	octet_string *prev = nullptr;
	for (int i = 0; i < f->messages_len; i++) {
		sml_message *m = f->messages[i];
		if (m->message_body && m->message_body->tag && *m->message_body->tag == SML_MESSAGE_GET_LIST_RESPONSE) {
			auto *b = (sml_get_list_response *)m->message_body->data;
			for (sml_list *l = b->val_list; l; l = l->next) {
				touchValue(l->value);
				if (l->obj_name) {
					if (prev) { volatile int x = sml_octet_string_cmp(prev, l->obj_name); (void)x; }
					char h[] = "0100010800ff";
					volatile int y = sml_octet_string_cmp_with_hex(l->obj_name, h); (void)y;
					prev = l->obj_name;
				}
			}
		}
		if (m->transaction_id && prev) { volatile int x = sml_octet_string_cmp(prev, m->transaction_id); (void)x; }
	}
}

RefFile checkFile(const Bytes &in, int flags) {
	Ctx &c = *C;
	long live0 = vf_live_blocks;
	auto *e = new Exact(in);
	sml_file *f = lib([&] { return sml_file_parse(e->p, e->n); });
	if (memcmp(e->p, in.data(), in.size()) != 0) c.fail("input-modified", "the caller's bytes were modified by parsing");
	memset(e->p, 0x5c, e->n); delete e; // the caller's bytes need not outlive the call
	RefFile rf;
	if (!(flags & P_NOCMP)) {
		rf = refFile(in);
		std::vector<Bytes> got = dumpFile(f);
		Bytes d = compareDelivered(rf, got);
		if (!d.empty()) c.fail("delivered", d);
		for (int i = 0; i < f->messages_len; i++)
			if (!f->messages[i]->message_body || !f->messages[i]->message_body->tag) c.fail("no-body", "delivered message without body or type tag");
		c.note("messages delivered", f->messages_len);
		c.note("messages dropped for checksum", rf.droppedCrc);
		if (rf.stopped) c.note("files with a rejected message");
	} else c.note("messages delivered", f->messages_len);
	if (flags & P_PRINT) LIB(sml_file_print(f));
	if (flags & P_TOUCH) lib([&] { touchValues(f); return 0; });
	if (flags & P_REWRITE) {
		f->buf->cursor = 0;
		lib([&] { sml_file_write(f); return 0; });
		c.note("files written again");
	}
	lib([&] { sml_file_free(f); return 0; });
	if (!(flags & P_NOMEM) && vf_live_blocks != live0)
		c.fail("leak", std::to_string(vf_live_blocks - live0) + " block(s) not released after parsing and freeing a file");
	return rf;
}

// ---- element table ----
template <class S, S *(*F)(sml_buffer *)> static void *P(sml_buffer *b) { return F(b); }
static void *p_u8(sml_buffer *b) { return sml_u8_parse(b); }
static void *p_u16(sml_buffer *b) { return sml_u16_parse(b); }
static void *p_u32(sml_buffer *b) { return sml_u32_parse(b); }
static void *p_u64(sml_buffer *b) { return sml_u64_parse(b); }
static void *p_i8(sml_buffer *b) { return sml_i8_parse(b); }
static void *p_i16(sml_buffer *b) { return sml_i16_parse(b); }
static void *p_i32(sml_buffer *b) { return sml_i32_parse(b); }
static void *p_i64(sml_buffer *b) { return sml_i64_parse(b); }
static void w_u8(void *p, sml_buffer *b) { sml_u8_write(p, b); }
static void w_u16(void *p, sml_buffer *b) { sml_u16_write(p, b); }
static void w_u32(void *p, sml_buffer *b) { sml_u32_write(p, b); }
static void w_u64(void *p, sml_buffer *b) { sml_u64_write(p, b); }
static void w_i8(void *p, sml_buffer *b) { sml_i8_write(p, b); }
static void w_i16(void *p, sml_buffer *b) { sml_i16_write(p, b); }
static void w_i32(void *p, sml_buffer *b) { sml_i32_write(p, b); }
static void w_i64(void *p, sml_buffer *b) { sml_i64_write(p, b); }
static void f_num(void *p) { sml_number_free(p); }
#define DNUM(x, t) static void d_##x(vf_out *o, const void *p, int) { vd_##x(o, (const t *)p); }
DNUM(u8, u8) DNUM(u16, u16) DNUM(u32, u32) DNUM(u64, u64) DNUM(i8, i8) DNUM(i16, i16) DNUM(i32, i32) DNUM(i64, i64)
#define B_NUM(x, n) static void *b_##x(const Node &nd) { return bNum(nd, n); }
B_NUM(1, 1) B_NUM(2, 2) B_NUM(4, 4) B_NUM(8, 8)
#define OBJ(id, type, lname, dumpexpr, bld) \
	static void *p_##id(sml_buffer *b) { return lname##_parse(b); } \
	static void f_##id(void *p) { lname##_free((type *)p); } \
	static void w_##id(void *p, sml_buffer *b) { lname##_write((type *)p, b); } \
	static void d_##id(vf_out *o, const void *q, int opt) { (void)opt; const type *p = (const type *)q; dumpexpr; } \
	static void *b_##id(const Node &nd) { return bld(nd); }
OBJ(oct, octet_string, sml_octet_string, vd_oct(o, p, opt), bOct)
OBJ(bool, sml_boolean, sml_boolean, vd_bool(o, p), bBool)
OBJ(value, sml_value, sml_value, vd_value(o, p, opt), bValue)
OBJ(status, sml_status, sml_status, vd_status(o, p), bStatus)
OBJ(time, sml_time, sml_time, vd_time(o, p, opt), bTime)
OBJ(path, sml_tree_path, sml_tree_path, vd_path(o, p, opt), bPath)
OBJ(tree, sml_tree, sml_tree, vd_tree(o, p, opt), bTree)
OBJ(list, sml_list, sml_list, vd_list(o, p, opt), bList)
OBJ(ppv, sml_proc_par_value, sml_proc_par_value, vd_ppv(o, p, opt), bPpv)
OBJ(tupel, sml_tupel_entry, sml_tupel_entry, vd_tupel(o, p, opt), bTupel)
OBJ(period, sml_period_entry, sml_period_entry, vd_period(o, p, opt), bPeriod)
OBJ(hdr, sml_prof_obj_header_entry, sml_prof_obj_header_entry, vd_hdr(o, p, opt), bHdr)
OBJ(pope, sml_prof_obj_period_entry, sml_prof_obj_period_entry, vd_pope(o, p, opt), bPope)
OBJ(ventry, sml_value_entry, sml_value_entry, vd_ventry(o, p, opt), bVEntry)
OBJ(body, sml_message_body, sml_message_body, vd_body(o, p, opt), bBody)
static void *seqVE(sml_buffer *b) { return sml_value_entry_parse(b); }
static void seqVEf(void *p) { sml_value_entry_free((sml_value_entry *)p); }
static void seqVEw(void *p, sml_buffer *b) { sml_value_entry_write((sml_value_entry *)p, b); }
static void *p_vseq(sml_buffer *b) { return sml_sequence_parse(b, seqVE, seqVEf); }
static void f_vseq(void *p) { sml_sequence_free((sml_sequence *)p); }
static void w_vseq(void *p, sml_buffer *b) { sml_sequence_write((sml_sequence *)p, b, seqVEw); }
static void d_vseq(vf_out *o, const void *q, int opt) {
	const sml_sequence *s = (const sml_sequence *)q;
	if (!s) { vo_ch(o, '-'); return; }
	vo_str(o, "S[");
	for (int i = 0; i < s->elems_len; i++) { vd_ventry(o, (const sml_value_entry *)s->elems[i], opt); vo_ch(o, ' '); }
	vo_ch(o, ']');
}
static void *b_vseq(const Node &n) {
	sml_sequence *s = sml_sequence_init(seqVEf);
	for (auto &c : n.c) sml_sequence_add(s, bVEntry(c));
	return s;
}
#define MSGD(id, lname, tag) OBJ(id, lname, lname, vd_bodydata(o, tag, p, opt), [](const Node &x) { return (lname *)bBodyData(tag, x); })
MSGD(m100, sml_open_request, 0x100) MSGD(m101, sml_open_response, 0x101)
MSGD(m200, sml_close_request, 0x200) MSGD(m201, sml_close_response, 0x201)
MSGD(m300, sml_get_profile_pack_request, 0x300) MSGD(m301, sml_get_profile_pack_response, 0x301)
MSGD(m400, sml_get_profile_list_request, 0x400) MSGD(m401, sml_get_profile_list_response, 0x401)
MSGD(m500, sml_get_proc_parameter_request, 0x500) MSGD(m501, sml_get_proc_parameter_response, 0x501)
MSGD(m600, sml_set_proc_parameter_request, 0x600) MSGD(m700, sml_get_list_request, 0x700)
MSGD(m701, sml_get_list_response, 0x701) MSGD(mff01, sml_attention_response, 0xff01)
const std::vector<ElP> &elps() {
#define E(n, t, id) {n, t, 0, p_##id, d_##id, f_##id, w_##id, b_##id}
#define EN(n, t, id, sz) {n, t, 0, p_##id, d_##id, f_num, w_##id, b_##sz}
#define EM(n, tg, id) {n, tMessage, tg, p_##id, d_##id, f_##id, w_##id, b_##id}
	static const std::vector<ElP> v = {
		E("octet_string", tOct, oct), EN("u8", tU8, u8, 1), EN("u16", tU16, u16, 2), EN("u32", tU32, u32, 4), EN("u64", tU64, u64, 8),
		EN("i8", tI8, i8, 1), EN("i16", tI16, i16, 2), EN("i32", tI32, i32, 4), EN("i64", tI64, i64, 8),
		E("boolean", tBool, bool), E("value", tValue, value), E("status", tStatus, status), E("time", tTime, time), E("tree_path", tPath, path),
		E("tree", tTree, tree), E("list", tList, list), E("proc_par_value", tPpv, ppv), E("tupel_entry", tTupel, tupel), E("period_entry", tPeriod, period),
		E("header_entry", tHdr, hdr), E("period_obj_entry", tPope, pope), E("value_entry", tVEntry, ventry), E("sequence", tVSeq, vseq), E("message_body", tBody, body),
		EM("open_request", 0x100, m100), EM("open_response", 0x101, m101), EM("close_request", 0x200, m200), EM("close_response", 0x201, m201),
		EM("profile_pack_request", 0x300, m300), EM("profile_pack_response", 0x301, m301), EM("profile_list_request", 0x400, m400), EM("profile_list_response", 0x401, m401),
		EM("get_proc_parameter_request", 0x500, m500), EM("get_proc_parameter_response", 0x501, m501), EM("set_proc_parameter_request", 0x600, m600),
		EM("get_list_request", 0x700, m700), EM("get_list_response", 0x701, m701), EM("attention_response", 0xff01, mff01),
	};
	return v;
}
Node genFor(Gen &g, const ElP &e) {
	if (e.t == tMessage) return g.body(*specFor(e.tag)).c[1];
	if (e.t == tBody) return g.bodyRandom();
	if (e.t == tHdr || e.t == tPope || e.t == tVEntry || e.t == tVSeq) return g.el(e.t);
	return g.optional(e.t);
}
bool refFor(Ref &r, const ElP &e) {
	if (e.t != tMessage) return r.el(e.t);
	const MsgSpec *m = specFor(e.tag);
	if (!r.listHead((int)m->f.size())) return false;
	r.out += '(';
	bool first = true;
	for (T x : m->f) { if (!first) r.out += ' '; first = false; if (!r.el(x)) return false; }
	r.out += ')';
	return true;
}
sml_buffer *mkbuf(const Bytes &content, size_t cursor) {
	sml_buffer *b = lib([&] { return sml_buffer_init(content.size()); });
	memcpy(b->buffer, content.data(), content.size());
	b->cursor = cursor;
	return b;
}

// ---- byte generators ----
Prof randProf(Rng &r) {
	Prof p;
	static const int ab[] = {0, 5, 25, 60, 95};
	p.absent = ab[r.below(5)];
	p.maxList = r.one(4) ? 8 : r.range(1, 4);
	p.bigList = r.one(6) ? 15 : 1;
	p.bigStr = r.one(6) ? 15 : 1;
	p.depth = r.range(0, 4);
	p.budget = r.one(10) ? 20000 : 1500;
	return p;
}
void likePrevious(Rng &r, Msg &m, const Msg *prev) { // neighbours that have something in common
	if (!prev) return;
	if (r.one(5)) m.tid = prev->tid;
	if (r.one(5)) m.gid = prev->gid;
	if (r.one(8)) m.abort = prev->abort;
	if (r.one(12)) m.body = prev->body;
}
Bytes genFile(Rng &r, const Prof &p, int maxMsgs) {
	Bytes b; int n = r.range(1, maxMsgs);
	Msg prev;
	for (int i = 0; i < n; i++) {
		Gen g(r, p);
		Msg m = i && r.one(8) ? prev : genMsg(g);
		likePrevious(r, m, i ? &prev : nullptr);
		prev = m;
		b += encMsg(m);
		if (r.one(6)) b.append((size_t)r.range(1, 5), '\0');
	}
	return b;
}
Bytes havoc(Rng &r, const Bytes &in, int n) {
	static const Bytes interesting("\x00\x01\x02\x0f\x10\x1b\x42\x50\x51\x52\x53\x55\x59\x60\x61\x62\x63\x65\x69\x70\x71\x72\x73\x76\x77\x7f\x80\x81\x8f\xe0\xe1\xf0\xf1\xff", 34);
	Bytes b = in;
	for (int k = 0; k < n; k++) {
		if (b.empty()) { b += (char)r.next(); continue; }
		size_t i = r.below(b.size());
		switch (r.below(8)) {
		case 0: b[i] ^= (char)(1 << r.below(8)); break;
		case 1: b[i] = (char)r.next(); break;
		case 2: b[i] = interesting[r.below(interesting.size())]; break;
		case 3: b[i] = (char)(b[i] + (r.one(2) ? 1 : -1)); break;
		case 4: b.erase(i, 1 + r.below(4)); break;
		case 5: b.insert(i, 1, interesting[r.below(interesting.size())]); break;
		case 6: { size_t j = r.below(b.size()), l = 1 + r.below(16); b.insert(i, b.substr(j, l)); break; }
		case 7: if (r.one(3)) b.resize(i); else b[i] = interesting[r.below(interesting.size())]; break;
		}
	}
	return b;
}
// one structural fault at one element of an encoded message head
// well-formed elements to stand where another is expected
const std::vector<Bytes> &strangers() {
	static const std::vector<Bytes> v = [] {
		std::vector<Bytes> o;
		for (const char *h : {"70", "7101", "720101", "72620170", "7262017101", "72620172650000000153000a", "7262017465000000015300005300000101", "72620165000000ff", "72620265000000ff", "726203735200520052007301", "72620473650000000153000053000001", "727070", "7170",
			"73010101", "7302410101", "730241017173024101", "73024172620162050 1", "7272620165000000ff", "7501010101 01", "7501620152000163ffff", "77010101010101 01", "7702410101016201620152000163000101", "760101010101 01", "7962016201 6201",
			"0241", "054142434 4", "4200", "4201", "41", "430101", "5201", "52ff", "530102", "54010203", "55ffffffff", "56ffffffffff", "59ffffffffffffffff", "5affffffffffffffffff", "51", "61", "6201", "62ff", "63ffff", "64ffffff", "65ffffffff", "66ffffffffff", "69ffffffffffffffff", "6affffffffffffffffff", "820141", "8f0f", "8101", "f001", "f101"}) {
			Bytes t; for (const char *q = h; *q; q++) if (*q != ' ') t += *q;
			if (t.size() % 2 == 0) o.push_back(unhex(t));
		}
		return o;
	}();
	return v;
}
// an entry of the list el[k] removed, added, doubled, or all of them removed, and the count adjusted
Bytes changeEntries(const Bytes &b, const std::vector<Elem> &el, size_t k, int how) {
	const Elem &e = el[k]; if (e.k != 'l' || e.tl < 1) return b;
	std::vector<const Elem *> kids; for (auto &x : el) if (x.depth == e.depth + 1 && x.off > e.off && x.end <= e.end) kids.push_back(&x);
	int n = 0; for (int i = 0; i < e.tl; i++) n = n << 4 | ((unsigned char)b[e.off + (size_t)i] & 15);
	if ((int)kids.size() != n) return b;
	Bytes q = b; int d = 0;
	switch (how) {
	case 0: if (!n) return b; q.erase(kids.back()->off, kids.back()->end - kids.back()->off); d = -1; break;
	case 1: if (!n) return b; q.erase(kids[0]->off, kids[0]->end - kids[0]->off); d = -1; break;
	case 2: q.insert(e.end, "\x01"); d = 1; break;
	case 3: if (!n) return b; q.insert(e.end, b.substr(kids.back()->off, kids.back()->end - kids.back()->off)); d = 1; break;
	case 4: q.insert(e.off + (size_t)e.tl, "\x01"); d = 1; break;
	case 5: if (!n) return b; q.erase(kids[0]->off, e.end - kids[0]->off); d = -n; break;
	default: if (n < 2) return b; { const Elem *m = kids[(size_t)n / 2]; q.erase(m->off, m->end - m->off); d = -1; }
	}
	Bytes t; encTL(t, 0x70, (uint64_t)(n + d)); q.replace(e.off, (size_t)e.tl, t); return q;
}
Bytes stretch(const Bytes &head, const std::vector<Elem> &el, size_t k, size_t n) {
	const Elem &e = el[k]; Bytes q = head, t;
	if (e.k == 'o') {
		Bytes d = head.substr(e.off + (size_t)e.tl, e.end - e.off - (size_t)e.tl); if (e.tl < 1 || d.empty() || n < d.size()) return "";
		Bytes l; while (l.size() < n) l += d;
		l.resize(n); encTL(t, 0, n); return q.replace(e.off, e.end - e.off, t + l);
	}
	if (e.k != 'l' || e.tl < 1) return "";
	Bytes more = changeEntries(head, el, k, 3); if (more == head || refFile(sealMsg(more)).msgs.size() != 1) return "";
	Bytes kids = head.substr(e.off + (size_t)e.tl, e.end - e.off - (size_t)e.tl), l; size_t m = 0, c = 0;
	for (int i = 0; i < e.tl; i++) m = m << 4 | ((unsigned char)head[e.off + (size_t)i] & 15);
	if (!m || n < m) return "";
	l.reserve(kids.size() * (n / m + 1)); for (; c + m <= n; c += m) l += kids;
	encTL(t, 0x70, c); return q.replace(e.off, e.end - e.off, t + l);
}
// the same content announced with another type, so that the length comes out the same; `by` entries or bytes more
Bytes retype(const Bytes &b, const Elem &e, int type, int by) {
	uint64_t n = 0; for (int i = 0; i < e.tl; i++) n = n << 4 | ((unsigned char)b[e.off + (size_t)i] & 15);
	if (((unsigned char)b[e.off] & 0x70) != 0x70) { if (n < (uint64_t)e.tl) return b; n -= (uint64_t)e.tl; }
	if (by < 0 && n < (uint64_t)-by) return b;
	Bytes q = b, t; encTL(t, type, n + (uint64_t)(int64_t)by); q.replace(e.off, (size_t)e.tl, t); return q;
}
Bytes mutateHead(Rng &r, const Bytes &head, const std::vector<Elem> &el, Bytes *what) {
	Bytes b = head; Bytes w;
	for (int tries = 0; tries < 20; tries++) {
		const Elem &e = el[r.below(el.size())];
		if (e.k == 'r' || e.tl == 0) continue;
		size_t n = e.end - e.off;
		int type = (unsigned char)b[e.off] & 0x70;
		switch (r.below(20)) {
		case 17: case 18: b.replace(e.off, n, r.pick(strangers())); w = "stranger"; break;
		case 19: { b = changeEntries(b, el, (size_t)(&e - &el[0]), (int)r.below(7)); w = "entries"; break; }
		case 0: { int nt = (int)r.below(8) << 4; b[e.off] = (char)(((unsigned char)b[e.off] & 0x8f) | nt); w = "type"; break; }
		case 1: b[e.off] = (char)((b[e.off] & 0xf0) | ((b[e.off] + 1) & 15)); w = "length+1"; break;
		case 2: b[e.off] = (char)((b[e.off] & 0xf0) | ((b[e.off] - 1) & 15)); w = "length-1"; break;
		case 3: b[e.off] = (char)((b[e.off] & 0xf0) | (int)r.below(16)); w = "length"; break;
		case 4: b.replace(e.off, n, Bytes(1, 1)); w = "made absent"; break;
		case 5: b.erase(e.off, n); w = "deleted"; break;
		case 6: b.insert(e.off, b.substr(e.off, n)); w = "duplicated"; break;
		case 7: { const Elem &f = el[r.below(el.size())]; if (f.tl == 0) continue; Bytes s = head.substr(f.off, f.end - f.off); b.replace(e.off, n, s); w = "replaced"; break; }
		case 8: { int nb = r.range(0, 15); Bytes s(1, (char)((r.one(2) ? 0x50 : 0x60) | ((nb + 1) & 15))); s += r.bytes((size_t)nb); b.replace(e.off, n, s); w = "number of " + std::to_string(nb) + " bytes"; break; }
		case 9: { Bytes s; encTL(s, type, r.one(2) ? r.below(1u << 20) : r.next() & 0xffffffffffull); b.replace(e.off, (size_t)e.tl, s); w = "huge length"; break; }
		case 10: { Bytes s((size_t)r.range(1, 20), (char)(0x80 | type | (int)r.below(16))); s += (char)r.below(16); b.replace(e.off, (size_t)e.tl, s); w = "long TL chain"; break; }
		case 11: { // non-canonical TL with leading zero nibble(s)
			Bytes s; int z = r.range(1, 3); uint64_t len = type == 0x70 ? 0 : 0;
			unsigned nib = (unsigned char)b[e.off] & 15; if ((unsigned char)b[e.off] & 0x80) continue;
			len = type == 0x70 ? nib : nib + (unsigned)z;
			for (int i = z; i >= 0; i--) s += (char)((i ? 0x80 : 0) | (i == z ? type : 0) | (int)((len >> (4 * i)) & 15));
			b.replace(e.off, 1, s); w = "non-canonical TL"; break; }
		case 12: if (type == 0x70) continue; b.resize(e.off + 1 + r.below(n)); w = "cut"; break;
		case 13: { if (e.k != 'l') continue; Bytes s(1, (char)(0x70 | (int)r.below(16))); b.replace(e.off, (size_t)e.tl, s); w = "list count"; break; }
		case 14: { Bytes s(1, (char)(0x42)); s += (char)r.next(); b.replace(e.off, n, s); w = "made boolean"; break; }
		case 15: { size_t i = e.off + r.below(n); b[i] = (char)r.next(); w = "byte"; break; }
		case 16: { // another type whose length comes out the same
			static const int ty[] = {0x00, 0x40, 0x50, 0x60, 0x70};
			b = retype(b, e, ty[r.below(5)], r.one(4) ? r.range(-1, 1) : 0); w = "type (same length)"; break; }
		}
		if (b == head) continue;
		if (what) *what = w + " (" + Bytes(1, e.k) + " depth " + std::to_string(e.depth) + ")";
		return b;
	}
	if (what) *what = "none";
	return b;
}
// lengths written with more bytes than needed; sometimes a string of no bytes, which only such a length can announce
Bytes loosen(Rng &r, const Bytes &head, const std::vector<Elem> &el, int pct, int emptyPct) {
	Bytes b = head;
	for (size_t k = el.size(); k-- > 0;) {
		const Elem &e = el[k];
		if (e.k == 'r' || e.tl < 1) continue;
		unsigned char c = (unsigned char)b[e.off]; int type = c & 0x70;
		size_t z = r.one(12) ? (size_t)r.range(4, 9) : (size_t)r.range(1, 2);
		if (e.k == 'o' && r.pct(emptyPct)) { Bytes t((size_t)z + 1, (char)0x80); t.back() = (char)(z + 1); b.replace(e.off, e.end - e.off, t); continue; }
		if (!r.pct(pct)) continue;
		uint64_t n = 0; for (int i = 0; i < e.tl; i++) n = n << 4 | ((unsigned char)b[e.off + (size_t)i] & 15);
		if (type != 0x70) n += z;
		if ((int)k && c == 1) continue; // an absent element stays one
		Bytes t; size_t w = (size_t)e.tl + z;
		if (w < 16 && n >> (4 * w)) continue;
		for (size_t i = w; i-- > 0;) t += (char)((i ? 0x80 : 0) | (i == w - 1 ? type : 0) | (int)(i < 16 ? (n >> (4 * i)) & 15 : 0));
		b.replace(e.off, (size_t)e.tl, t);
	}
	return b;
}
// a value list as the meters send that need a correction, or nearly so
static Node obis(const char *six) { return Oct(Bytes(six, 6)); }
Msg vendorMsg(Rng &r, Gen &g, const std::vector<uint64_t> &edges) {
	Node L = List(); int n = r.range(1, 7);
	for (int i = 0; i < n; i++) {
		Node e = g.listEntry();
		switch (r.below(5)) {
		case 0: case 1: { // the serial number, often affected
			uint64_t s = r.one(3) && !edges.empty() ? edges[r.below(edges.size())] : r.one(2) ? 42000000 + r.below(7000000) : 55000000 + r.below(4000000);
			if (r.one(6)) s = r.below(80000000);
			Bytes id("\x0a\x01" "DZG", 5); for (int k = 4; k >= 0; k--) id += (char)(s >> (8 * k));
			if (r.one(6)) id[r.below(5)] ^= (char)(1 << r.below(8));
			if (r.one(12)) id.resize(9 - r.below(3)); else if (r.one(12)) id += 'x'; else if (r.one(12)) id.resize(1 + r.below(9)); else if (r.one(12)) id += r.bytes(1 + r.below(12)); else if (r.one(20)) id.erase(0, r.below(9));
			e.c[0] = obis("\x01\x00\x60\x01\x00\xff"); e.c[5] = Oct(id);
			if (r.one(8)) e.c[0].s[r.below(6)] ^= (char)(1 << r.below(8));
			if (r.one(20)) e.c[0] = r.one(2) ? Abs() : Oct(e.c[0].s.substr(0, 1 + r.below(5)));
			if (r.one(20)) e.c[5] = r.one(2) ? Node(Abs()) : Uns(s, 8);
			break; }
		case 2: case 3: { // active power
			e.c[0] = obis("\x01\x00\x10\x07\x00\xff");
			int nb = r.one(3) ? r.range(1, 8) : r.range(1, 2);
			Node v = g.num('i', nb, true);
			if (r.one(6)) v = g.num('u', nb, true);
			if (r.one(12)) v = g.el(tValue);
			if (r.one(30)) v = Abs();
			e.c[5] = v;
			if (r.one(6)) e.c[0].s[r.below(6)] ^= (char)(1 << r.below(8));
			if (r.one(20)) e.c[0] = r.one(2) ? Oct(e.c[0].s + Bytes(1, (char)r.next())) : Oct(e.c[0].s.substr(0, 1 + r.below(5)));
			break; }
		default: if (r.one(2)) { e.c[0] = obis("\x01\x00\x01\x08\x00\xff"); e.c[5] = g.num(r.one(2) ? 'i' : 'u', r.range(1, 8), true); }
		}
		L.c.push_back(e);
	}
	Msg m = genMsg(g, 12);
	m.body.c[1].c[4] = L;
	return m;
}
Bytes genHostile(Rng &r, Bytes *kind) {
	Prof p = randProf(r);
	Bytes k, b;
	switch (r.below(12)) {
	case 10: { // valid, but with lengths of more bytes than needed
		k = "loose lengths";
		int n = r.range(1, 3), pct = r.one(2) ? 100 : r.range(2, 40), ep = r.one(3) ? 30 : r.one(2) ? 4 : 0;
		for (int i = 0; i < n; i++) { Gen g(r, p); std::vector<Elem> el; Bytes h = encMsgHead(genMsg(g), &el); if (!r.one(4)) h = loosen(r, h, el, pct, ep); b += sealMsg(h, r.one(8)); }
		break; }
	case 11: { // a vendor's value list
		k = "vendor list";
		p.budget = std::min(p.budget, 400L); int n = r.range(1, 3);
		for (int i = 0; i < n; i++) { Gen g(r, p); std::vector<Elem> el; Bytes h = encMsgHead(vendorMsg(r, g, {}), &el); if (r.one(4)) h = loosen(r, h, el, r.range(0, 20), 5); else if (r.one(3)) h = mutateHead(r, h, el); b += sealMsg(h, r.one(4)); }
		break; }
	case 0: k = "random bytes"; b = r.bytes(r.below(64)); break;
	case 1: k = "intact"; b = genFile(r, p); break;
	case 2: k = "havoc"; b = havoc(r, genFile(r, p), r.range(1, 6)); break;
	case 3: k = "truncated"; b = genFile(r, p); b.resize(r.below(b.size() + 1)); break;
	case 4: case 5: case 6: {
		k = "structural fault, checksum repaired";
		Gen g(r, p); std::vector<Elem> el; Bytes h = encMsgHead(genMsg(g), &el);
		Bytes m = mutateHead(r, h, el);
		if (r.one(5)) m = havoc(r, m, 1);
		if (r.one(3)) b = genFile(r, p, 1);
		b += sealMsg(m, r.one(8) ? 1 : 0);
		if (r.one(3)) b += genFile(r, p, 1);
		break; }
	case 7: { // havoc in the head, checksum repaired
		k = "havoc, checksum repaired";
		Gen g(r, p); Bytes h = havoc(r, encMsgHead(genMsg(g)), r.range(1, 4)); b = sealMsg(h); break; }
	case 8: { // random tokens
		k = "token soup";
		static const Bytes tok("\x00\x01\x02\x05\x0f\x42\x52\x53\x59\x62\x63\x65\x69\x71\x72\x73\x74\x75\x76\x77\x79\x80\x81\xf1\xff\x07", 26);
		int n = r.range(1, 40); for (int i = 0; i < n; i++) b += tok[r.below(tok.size())];
		if (r.one(2)) { b = Bytes("\x76\x05\x01\x02\x03\x04\x62\x00\x62\x00\x72\x63\x07\x01\x77", 15) + b; }
		break; }
	default: { // nesting
		k = "deep tree";
		int d = r.one(3) ? r.range(50, 3000) : r.range(1, 60);
		Bytes t;
		for (int i = 0; i < d; i++) t += Bytes("\x73\x01\x01\x71", 4);
		t += Bytes("\x73\x01\x01\x01", 4);
		Bytes h("\x76\x01\x62\x00\x62\x00\x72\x63\xff\x01\x74\x01\x01\x01", 14);
		b = sealMsg(h + t);
		break; }
	}
	if (kind) *kind = k;
	return b;
}

// ---- entry ----
#ifndef VF_FUZZ
const std::vector<int> &countSweep();
int main(int argc, char **argv) {
	dict(); strangers(); specs(); countSweep(); elps(); // not initialised by several threads at once: they are not instrumented
	static Ctx c; C = &c;
	Bytes crumbPath;
	for (int i = 1; i < argc; i++) {
		Bytes a = argv[i];
		auto val = [&] { return i + 1 < argc ? argv[++i] : (char *)""; };
		if (a == "--mode") c.mode = val();
		else if (a == "--seed") c.seed = strtoull(val(), nullptr, 10);
		else if (a == "--cases") c.cases = atol(val());
		else if (a == "--only") c.only = atol(val());
		else if (a == "--shard") c.shard = atoi(val());
		else if (a == "--nshards") c.nshards = atoi(val());
		else if (a == "--out") c.out = val();
		else if (a == "--thorough") c.thorough = true;
	}
	if (c.out.empty()) c.out = "/tmp/vf_out";
	int fd = open((c.out + ".crumb").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
	if (fd >= 0 && ftruncate(fd, CRUMB) == 0) {
		crumb = (unsigned char *)mmap(nullptr, CRUMB, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if (crumb == MAP_FAILED) crumb = nullptr;
		close(fd);
	}
	if (!getenv("VF_STDERR")) { if (!freopen("/dev/null", "w", stderr)) return 9; }
	if (!freopen("/dev/null", "w", stdout)) return 9;
	vf_ioplan.fail_read_at = vf_ioplan.fail_select_at = -1;
	static const Mode *all[] = {modes_parse, modes_write, modes_misc, modes_transport, modes_threads, modes_gen, modes_objects};
	for (auto *ms : all) for (; ms->name; ms++) if (c.mode == ms->name) {
		ms->fn(c);
		writeResult(false, "", "");
		return 0;
	}
	return 8;
}
#endif

const T lenKinds[9] = {tPath, tObjList, tList, tHdrSeq, tPopeSeq, tPerSeq, tVSeq, tTree, tOct};
Msg lenMsg(Rng &r, T t, int n, bool writable) {
	Prof p; p.budget = 0; p.maxStr = 3; p.absent = 50; p.maxList = 1; p.depth = 0; p.stdWidth = writable; if (writable) p.zg22 = 0;
	Gen g(r, p);
	Node L = List(); uint32_t tag = 0; size_t at = 0;
	for (int i = 0; i < n; i++) switch (t) {
		case tPath: L.c.push_back(Oct(r.bytes(1 + r.below(2)))); break;
		case tObjList: L.c.push_back(Oct(r.bytes(2))); break;
		case tList: L.c.push_back(g.listEntry()); break;
		case tHdrSeq: L.c.push_back(g.el(tHdr)); break;
		case tPopeSeq: L.c.push_back(g.el(tPope)); break;
		case tPerSeq: L.c.push_back(g.el(tPeriod)); break;
		case tVSeq: L.c.push_back(g.el(tVEntry)); break;
		case tTree: L.c.push_back(List({Oct(r.bytes(1)), Abs(), Abs()})); break;
		default: break;
	}
	switch (t) {
	case tPath: tag = 0x500; at = 3; break;
	case tObjList: tag = 0x300; at = 7; if (writable && !n) L = Abs(); break;
	case tList: tag = 0x701; at = 4; if (writable && !n) L = Abs(); break;
	case tHdrSeq: tag = 0x301; at = 4; break;
	case tPopeSeq: tag = 0x301; at = 5; break;
	case tPerSeq: tag = 0x401; at = 6; break;
	case tVSeq: tag = 0x301; at = 5; L = List({List({Abs(), Uns(7, 8), L, Abs()})}); break;
	case tTree: tag = 0xff01; at = 3; L = List({Oct("n"), Abs(), writable && !n ? Node(Abs()) : L}); break;
	default: tag = 0x100; at = r.below(6); if (n) L = Oct(r.bytes((size_t)n)); else L = Abs(); break;
	}
	p.absent = 30; Gen g2(r, p); Msg m; m.tid = Oct("t1"); m.gid = Uns(1, 1); m.abort = Uns(0, 1);
	m.body = g2.body(*specFor(tag)); m.body.c[1].c[at] = L;
	return m;
}
Msg depthMsg(Rng &r, int depth) { // a chain of trees, sometimes with siblings, in one of the five places of a tree
	static const uint32_t tags[] = {0x501, 0x600, 0xff01, 0x300, 0x400}; static const size_t at[] = {2, 4, 3, 8, 8}; int k = (int)r.below(5);
	Node t = List({Oct("leaf"), Abs(), Abs()});
	for (int d = 0; d < depth; d++) { Node kids = List({t}); if (r.one(5)) kids.c.push_back(List({Oct("s"), Abs(), Abs()})); if (r.one(5)) kids.c.insert(kids.c.begin(), List({Oct("p"), List({Uns(1, 1), Uns(r.below(300), 2)}), Abs()})); t = List({r.one(3) ? Abs() : Oct(r.bytes(1)), Abs(), kids}); }
	Prof p; p.budget = 60; p.maxStr = 3; p.absent = 60; p.stdWidth = true; p.zg22 = 0; Gen g(r, p); Msg m; m.tid = Oct("x"); m.gid = Uns(0, 1); m.abort = Uns(0, 1);
	m.body = g.body(*specFor(tags[k])); m.body.c[1].c[at[k]] = t;
	return m;
}
// trees nested in any child, of any depth, in one of the five places of a tree; the bytes only
Bytes deepMsg(Rng &r, size_t levels) {
	Bytes h; std::vector<Elem> el; Msg m = depthMsg(r, 0); h = encMsgHead(m, &el); const Bytes leaf("\x73\x05leaf\x01\x01", 8); size_t at = h.find(leaf); if (at == Bytes::npos) _exit(7);
	static const char *kids[] = {"\x73\x01\x01\x01", "\x01", "\x73\x02k\x72\x62\x01\x62\x07\x01", "\x73\x01\x01\x71\x73\x01\x01\x01"};
	struct { Bytes open, close; } st[2];
	for (auto &x : st) {
		int b = r.one(2) ? 0 : r.range(1, 3), a = r.one(2) ? 0 : r.range(1, 3);
		x.open = "\x73"; x.open += r.one(2) ? Bytes("\x01") : Bytes("\x02n"); x.open += r.one(2) ? Bytes("\x01") : Bytes("\x72\x62\x01\x52\x07"); x.open += (char)(0x70 + 1 + a + b);
		while (b--) x.open += kids[r.below(4)];
		while (a--) x.close += kids[r.below(4)];
	}
	int mixed = r.one(2) ? r.range(2, 300) : 0; Bytes t; std::vector<char> which(levels);
	for (size_t k = 0; k < levels; k++) { which[k] = mixed && k % (size_t)mixed == 0; t += st[(int)which[k]].open; }
	t += leaf; for (size_t k = levels; k--;) t += st[(int)which[k]].close;
	return sealMsg(h.replace(at, leaf.size(), t));
}
// every number of elements (or bytes, or messages) up to 70, then around powers of two and of ten
const std::vector<int> &countSweep() {
	static const std::vector<int> v = [] {
		std::vector<int> x; for (int i = 0; i <= 70; i++) x.push_back(i);
		for (int b : {80, 96, 100, 128, 160, 192, 200, 256, 320, 400, 500, 512, 600, 768, 1000, 1024, 2000, 2048, 4096}) for (int d = -1; d <= 1; d++) x.push_back(b + d);
		std::set<int> have(x.begin(), x.end()); size_t most = x.size() + 120;
		for (uint64_t v : dict().ints) for (int d = 0; d <= 1; d++) if (v < 3000 && x.size() < most && have.insert((int)v + d).second) x.push_back((int)v + d);
		return x;
	}();
	return v;
}
extern "C" void __asan_init() __attribute__((weak));
void countCases(Ctx &c, const std::function<void(const Bytes &)> &f) {
	const auto &ns = countSweep(); const long nk = 11;
	Bytes m0 = c.mode; c.mode += "/counts";
	c.units((long)ns.size() * nk, [&](long u) {
		Rng &r = c.rng; int n = ns[(size_t)u % ns.size()]; long k = u / (long)ns.size();
		Bytes b;
		if (k == 9) {
			Prof p; p.budget = 30; p.maxList = 1; p.maxStr = 3; p.depth = 1; p.absent = 50;
			for (int i = 0; i < n; i++) { if (i % 7 == 0) { Gen g(r, p); b += encMsg(genMsg(g)); } else b += encMsg(*[] { static Msg *m = nullptr; if (!m) { m = new Msg; m->tid = Oct("c"); m->gid = Uns(0, 1); m->abort = Uns(0, 1); m->body = List({Uns(0x201, 2), List({Abs()})}); } return m; }()); }
			c.note("message counts");
		} else if (k == 10) { n = std::min(n, 100); b = encMsg(depthMsg(r, n)); c.note("nesting depths"); c.maxi("nesting depth", n);
		} else { b = encMsg(lenMsg(r, lenKinds[k], n, false)); c.note("element counts"); }
		c.eval(b); c.maxi("elements of one kind", n);
		f(b);
	});
	// counts that do not fit sixteen bits; growing an array that far element by element takes too long under ASan, whose realloc always copies
	static const int HUGE_N[] = {65535, 65536, 65537, 70001}; static const long slim[] = {2, 8};
	const long nh = __asan_init ? 2 : 10;
	c.mode = m0 + "/huge";
	c.units(4 * nh, [&](long u) {
		Rng &r = c.rng; int n = HUGE_N[u & 3]; long k = __asan_init ? slim[u >> 2] : u >> 2;
		Bytes b;
		if (k == 9) { Msg m; m.tid = Oct("c"); m.gid = Uns(0, 1); m.abort = Uns(0, 1); m.body = List({Uns(0x201, 2), List({Abs()})}); Bytes x = encMsg(m); for (int i = 0; i < n; i++) b += x; }
		else b = encMsg(lenMsg(r, lenKinds[k], n, false));
		c.eval(b); c.note("counts beyond sixteen bits"); c.maxi("elements of one kind", n);
		f(b);
	});
	c.mode = m0;
}
