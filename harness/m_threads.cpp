// C12: several threads, each with its own files, buffers and descriptors, obtain
// what they obtain alone; several threads may read one parsed file.  Built with
// ThreadSanitizer (races) and without (results at full speed).
#include "stream.hpp"
#include <algorithm>
#include <pthread.h>
#include <sched.h>
#include <unordered_set>

// must not use Ctx, LIB or anything else shared
struct Job { int kind; Bytes in; uint64_t seed; std::vector<Msg> msgs; };
static thread_local uint64_t *RX; static thread_local long RXn;
static void onRx(unsigned char *b, size_t n) { *RX = hashBytes(Bytes((char *)b, n), *RX); RXn++; sml_file *f = sml_file_parse(b + 8, n - 16); *RX = mix(*RX, (uint64_t)f->messages_len); sml_file_free(f); }
static uint64_t dumpHash(const sml_file *f) { vf_out o = {0, 0, 0}; vd_file(&o, f, 0); uint64_t h = hashBytes(Bytes(o.p ? o.p : "", o.len)); vo_free(&o); return h; }
static uint64_t valueHash(sml_value *v) {
	if (!v) return 1;
	int k = v->type & SML_TYPE_FIELD; uint64_t h = v->type;
	if (k == SML_TYPE_INTEGER || k == SML_TYPE_UNSIGNED) { double d = sml_value_to_double(v); uint64_t x; memcpy(&x, &d, 8); h = mix(h, x); }
	else if (v->type == SML_TYPE_OCTET_STRING) for (int m = 0; m < 2; m++) { char *s = nullptr, *r = sml_value_to_strhex(v, &s, m); if (r) { h = hashBytes(r, h); free(s); } }
	return h;
}
static uint64_t readAll(const sml_file *f) { // everything a reader may do with a parsed file
	uint64_t h = dumpHash(f); octet_string *prev = nullptr;
	for (int i = 0; i < f->messages_len; i++) {
		sml_message *m = f->messages[i];
		if (*m->message_body->tag == SML_MESSAGE_GET_LIST_RESPONSE)
			for (sml_list *l = ((sml_get_list_response *)m->message_body->data)->val_list; l; l = l->next) {
				h = mix(h, valueHash(l->value));
				if (l->obj_name) { char t[] = "0100010800ff"; h = mix(h, (uint64_t)(sml_octet_string_cmp_with_hex(l->obj_name, t) == 0)); if (prev) h = mix(h, (uint64_t)(sml_octet_string_cmp(prev, l->obj_name) == 0)); prev = l->obj_name; }
			}
	}
	return h;
}
static uint64_t runJob(const Job &j) {
	Rng r(j.seed); uint64_t h = (uint64_t)j.kind;
	switch (j.kind) {
	case 0: case 1: { // parse, read, print, write again twice
		Exact e(j.in); sml_file *f = sml_file_parse(e.p, e.n);
		h = mix(h, readAll(f)); if (j.kind == 1) sml_file_print(f);
		for (int k = 0; k < 2; k++) { f->buf->cursor = 0; sml_file_write(f); h = hashBytes(Bytes((char *)f->buf->buffer, f->buf->cursor), h); }
		sml_file_free(f); break; }
	case 2: { // build, send, receive
		sml_file *f = sml_file_init(); for (auto &m : j.msgs) sml_file_add_message(f, bMsg(m));
		int fd = memfd_create("t", MFD_CLOEXEC); h = mix(h, (uint64_t)sml_transport_write(fd, f));
		lseek(fd, 0, SEEK_SET); std::vector<unsigned char> b(1 << 16); size_t n = sml_transport_read(fd, b.data(), b.size()); close(fd);
		h = hashBytes(Bytes((char *)b.data(), n), h); h = mix(h, dumpHash(f)); sml_file_free(f); break; }
	case 3: { // listen
		int fd = memfile(j.in); RX = &h; RXn = 0; sml_transport_listen(fd, onRx); h = mix(h, (uint64_t)RXn); close(fd); break; }
	case 4: { Bytes c = j.in; h = mix(h, sml_crc16_calculate((unsigned char *)&c[0], (int)c.size())); h = mix(h, sml_crc16kermit_calculate((unsigned char *)&c[0], (int)c.size())); break; }
	case 5: { // strings
		{ Bytes q = j.in; sml_hexdump((unsigned char *)&q[0], q.size()); }
		octet_string *s = sml_octet_string_init((unsigned char *)j.in.data(), (int)j.in.size()); Bytes x = hex(j.in); octet_string *t = sml_octet_string_init_from_hex(&x[0]);
		h = mix(h, (uint64_t)(sml_octet_string_cmp(s, t) == 0)); h = hashBytes(Bytes((char *)t->str, (size_t)t->len), h); h = mix(h, (uint64_t)(sml_octet_string_cmp_with_hex(s, &x[0]) == 0));
		if (!x.empty()) { x[r.below(x.size())] ^= 1; h = mix(h, (uint64_t)(sml_octet_string_cmp_with_hex(s, &x[0]) == 0)); }
		sml_value *v = sml_value_init(); v->data.bytes = s; h = mix(h, valueHash(v)); sml_value_free(v); sml_octet_string_free(t); break; }
	case 6: { // single elements
		for (int k = 0; k < 12; k++) {
			const ElP &e = elps()[r.below(elps().size())]; Prof p; p.budget = 200; Gen g(r, p); Bytes b = enc(genFor(g, e)); if (r.one(3)) b = havoc(r, b, 1);
			sml_buffer *u = mkbuf(b); void *o = e.parse(u); h = mix(h, (uint64_t)u->error); if (!u->error) h = mix(h, u->cursor);
			if (o && !u->error) { vf_out d = {0, 0, 0}; e.dump(&d, o, 0); h = hashBytes(Bytes(d.p ? d.p : "", d.len), h); vo_free(&d); sml_buffer *w = sml_buffer_init(64); e.write(o, w); h = hashBytes(Bytes((char *)w->buffer, w->cursor), h); sml_buffer_free(w); }
			if (o) e.fre(o); sml_buffer_free(u);
		}
		break; }
	default: { // numbers
		for (int k = 0; k < 40; k++) {
			static const int ws[] = {1, 2, 4, 8}; int w = ws[r.below(4)], ty = r.one(2) ? SML_TYPE_INTEGER : SML_TYPE_UNSIGNED; uint64_t v = r.next();
			void *n = sml_number_init(v, (unsigned char)ty, w); sml_buffer *b = sml_buffer_init(16); sml_number_write(n, (unsigned char)ty, w, b);
			h = hashBytes(Bytes((char *)b->buffer, b->cursor), h); b->cursor = 0; sml_value *q = sml_value_parse(b); h = mix(h, valueHash(q)); sml_value_free(q); sml_number_free(n); sml_buffer_free(b);
		} }
	}
	return h;
}
static Bytes dzgFile(Rng &r) {
	uint32_t serial = r.one(2) ? 42000000 + (uint32_t)r.below(7000000) : r.one(2) ? 55000000 + (uint32_t)r.below(4000000) : (uint32_t)r.below(100000000);
	Bytes id("\x0a\x01" "DZG\x00", 6); for (int k = 3; k >= 0; k--) id += (char)(serial >> (8 * k));
	Node L = List({List({Oct(Bytes("\x01\x00\x60\x01\x00\xff", 6)), Abs(), Abs(), Abs(), Abs(), Oct(id), Abs()})}); int n = r.range(1, 5);
	for (int k = 0; k < n; k++) L.c.push_back(List({Oct(Bytes("\x01\x00\x10\x07\x00\xff", 6)), Abs(), Abs(), Uns(27, 1), Int(-1, 1), Int(r.one(2) ? (int64_t)(int16_t)r.next() : -1, 2), Abs()}));
	Msg m; m.tid = Oct(r.bytes(4)); m.gid = Uns(0, 1); m.abort = Uns(0, 1); m.crcMode = r.one(3); m.body = List({Uns(0x701, 4), List({Abs(), Abs(), Abs(), Abs(), L, Abs(), Abs()})});
	return encMsg(m);
}
static Job makeJob(Rng &r) {
	Job j; j.kind = (int)r.below(8); j.seed = r.next(); Prof p = randProf(r); p.budget = std::min(p.budget, 600L); p.stdWidth = true;
	switch (j.kind) {
	case 0: j.in = genHostile(r); if (j.in.size() > 20000) j.in.resize(20000); break;
	case 1: j.in = r.one(3) ? dzgFile(r) + dzgFile(r) : genFile(r, p); break;
	case 2: { Gen g(r, p); int n = r.range(1, 3); p.zg22 = 0; for (int k = 0; k < n; k++) { Msg m; do { Gen q(r, p); m = genMsg(q); } while (encMsg(m).find(ESC) != Bytes::npos); j.msgs.push_back(m); } break; }
	case 3: { Stream s; int n = r.range(1, 5); for (int k = 0; k < n; k++) addFrame(r, s, r.one(3) ? frame(dzgFile(r)) : okFrame(r, 300), r.one(2)); if (r.one(3)) addDamaged(r, s, 8096); j.in = s.b; break; }
	case 4: j.in = r.bytes(1 + r.below(2000)); break;
	case 5: j.in = r.bytes(r.below(60)); break;
	default: break;
	}
	return j;
}
struct Th { std::vector<const Job *> jobs; std::vector<uint64_t> got; uint64_t seed; const sml_file *shared; Bytes ids; pthread_barrier_t *bar; long yields; };
static void *worker(void *a) {
	Th *t = (Th *)a; Rng r(t->seed);
	pthread_barrier_wait(t->bar);
	if (t->shared) { for (int k = 0; k < 6; k++) { t->got.push_back(readAll(t->shared)); if (r.one(3)) { sched_yield(); t->yields++; } if (r.one(4)) sml_file_print((sml_file *)t->shared); if (r.one(4)) sml_hexdump(t->shared->buf->buffer, std::min<size_t>(t->shared->buf->buffer_len, 100)); } return nullptr; }
	for (auto *j : t->jobs) {
		t->got.push_back(runJob(*j));
		if (r.one(4)) { sml_message *m = sml_message_init(); t->ids.append((char *)m->transaction_id->str, (size_t)m->transaction_id->len); sml_message_free(m); }
		if (r.one(3)) { sched_yield(); t->yields++; } else if (r.one(8)) { usleep((useconds_t)r.below(60)); t->yields++; }
	}
	return nullptr;
}
static void m_c12(Ctx &c) {
	vf_fill_on = 0; unitSeconds = 400; Bytes m0 = c.mode; std::unordered_set<std::string> seen;
	auto go = [&](std::vector<Th> &th) {
		pthread_barrier_t b; pthread_barrier_init(&b, nullptr, (unsigned)th.size()); std::vector<pthread_t> h(th.size());
		for (size_t i = 0; i < th.size(); i++) { th[i].bar = &b; th[i].seed = c.rng.next(); th[i].yields = 0; pthread_create(&h[i], nullptr, worker, &th[i]); }
		for (auto &x : h) pthread_join(x, nullptr);
		pthread_barrier_destroy(&b);
	};
	static const char *kinds[] = {"parse hostile", "parse, print, write", "build, send, receive", "listen", "checksums", "strings", "elements", "numbers"};
	c.units(c.cases, [&](long) {
		Rng &r = c.rng; int nt = r.range(2, 8), nj = r.range(4, 20); std::vector<Job> jobs; Bytes all;
		int only = r.one(3) ? (int)r.below(8) : -1; // all threads in the same part of the library
		for (int k = 0; k < nj; k++) { Job j; do j = makeJob(r); while (only >= 0 && j.kind != only); jobs.push_back(j); all += j.in + Bytes((char *)&j.seed, 8); c.note(Bytes("jobs: ") + kinds[j.kind], nt); }
		c.eval(all);
		std::vector<Th> th((size_t)nt); std::vector<std::vector<int>> ord((size_t)nt);
		for (size_t i = 0; i < th.size(); i++) { th[i].shared = nullptr; for (int k = 0; k < nj; k++) ord[i].push_back(k); if (r.one(2)) for (int k = nj - 1; k > 0; k--) std::swap(ord[i][(size_t)k], ord[i][r.below((uint64_t)k + 1)]); for (int k : ord[i]) th[i].jobs.push_back(&jobs[(size_t)k]); }
		go(th);
		std::vector<uint64_t> alone; for (auto &j : jobs) alone.push_back(runJob(j));
		for (size_t i = 0; i < th.size(); i++) {
			for (int k = 0; k < nj; k++) if (th[i].got[(size_t)k] != alone[(size_t)ord[i][(size_t)k]]) { c.input = jobs[(size_t)ord[i][(size_t)k]].in; c.fail("interference", Bytes("a thread obtained a different result than alone from: ") + kinds[jobs[(size_t)ord[i][(size_t)k]].kind]); }
			for (size_t q = 0; q + 16 <= th[i].ids.size(); q += 16) if (!seen.insert(th[i].ids.substr(q, 16)).second) c.fail("duplicate-id", "two threads created the same transaction id");
			c.note("results compared", nj); c.note("yields", th[i].yields);
		}
		c.note("threads", nt); c.note("rounds");
	});
	c.mode = m0 + "/shared";
	c.units(c.cases / 2, [&](long) {
		Rng &r = c.rng; Prof p = randProf(r); p.budget = 2000; Bytes in = r.one(3) ? dzgFile(r) + genFile(r, p) : r.one(3) ? genHostile(r) : genFile(r, p);
		c.eval(in); Exact e(in); sml_file *f = sml_file_parse(e.p, e.n);
		std::vector<Th> th((size_t)r.range(2, 8)); for (auto &t : th) t.shared = f;
		uint64_t before = r.one(2) ? readAll(f) : 0; go(th); uint64_t after = readAll(f);
		if (before && before != after) c.fail("changed", "reading a parsed file from several threads changed it");
		for (auto &t : th) for (uint64_t g : t.got) { if (g != after) c.fail("interference", "a concurrent reader of a parsed file saw something else"); c.note("concurrent reads"); }
		sml_file_free(f); c.note("shared files");
	});
	c.mode = m0;
}
const Mode modes_threads[] = {{"c12", m_c12}, {nullptr, nullptr}};
