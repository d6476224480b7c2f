// C06 numbers, C08 cost, C11 checksums, C16 transaction ids, C17 string helpers.
#include "core.hpp"
#include <algorithm>
#include <cmath>
#include <cerrno>
#include <fcntl.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

// ---------- C06 ----------
static int stdw(int nb) { return nb <= 1 ? 1 : nb <= 2 ? 2 : nb <= 4 ? 4 : 8; }
static double rounded(bool sig, uint64_t v) { return sig ? (double)(long double)(int64_t)v : (double)(long double)v; }
static void checkNumber(Ctx &c, bool sig, int nb, const unsigned char *raw, const Bytes &tail) {
	// mathematical value
	__int128 m = 0; for (int k = 0; k < nb; k++) m = m * 256 + raw[k];
	if (sig && raw[0] >= 128) m -= (__int128)1 << (8 * nb);
	uint64_t want = (uint64_t)m; int type = sig ? 0x50 : 0x60;
	Bytes b(1, (char)(type | (nb + 1))); b.append((const char *)raw, (size_t)nb); size_t len = b.size(); b += tail;
	sml_buffer buf; memset(&buf, 0, sizeof buf);
	buf.buffer = (unsigned char *)&b[0]; buf.buffer_len = b.size();
	auto bad = [&](const Bytes &why) { c.input = b; c.fail("number", why + " for " + hex(b.substr(0, len))); };
	sml_value *v = lib([&] { return sml_value_parse(&buf); });
	if (!v || buf.error) bad("value rejected");
	if (buf.cursor != len) bad("value consumed " + std::to_string(buf.cursor) + " bytes");
	int w = stdw(nb);
	if (v->type != (type | w)) bad("value has type " + std::to_string(v->type) + " instead of " + std::to_string(type | w));
	uint64_t got; 
	switch (v->type) {
	case 0x51: got = (uint64_t)(int64_t)*v->data.int8; break;
	case 0x52: got = (uint64_t)(int64_t)*v->data.int16; break;
	case 0x54: got = (uint64_t)(int64_t)*v->data.int32; break;
	case 0x58: got = (uint64_t)*v->data.int64; break;
	case 0x61: got = *v->data.uint8; break;
	case 0x62: got = *v->data.uint16; break;
	case 0x64: got = *v->data.uint32; break;
	default: got = *v->data.uint64;
	}
	if (got != want) bad("value " + std::to_string((long long)got) + " instead of " + std::to_string((long long)want));
	double d = lib([&] { return sml_value_to_double(v); }), dw = rounded(sig, want);
	if (d != dw || std::signbit(d) != std::signbit(dw)) bad("converted to " + std::to_string(d) + " instead of " + std::to_string(dw));
	// encode and decode again
	unsigned char wb[16]; memset(wb, 0xd7, sizeof wb);
	{
		sml_buffer *o = lib([&] { return sml_buffer_init(16); }); memset(o->buffer, 0xd7, 16); lib([&] { sml_value_write(v, o); return 0; });
		Bytes out((char *)o->buffer, o->cursor), exp(1, (char)(type | (w + 1))); for (int k = w - 1; k >= 0; k--) exp += (char)(want >> (8 * k));
		if (out != exp) bad("encoded as " + hex(out) + " instead of " + hex(exp));
		LIB(sml_buffer_free(o));
	}
	LIB(sml_value_free(v));
	// typed fields
	for (int fw : {1, 2, 4, 8}) {
		buf.cursor = 0; buf.error = 0; void *p = nullptr;
		if (sig) p = fw == 1 ? (void *)lib([&] { return sml_i8_parse(&buf); }) : fw == 2 ? (void *)lib([&] { return sml_i16_parse(&buf); }) : fw == 4 ? (void *)lib([&] { return sml_i32_parse(&buf); }) : (void *)lib([&] { return sml_i64_parse(&buf); });
		else p = fw == 1 ? (void *)lib([&] { return sml_u8_parse(&buf); }) : fw == 2 ? (void *)lib([&] { return sml_u16_parse(&buf); }) : fw == 4 ? (void *)lib([&] { return sml_u32_parse(&buf); }) : (void *)lib([&] { return sml_u64_parse(&buf); });
		if (fw < nb) { if (!buf.error) bad("number of " + std::to_string(nb) + " bytes accepted in a " + std::to_string(fw) + "-byte field"); if (p) LIB(sml_number_free(p)); continue; }
		if (!p || buf.error || buf.cursor != len) bad("typed field of " + std::to_string(fw) + " bytes rejected");
		uint64_t g;
		if (sig) g = fw == 1 ? (uint64_t)(int64_t)*(i8 *)p : fw == 2 ? (uint64_t)(int64_t)*(i16 *)p : fw == 4 ? (uint64_t)(int64_t)*(i32 *)p : (uint64_t)*(i64 *)p;
		else g = fw == 1 ? *(u8 *)p : fw == 2 ? *(u16 *)p : fw == 4 ? *(u32 *)p : *(u64 *)p;
		if (g != want) bad("typed field of " + std::to_string(fw) + " bytes holds " + std::to_string((long long)g) + " instead of " + std::to_string((long long)want));
		LIB(sml_number_free(p));
	}
	if (!sig) {
		buf.cursor = 0; buf.error = 0;
		sml_status *s = lib([&] { return sml_status_parse(&buf); });
		if (!s || buf.error || buf.cursor != len || s->type != (0x60 | w)) bad("status rejected or of wrong width");
		uint64_t g = w == 1 ? *s->data.status8 : w == 2 ? *s->data.status16 : w == 4 ? *s->data.status32 : *s->data.status64;
		if (g != want) bad("status holds " + std::to_string((long long)g));
		sml_buffer *o = lib([&] { return sml_buffer_init(16); }); memset(o->buffer, 0xd7, 16); lib([&] { sml_status_write(s, o); return 0; });
		Bytes out((char *)o->buffer, o->cursor), exp(1, (char)(0x60 | (w + 1))); for (int k = w - 1; k >= 0; k--) exp += (char)(want >> (8 * k));
		if (out != exp) bad("status encoded as " + hex(out));
		lib([&] { sml_buffer_free(o); sml_status_free(s); return 0; });
	}
	c.evals++;
}
static void m_c06(Ctx &c) {
	Bytes m0 = c.mode;
	c.units(64, [&](long u) { // all one- and two-byte numbers
		for (int sig = 0; sig < 2; sig++) for (int nb = 1; nb <= 2; nb++) {
			long n = nb == 1 ? 256 : 65536;
			for (long v = u; v < n; v += 64) {
				unsigned char raw[2] = {(unsigned char)(nb == 1 ? v : v >> 8), (unsigned char)v};
				checkNumber(c, sig, nb, raw, v & 1 ? Bytes("\x01", 1) : Bytes("\xff\x80", 2));
				c.note("exhaustive numbers");
			}
		}
		c.distinct.insert(mix((uint64_t)u, 5));
	});
	c.mode = m0 + "/edge";
	c.units(8 * 2, [&](long u) {
		int nb = (int)(u / 2) + 1; bool sig = u & 1; std::vector<uint64_t> vs;
		for (int bit = 0; bit <= 8 * nb; bit++) for (int d = -3; d <= 3; d++) { uint64_t p = bit == 64 ? 0 : 1ull << bit; vs.push_back(p + (uint64_t)(int64_t)d); vs.push_back(0 - p + (uint64_t)(int64_t)d); }
		for (int bit = 52; bit <= 63; bit++) for (int d = 0; d < 64; d++) { vs.push_back((1ull << bit) + ((uint64_t)d << (bit > 54 ? bit - 54 : 0))); vs.push_back((1ull << bit) + (uint64_t)d * ((1ull << bit >> 53) / 2 + 1)); }
		uint64_t pat = 0; for (int b = 0; b < 256; b++) { pat = 0; for (int k = 0; k < nb; k++) pat = pat << 8 | (uint64_t)b; vs.push_back(pat); }
		for (int k = 0; k < nb; k++) for (int b = 0; b < 256; b++) vs.push_back((uint64_t)b << (8 * k));
		for (uint64_t v : vs) {
			unsigned char raw[8]; for (int k = 0; k < nb; k++) raw[k] = (unsigned char)(v >> (8 * (nb - 1 - k)));
			c.input = Bytes((char *)raw, (size_t)nb);
			checkNumber(c, sig, nb, raw, Bytes("\x00", 1)); c.distinct.insert(mix(v, (uint64_t)u)); c.note("edge numbers");
		}
	});
	c.mode = m0 + "/rand";
	c.units(c.cases, [&](long) {
		Rng &r = c.rng;
		for (int k = 0; k < 20; k++) {
			int nb = r.range(1, 8); bool sig = r.one(2); unsigned char raw[8]; for (auto &x : raw) x = (unsigned char)r.next();
			if (r.one(4)) raw[0] = r.one(2) ? 0xff : 0; if (r.one(4) && nb > 1) raw[1] = r.one(2) ? 0xff : 0x80;
			if (k == 0) { c.eval(Bytes(1, (char)(0x50 + sig * 16 + nb)) + Bytes((char *)raw, (size_t)nb)); c.evals--; }
			c.distinct.insert(mix(hashBytes(Bytes((char *)raw, (size_t)nb)), (uint64_t)sig));
			checkNumber(c, sig, nb, raw, r.bytes(1 + r.below(3))); c.note("random numbers");
		}
	});
	c.mode = m0 + "/init";
	c.units(64, [&](long u) { // numbers created through the interface
		Rng &r = c.rng;
		for (int k = 0; k < 2000; k++) {
			uint64_t v = k < 600 ? (1ull << (k % 64)) + (uint64_t)(k / 64) - 4 : r.next(); if (r.one(3)) v = r.below(256);
			static const int ws[] = {1, 2, 4, 8}; int w = ws[r.below(4)]; bool sig = r.one(2); uint64_t m = w == 8 ? ~0ull : (1ull << (8 * w)) - 1;
			void *p = lib([&] { return sml_number_init(v, sig ? SML_TYPE_INTEGER : SML_TYPE_UNSIGNED, w); });
			uint64_t g = w == 1 ? *(u8 *)p : w == 2 ? *(u16 *)p : w == 4 ? *(u32 *)p : *(u64 *)p;
			if (g != (v & m)) c.fail("init", "sml_number_init(" + std::to_string(v) + ", " + std::to_string(w) + ") holds " + std::to_string(g));
			sml_buffer *o = lib([&] { return sml_buffer_init(16); }); memset(o->buffer, 0xff, 16);
			lib([&] { sml_number_write(p, sig ? SML_TYPE_INTEGER : SML_TYPE_UNSIGNED, w, o); return 0; });
			Bytes out((char *)o->buffer, o->cursor), exp(1, (char)((sig ? 0x50 : 0x60) | (w + 1))); for (int q = w - 1; q >= 0; q--) exp += (char)(v >> (8 * q));
			if (out != exp) c.fail("write", "number " + std::to_string(v) + " encoded as " + hex(out) + " instead of " + hex(exp));
			o->cursor = 0; void *q = lib([&] { return sml_number_parse(o, sig ? SML_TYPE_INTEGER : SML_TYPE_UNSIGNED, w); });
			if (!q || memcmp(p, q, (size_t)w)) c.fail("round-trip", "number " + std::to_string(v) + " changed by encoding and decoding");
			lib([&] { sml_number_free(p); sml_number_free(q); sml_buffer_free(o); return 0; });
			c.evals++; c.note("created numbers"); if (k % 40 == 0) { c.distinct.insert(mix(v, (uint64_t)w)); c.input = out; }
		}
		sml_value v; memset(&v, 0, sizeof v); octet_string *o = lib([&] { return sml_octet_string_init((unsigned char *)"12345678", 8); }); sml_boolean *t = sml_boolean_init(SML_BOOLEAN_TRUE);
		v.type = SML_TYPE_OCTET_STRING; v.data.bytes = o; double d1 = lib([&] { return sml_value_to_double(&v); }); v.type = SML_TYPE_BOOLEAN; v.data.boolean = t; double d2 = lib([&] { return sml_value_to_double(&v); });
		if (d1 != 0 || d2 != 0) c.fail("no-number", "an octet string or boolean is converted to a number other than 0");
		LIB(sml_octet_string_free(o)); sml_boolean_free(t);
		(void)u;
	});
	c.mode = m0;
}

// ---------- C11 ----------
static void crcCheck(Ctx &c, const unsigned char *src, size_t n, size_t align) {
	static std::vector<unsigned char> mem; if (mem.size() < n + 64) mem.resize(n + 64);
	unsigned char *blk = (unsigned char *)malloc(n + align); unsigned char *p = blk + align; memcpy(p, src, n);
	u16 a = lib([&] { return sml_crc16_calculate(p, (int)n); }), b = lib([&] { return sml_crc16kermit_calculate(p, (int)n); });
	if (memcmp(p, src, n)) c.fail("altered", "the data was altered");
	free(blk);
	u16 wa = crcX25slow(src, n), wb = crcKermitslow(src, n);
	if (a != wa || b != wb) { c.input = Bytes((char *)src, n); char t[160]; snprintf(t, sizeof t, "checksums of %zu bytes: X-25 %04x expected %04x, Kermit %04x expected %04x", n, a, wa, b, wb); c.fail("crc", t); }
	c.evals++;
}
static void m_c11(Ctx &c) {
	Bytes m0 = c.mode;
	{ const unsigned char *t = (const unsigned char *)"123456789"; if (crcX25slow(t, 9) != 0x6e90 || crcKermitslow(t, 9) != 0x2189) { fprintf(stderr, "harness: reference crc\n"); _exit(7); } }
	c.units(256, [&](long u) { // every string of up to two bytes, and a plane of three
		unsigned char b[3] = {(unsigned char)u, 0, 0};
		if (!u) crcCheck(c, b, 0, 0);
		crcCheck(c, b, 1, 0);
		for (int j = 0; j < 256; j++) { b[1] = (unsigned char)j; crcCheck(c, b, 2, 1); c.note("exhaustive short strings");
			for (int k = 0; k < 256; k += c.thorough ? 1 : 15) { b[2] = (unsigned char)k; crcCheck(c, b, 3, 0); } }
		c.distinct.insert(mix((uint64_t)u, 3));
	});
	c.mode = m0 + "/rand";
	c.units(c.cases, [&](long u) {
		Rng &r = c.rng; size_t n = u % 200 == 0 ? r.below(400000) : r.one(10) ? r.below(70000) : r.one(8) ? dictInt(r, 1000000) : r.below(600); if (u < 3000) n = (size_t)u; // every length once
		Bytes b = r.one(4) ? Bytes(n, (char)(r.one(2) ? 0 : 0xff)) : r.bytes(n); if (r.one(6) && n) b[r.below(n)] = 1;
		c.eval(b); c.evals--;
		crcCheck(c, (const unsigned char *)b.data(), n, r.below(16)); c.maxi("length", (long)n); c.note("strings");
	});
	c.mode = m0 + "/len";
	static const long big[] = {32767, 32768, 32769, 65535, 65536, 65537, 131071, 131072, 1 << 20, (1 << 24) - 1, (1 << 24) + 1, 3 << 23};
	c.units(12, [&](long u) { Rng &r = c.rng; Bytes b = r.bytes((size_t)big[u]); c.eval(b.substr(0, 64) + std::to_string(u)); crcCheck(c, (const unsigned char *)b.data(), b.size(), (size_t)u); c.maxi("length", big[u]); c.note("long strings"); });
	c.mode = m0 + "/detect"; // the guarantee users rely on
	c.units(std::max(24L, c.cases / 100), [&](long) {
		Rng &r = c.rng; size_t n = 8 + r.below(r.one(4) ? 4000 : 200); Bytes b = r.bytes(n); c.eval(b);
		Bytes q = b; auto x = [&](const Bytes &s) { return lib([&] { return sml_crc16_calculate((unsigned char *)s.data(), (int)s.size()); }); }; auto k = [&](const Bytes &s) { return lib([&] { return sml_crc16kermit_calculate((unsigned char *)s.data(), (int)s.size()); }); };
		u16 cx = x(b), ck = k(b); size_t nb = n * 8;
		auto fl = [&](size_t i) { q[i / 8] ^= (char)(1 << (i % 8)); };
		for (size_t i = 0; i < nb && i < 3000; i++) { fl(i); if (x(q) == cx || k(q) == ck) c.fail("undetected", "single-bit error at bit " + std::to_string(i) + " not detected"); fl(i); c.note("single-bit errors"); }
		for (int t = 0; t < 1500; t++) {
			size_t i = r.below(nb), j = r.below(nb); if (i == j) continue;
			fl(i); fl(j); if (x(q) == cx || k(q) == ck) c.fail("undetected", "double-bit error not detected"); fl(i); fl(j); c.note("double-bit errors");
			size_t s = r.below(nb - 16); unsigned pat = 1u | (unsigned)r.below(65536);
			for (size_t z = 0; z < 16; z++) if (pat >> z & 1) fl(s + z);
			if (x(q) == cx || k(q) == ck) c.fail("undetected", "burst error not detected");
			for (size_t z = 0; z < 16; z++) if (pat >> z & 1) fl(s + z);
			c.note("burst errors");
		}
		c.evals += 3000;
	});
	c.mode = m0;
}

// ---------- C16 ----------
static bool addIds(Ctx &c, std::unordered_set<std::string> &seen, const Bytes &ids, const char *how) {
	for (size_t i = 0; i + 16 <= ids.size(); i += 16) {
		Bytes id = ids.substr(i, 16);
		if (!seen.insert(id).second) { c.input = id; c.fail("duplicate", Bytes("transaction id ") + hex(id) + " given out twice (" + how + ")"); }
		c.evals++;
	}
	c.note(how, (long)(ids.size() / 16));
	return true;
}
static Bytes newId(Ctx &c) {
	sml_message *m = sml_message_init();
	if (!m || !m->transaction_id || m->transaction_id->len != 16 || !m->transaction_id->str) c.fail("length", "a new message carries no 16-byte transaction id");
	Bytes id((char *)m->transaction_id->str, 16);
	sml_message_free(m);
	return id;
}
struct Thr { Ctx *c; long n; Bytes ids; };
static void *mkIds(void *p) { Thr *t = (Thr *)p; for (long i = 0; i < t->n; i++) t->ids += newId(*t->c); return nullptr; }
static Bytes forked(Ctx &c, long n, bool threads) {
	int p[2]; if (pipe(p)) _exit(7);
	pid_t k = fork();
	if (k == 0) {
		Bytes ids; if (threads) { Thr t[2]; pthread_t h[2]; for (int i = 0; i < 2; i++) { t[i] = {&c, n / 2, ""}; pthread_create(&h[i], nullptr, mkIds, &t[i]); } for (int i = 0; i < 2; i++) { pthread_join(h[i], nullptr); ids += t[i].ids; } }
		else for (long i = 0; i < n; i++) ids += newId(c);
		size_t o = 0; while (o < ids.size()) { ssize_t w = ::write(p[1], ids.data() + o, ids.size() - o); if (w <= 0) _exit(1); o += (size_t)w; }
		_exit(0);
	}
	close(p[1]);
	Bytes got; char b[65536]; ssize_t r; while ((r = ::read(p[0], b, sizeof b)) > 0) got.append(b, (size_t)r);
	close(p[0]); int st; waitpid(k, &st, 0);
	if (!WIFEXITED(st) || WEXITSTATUS(st)) c.fail("child", "a forked process could not create its messages");
	return got;
}
static void m_c16(Ctx &c) {
	Bytes m0 = c.mode; std::unordered_set<std::string> seen;
	struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = 64; setrlimit(RLIMIT_NOFILE, &rl); // leaks show early
	long fds = vf_fd_count();
	c.units(8, [&](long u) {
		c.eval("sequence" + std::to_string(u)); c.evals--;
		if (u == 0) { // a message carrying an id keeps it when written
			sml_message *m = sml_message_init(); m->message_body = sml_message_body_init(SML_MESSAGE_CLOSE_RESPONSE, sml_close_response_init());
			Bytes id((char *)m->transaction_id->str, 16); sml_file *f = sml_file_init(); sml_file_add_message(f, m); sml_file_write(f);
			sml_file *g = sml_file_parse(f->buf->buffer, f->buf->cursor);
			if (g->messages_len != 1 || g->messages[0]->transaction_id->len != 16 || memcmp(g->messages[0]->transaction_id->str, id.data(), 16)) c.fail("transmitted", "the transaction id of a new message is not the one transmitted");
			sml_file_free(g); sml_file_free(f);
		}
		Bytes ids; long live0 = vf_live_blocks;
		vf_enter();
		for (long i = 0; i < c.cases; i++) ids += newId(c);
		vf_leave();
		addIds(c, seen, ids, "ids created one after the other");
		if (vf_live_blocks != live0) c.fail("leak", "creating ids keeps memory");
		long n = vf_fd_count(); if (n != fds) c.fail("fd-leak", "creating " + std::to_string(c.cases) + " messages left " + std::to_string(n - fds) + " descriptors open");
		// bare generator, without a message
		ids.clear(); for (long i = 0; i < c.cases / 4; i++) { octet_string *s = sml_octet_string_generate_uuid(); if (!s || s->len != 16) c.fail("length", "id of wrong length"); ids.append((char *)s->str, 16); sml_octet_string_free(s); }
		addIds(c, seen, ids, "bare ids");
		// the same point of execution continued in several processes
		for (int k = 0; k < 6; k++) addIds(c, seen, forked(c, c.cases / 16, k & 1), "ids from forked processes");
		std::vector<pid_t> kids; std::vector<int> ends; // simultaneous children
		for (int k = 0; k < 4; k++) { int p[2]; if (pipe(p)) _exit(7); pid_t q = fork(); if (!q) { Bytes b; for (int i = 0; i < 200; i++) b += newId(c); if (::write(p[1], b.data(), b.size()) < 0) _exit(1); _exit(0); } close(p[1]); kids.push_back(q); ends.push_back(p[0]); }
		for (size_t k = 0; k < kids.size(); k++) { Bytes got; char b[4096]; ssize_t r; while ((r = ::read(ends[k], b, sizeof b)) > 0) got.append(b, (size_t)r); close(ends[k]); int st; waitpid(kids[k], &st, 0); addIds(c, seen, got, "ids from simultaneous processes"); }
		// threads
		Thr t[8]; pthread_t h[8];
		for (int k = 0; k < 8; k++) { t[k] = {&c, c.cases / 8, ""}; pthread_create(&h[k], nullptr, mkIds, &t[k]); }
		for (int k = 0; k < 8; k++) { pthread_join(h[k], nullptr); addIds(c, seen, t[k].ids, "ids from eight threads"); }
		n = vf_fd_count(); if (n != fds) c.fail("fd-leak", "descriptors left open");
	});
	c.mode = m0 + "/closed"; // daemons close their standard descriptors: the next ones opened are 0, 1 and 2
	c.units(8, [&](long u) {
		c.eval("closed" + std::to_string(u)); c.evals--;
		for (int k = 0; k < 16; k++) {
			int p[2]; if (pipe(p)) _exit(7);
			pid_t q = fork();
			if (!q) { int hi = fcntl(p[1], F_DUPFD, 20); if (hi < 0) _exit(3); for (int d = 0; d < 3; d++) if ((k >> d & 1) || k == 0) close(d); long n0 = vf_fd_count(); Bytes b; for (int i = 0; i < 40; i++) b += newId(c); if (vf_fd_count() != n0) _exit(5); if (::write(hi, b.data(), b.size()) != (ssize_t)b.size()) _exit(1); _exit(0); }
			close(p[1]); Bytes got; char b[4096]; ssize_t n; while ((n = ::read(p[0], b, sizeof b)) > 0) got.append(b, (size_t)n);
			close(p[0]); int st; waitpid(q, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) || got.size() != 640) c.fail("child", "a process without standard descriptors could not create its messages or left descriptors open");
			addIds(c, seen, got, "ids with standard descriptors closed");
		}
	});
	c.mode = m0 + "/long"; // one process that creates very many: a counter inside the id must not come round
	c.units(c.thorough ? 8 : 2, [&](long u) {
		const size_t n = c.thorough ? 6000000 : 600000; std::vector<std::pair<uint64_t, uint64_t>> v(n);
		c.eval("long" + std::to_string(u)); c.evals--;
		for (auto &x : v) {
			octet_string *s = u & 1 ? nullptr : sml_octet_string_generate_uuid(); sml_message *m = s ? nullptr : sml_message_init(); octet_string *q = s ? s : m->transaction_id;
			if (!q || q->len != 16) c.fail("length", "id of wrong length");
			memcpy(&x, q->str, 16);
			if (s) sml_octet_string_free(s); else sml_message_free(m);
		}
		std::sort(v.begin(), v.end());
		if (std::adjacent_find(v.begin(), v.end()) != v.end()) c.fail("duplicate", "an id repeats among " + std::to_string(n) + " created by one process");
		c.evals += (long)n; c.note("ids of one long-lived process", (long)n);
		if (vf_fd_count() != fds) c.fail("fd-leak", "descriptors left open");
	});
	for (auto &s : seen) c.distinct.insert(hashBytes(s)); // compared across all shards (processes) by the runner
	c.note("max:bits constant", 0);
	c.mode = m0;
}

// ---------- C17 ----------
static int hv(char ch) { return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1; }
static void holds(Ctx &c, const octet_string *s, const Bytes &b, const Bytes &what) {
	if (!s || s->len != (int)b.size() || (b.size() && memcmp(s->str, b.data(), b.size()))) c.fail("bytes", what + ": holds " + (s ? clipHex(Bytes((char *)s->str, (size_t)s->len)) : "nothing") + " instead of " + clipHex(b));
}
static void m_c17(Ctx &c) {
	Bytes m0 = c.mode;
	auto cmp = [&](octet_string *a, octet_string *b) { return lib([&] { return sml_octet_string_cmp(a, b); }); };
	auto cmphex = [&](octet_string *a, const Bytes &h) { Exact e(h + Bytes(1, '\0')); return lib([&] { return sml_octet_string_cmp_with_hex(a, (char *)e.p); }); };
	auto fromhex = [&](const Bytes &h) { Exact e(h + Bytes(1, '\0')); return lib([&] { return sml_octet_string_init_from_hex((char *)e.p); }); };
	auto init = [&](const Bytes &b) { Exact e(b); return lib([&] { return sml_octet_string_init(e.p, (int)e.n); }); };
	auto fre = [&](octet_string *s) { lib([&] { sml_octet_string_free(s); return 0; }); };
	c.units(c.cases, [&](long u) {
		Rng &r = c.rng; size_t n = u < 600 ? (size_t)u : r.one(40) ? r.below(20000) : r.below(40);
		Bytes b = r.one(3) ? r.bytes(n) : Bytes(n, 0); int style = (int)r.below(5);
		for (auto &ch : b) switch (style) { case 0: ch = (char)r.range(0x1e, 0x80); break; case 1: ch = (char)r.next(); break; case 2: ch = "\x20\x21\x7a\x7b\x7e\x7f\x00\xff"[r.below(8)]; break; case 3: ch = (char)r.range(0x21, 0x7a); break; default: break; }
		if (style == 3 && n) b[r.below(n)] = (char)r.next();
		c.eval(b); long live0 = vf_live_blocks;
		octet_string *s = init(b); holds(c, s, b, "created from bytes");
		// hexadecimal text, mixed case
		Bytes h = hex(b); for (auto &ch : h) if (r.one(2)) ch = (char)toupper(ch);
		octet_string *t = fromhex(h); holds(c, t, b, "created from hexadecimal text");
		if (cmp(s, t) != 0 || cmp(t, s) != 0 || cmp(s, s) != 0) c.fail("equal", "equal strings compare as different");
		if (cmphex(s, h) != 0) c.fail("equal-hex", "string differs from its own hexadecimal text");
		// one difference anywhere
		for (int k = 0; k < 6; k++) {
			Bytes d = b; int how = (int)r.below(5);
			if (how == 0 || d.empty()) d.insert(r.below(d.size() + 1), 1, (char)(r.one(2) ? 0 : r.next()));
			else if (how == 1) d.erase(r.one(2) ? d.size() - 1 : r.below(d.size()), 1);
			else if (how == 2) d[r.below(d.size())] ^= (char)(1 << r.below(8));
			else if (how == 3) d[r.one(2) ? 0 : d.size() - 1] ^= (char)(1 << r.below(8));
			else d = b + b;
			bool same = d == b; octet_string *x = init(d);
			if ((cmp(s, x) == 0) != same || (cmp(x, s) == 0) != same) c.fail("different", "strings " + clipHex(b) + " and " + clipHex(d) + " compare as " + (same ? "different" : "equal"));
			if ((cmphex(s, hex(d)) == 0) != same) c.fail("different-hex", "string " + clipHex(b) + " and text " + clipHex(d) + " compare as " + (same ? "different" : "equal"));
			fre(x); c.note("comparisons", 3);
		}
		// a string and a longer one that contains it
		for (int k = 0; k < 4; k++) {
			size_t e = r.one(2) ? (size_t)1 << r.below(r.one(20) ? 18 : 11) : r.one(4) ? dictInt(r, 3000) + 1 : 1 + r.below(300); Bytes more = r.one(2) ? r.bytes(e) : Bytes(e, r.one(2) ? '\0' : ' '), d = r.one(2) ? b + more : more + b; octet_string *x = init(d);
			if (cmp(s, x) == 0 || cmp(x, s) == 0) c.fail("different", "strings of " + std::to_string(b.size()) + " and " + std::to_string(d.size()) + " bytes, one contained in the other, compare as equal");
			if (cmphex(s, hex(d)) == 0 || cmphex(x, hex(b)) == 0) c.fail("different-hex", "strings of " + std::to_string(b.size()) + " and " + std::to_string(d.size()) + " bytes, one contained in the other, compare as equal");
			fre(x); c.note("comparisons", 4);
		}
		// odd or non-hexadecimal text
		Bytes o = h + "a"; octet_string *y = fromhex(o); if (y) c.fail("odd", "text with an odd number of digits produced a string"); if (cmphex(s, o) == 0) c.fail("odd", "string equals text with an odd number of digits");
		for (int k = 0; k < 4; k++) { // with one character more somewhere, or one less
			static const char odd[] = "a0 \n\t-:x\x7f\x80\xff,"; Bytes z = h; if (k == 3 && !z.empty()) z.erase(r.below(z.size()), 1); else z.insert(k == 0 ? z.size() : k == 1 ? 0 : r.below(z.size() + 1), 1, odd[r.below(sizeof odd - 1)]);
			if (z.size() % 2 == 0) continue;
			octet_string *q = fromhex(z); if (q) c.fail("odd", "text with an odd number of characters produced a string: \"" + z.substr(0, 200) + "\""); if (cmphex(s, z) == 0) c.fail("odd", "string equals text with an odd number of characters"); c.note("malformed texts");
		}
		if (!h.empty()) { Bytes z = h; z[r.below(z.size())] = "gGz @/:`\x80\xff"[r.below(10)]; octet_string *q = fromhex(z); if (q && q->len != (int)b.size()) c.fail("garbage", "malformed text gave a string of another length"); octet_string *q2 = fromhex(z); if ((q == nullptr) != (q2 == nullptr) || (q && cmp(q, q2) != 0)) c.fail("garbage", "malformed text gives no defined result"); fre(q); fre(q2); cmphex(s, z); c.note("malformed texts"); }
		// conversion to text
		sml_value v; memset(&v, 0, sizeof v); v.type = SML_TYPE_OCTET_STRING; v.data.bytes = s;
		for (int mixed = 0; mixed < 2; mixed++) {
			Bytes want; size_t i = 0;
			if (mixed) while (i < b.size() && (unsigned char)b[i] > 0x20 && (unsigned char)b[i] < 0x7b) want += b[i++];
			for (; i < b.size(); i++) { want += "0123456789abcdef"[(unsigned char)b[i] >> 4]; want += "0123456789abcdef"[(unsigned char)b[i] & 15]; want += ' '; }
			char *res = (char *)"untouched"; char *ret = lib([&] { return sml_value_to_strhex(&v, &res, mixed); });
			if (b.empty()) { if (ret && *ret) c.fail("text", "empty string converted to text"); if (ret && ret == res) { lib([&] { free(ret); return 0; }); } }
			else {
				if (!ret || ret != res) c.fail("text", "conversion to text gave no result");
				if (want != ret) { Bytes low; for (char *q = ret; *q; q++) low += (char)tolower(*q); Bytes wl; for (char ch : want) wl += (char)tolower(ch); if (mixed || low != wl) c.fail("text", Bytes(mixed ? "mixed " : "") + "text \"" + Bytes(ret).substr(0, 300) + "\" instead of \"" + want.substr(0, 300) + "\""); }
				lib([&] { free(ret); return 0; });
			}
			c.note("conversions");
		}
		holds(c, s, b, "after comparing and converting");
		// written and read
		if (n) { sml_buffer *w = lib([&] { return sml_buffer_init(n + 16); }); lib([&] { sml_octet_string_write(s, w); return 0; }); w->cursor = 0; octet_string *p = lib([&] { return sml_octet_string_parse(w); }); holds(c, p, b, "written and parsed"); fre(p); LIB(sml_buffer_free(w)); }
		// absent arguments
		if (n) { if (cmp(s, nullptr) == 0 || cmp(nullptr, s) == 0 || cmphex(nullptr, h) == 0) c.fail("absent", "an absent string equals a present one"); }
		if (lib([&] { return sml_octet_string_init_from_hex(nullptr); })) c.fail("absent", "a string from no text");
		if (lib([&] { return sml_octet_string_cmp_with_hex(s, nullptr); }) == 0) c.fail("absent", "a string equals no text");
		cmp(nullptr, nullptr); char *res = nullptr; if (lib([&] { return sml_value_to_strhex(nullptr, &res, false); })) c.fail("absent", "text of an absent value"); v.data.bytes = nullptr; if (lib([&] { return sml_value_to_strhex(&v, &res, true); })) c.fail("absent", "text of a value without bytes");
		fre(s); fre(t); fre(nullptr);
		if (vf_live_blocks != live0) c.fail("leak", "string helpers keep memory");
		c.note("strings");
	});
	c.mode = m0 + "/bytes";
	c.units(256, [&](long u) { // every byte value, every pair of hex digits
		for (int j = 0; j < 256; j++) {
			Bytes h; h += (char)u; h += (char)j; if (!u || !j) continue;
			octet_string *s = fromhex(h); int a = hv((char)u), b = hv((char)j);
			c.evals++; c.input = h;
			if (a >= 0 && b >= 0) holds(c, s, Bytes(1, (char)(a * 16 + b)), "hex pair");
			fre(s); c.note("hex pairs");
		}
		for (int j = 0; j < 256; j++) { Bytes b; b += (char)u; b += (char)j; octet_string *x = init(b), *y = init(Bytes(1, (char)u) + Bytes(1, (char)u)); if ((cmp(x, y) == 0) != (u == j)) c.fail("different", "byte pair comparison"); fre(x); fre(y); c.evals++; }
		for (int mixed = 0; mixed < 2; mixed++) for (int j = 0; j < 256; j++) {
			Bytes b; b += 'A'; b += (char)u; b += (char)j; octet_string *s = init(b); sml_value v; memset(&v, 0, sizeof v); v.data.bytes = s; char *r = nullptr; lib([&] { return sml_value_to_strhex(&v, &r, mixed); });
			Bytes want; size_t i = 0; auto pr = [](unsigned char ch) { return ch > 0x20 && ch < 0x7b; };
			if (mixed) while (i < 3 && pr((unsigned char)b[i])) want += b[i++];
			for (; i < 3; i++) { char t[4]; snprintf(t, sizeof t, "%02x ", (unsigned char)b[i]); want += t; }
			if (!r || want != r) c.fail("text", "\"" + Bytes(r ? r : "(none)") + "\" instead of \"" + want + "\""); free(r); fre(s); c.evals++; c.note("conversions");
		}
		c.distinct.insert(mix((uint64_t)u, 9));
	});
	c.mode = m0 + "/dump"; // the hex dump shows every byte, in order
	c.units(960, [&](long u) {
		Rng &r = c.rng; Bytes b = r.bytes(u < 300 ? (size_t)u : u % 16 ? r.below(600) : r.below(70000));
		if (u >= 300 && u % 4 && b.size()) { // runs and repeated pieces
			size_t per = u % 4 == 1 ? 1 : (size_t)r.range(1, 40), from = r.below(b.size()), to = r.one(3) ? b.size() : from + r.below(b.size() - from + 1); if (r.one(3)) from = 0; if (u % 4 == 2) per = 8u << r.below(3);
			char one = r.one(3) ? 0 : r.one(2) ? (char)0xff : (char)r.next(); for (size_t i = from; i < to; i++) b[i] = u % 4 == 1 ? one : i >= per ? b[i - per] : b[i];
			c.note("hex dumps of repeated bytes");
		}
		c.eval(b); Exact e(b);
		fflush(stdout); int save = dup(1), fd = memfd_create("d", MFD_CLOEXEC); dup2(fd, 1);
		LIB(sml_hexdump(e.p, e.n)); fflush(stdout); dup2(save, 1); close(save);
		Bytes o((size_t)lseek(fd, 0, SEEK_END), 0), h; if (pread(fd, &o[0], o.size(), 0) < 0) _exit(7);
		close(fd);
		size_t run = 0; for (char ch : o) { if (isspace((unsigned char)ch)) { if (run && run != 2) c.fail("dump", "the hex dump has a group of " + std::to_string(run) + " digits"); run = 0; } else { h += (char)tolower(ch); run++; } }
		if (h != hex(b) || memcmp(e.p, b.data(), b.size())) c.fail("dump", "the hex dump of " + clipHex(b, 60) + " shows " + h.substr(0, 120));
		c.note("hex dumps");
	});
	c.mode = m0 + "/big";
	c.units(8, [&](long u) {
		Rng &r = c.rng; static const size_t sz[] = {65535, 65536, 1 << 20, 5 << 20, 12 << 20, 4 << 20, 100000, 32768}; Bytes b = r.bytes(sz[u]); c.eval(b.substr(0, 100) + std::to_string(u));
		octet_string *s = init(b), *t = fromhex(hex(b)); holds(c, s, b, "large"); holds(c, t, b, "large from text"); if (cmp(s, t)) c.fail("equal", "large strings"); t->str[b.size() - 1] ^= 1; if (!cmp(s, t)) c.fail("different", "large strings"); if (cmphex(s, hex(b))) c.fail("equal-hex", "large strings");
		sml_value v; memset(&v, 0, sizeof v); v.data.bytes = s; char *x = nullptr; lib([&] { return sml_value_to_strhex(&v, &x, false); }); if (!x || strlen(x) != 3 * b.size()) c.fail("text", "large string"); free(x); fre(s); fre(t); c.note("large strings");
	});
	c.mode = m0;
}
extern void m_c08(Ctx &);
extern void m_c15(Ctx &), m_c20(Ctx &);
const Mode modes_misc[] = {{"c06", m_c06}, {"c08", m_c08}, {"c11", m_c11}, {"c15", m_c15}, {"c16", m_c16}, {"c17", m_c17}, {"c20", m_c20}, {nullptr, nullptr}};
