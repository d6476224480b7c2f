// C05: what is encoded decodes to the same content.  C18: encoding stays within the buffer.
#include "core.hpp"
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>

// write f into its buffer starting at `at` and judge the bytes produced
static void judgeEncoding(Ctx &c, sml_file *f, size_t at, const std::vector<Bytes> &want, const char *what) {
	sml_buffer *b = f->buf;
	Bytes pre((char *)b->buffer, at);
	b->cursor = at;
	int had = b->error;
	LIB(sml_file_write(f));
	if (b->error && !had) c.fail("error", Bytes(what) + ": the buffer was marked erroneous by writing");
	if (b->cursor < at || b->cursor > b->buffer_len) c.fail("cursor", Bytes(what) + ": write position " + std::to_string(b->cursor) + " outside the buffer of " + std::to_string(b->buffer_len));
	if (memcmp(b->buffer, pre.data(), at)) c.fail("prefix", Bytes(what) + ": bytes before the write position were changed");
	Bytes out((char *)b->buffer + at, b->cursor - at);
	c.maxi("encoded bytes", (long)out.size());
	RefFile rf = refFile(out, true);
	if (rf.droppedCrc) c.fail("crc", Bytes(what) + ": an encoded message has a wrong checksum: " + clipHex(out));
	if (rf.stopped) c.fail("invalid", Bytes(what) + ": encoding is not valid SML at offset " + std::to_string(rf.stopPos) + ": " + clipHex(out.substr(rf.stopPos), 200));
	if (rf.msgs.size() != want.size()) c.fail("count", Bytes(what) + ": " + std::to_string(want.size()) + " messages written, " + std::to_string(rf.msgs.size()) + " found in the encoding");
	size_t end = 0;
	for (size_t k = 0; k < want.size(); k++) {
		if (rf.msgs[k].maybe) c.fail("noncanonical", Bytes(what) + ": encoding of message " + std::to_string(k) + " uses a doubtful form: " + clipHex(out.substr(rf.msgs[k].begin, rf.msgs[k].end - rf.msgs[k].begin)));
		if (rf.msgs[k].dump != want[k]) {
			const Bytes &g = rf.msgs[k].dump; size_t d = 0; while (d < g.size() && d < want[k].size() && g[d] == want[k][d]) d++; d = d > 60 ? d - 60 : 0;
			c.fail("content", Bytes(what) + ": message " + std::to_string(k) + " wrote ..." + want[k].substr(d, 300) + " but the encoding holds ..." + g.substr(d, 300));
		}
		if (rf.msgs[k].begin != end) c.fail("gap", Bytes(what) + ": stray bytes between messages");
		end = rf.msgs[k].end;
	}
	if (end != out.size()) c.fail("gap", Bytes(what) + ": stray bytes after the last message");
	// the library reads it back
	Exact e(out);
	sml_file *g = lib([&] { return sml_file_parse(e.p, e.n); });
	std::vector<Bytes> got = dumpFile(g, VD_ENC);
	LIB(sml_file_free(g));
	if (got != want) {
		size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) k++;
		c.fail("self-decode", Bytes(what) + ": the library reads back " + std::to_string(got.size()) + " of " + std::to_string(want.size()) + " messages, first difference at " + std::to_string(k));
	}
	c.note("messages written and decoded", (long)want.size());
}
static std::vector<Bytes> expectBuilt(const std::vector<Msg> &ms) {
	// from the model, through the reference encoder and decoder; independent of the library
	std::vector<Bytes> v;
	for (auto &m : ms) { Bytes b = encMsg(m); RefFile rf = refFile(b); if (rf.msgs.size() != 1) { fprintf(stderr, "harness: generator\n"); _exit(7); } v.push_back(rf.msgs[0].dump); }
	return v;
}
static void replaceBuf(sml_file *f, size_t n, unsigned char fill) {
	LIB(sml_buffer_free(f->buf));
	f->buf = lib([&] { return sml_buffer_init(n); });
	memset(f->buf->buffer, fill, n);
}
void writeAgain(const Bytes &in) {
	Ctx &c = *C; Rng &r = c.rng;
	Exact e(in); sml_file *f = lib([&] { return sml_file_parse(e.p, e.n); });
	RefFile rf = refFile(in); bool open = false; for (auto &m : rf.msgs) open |= m.maybe;
	if (f->messages_len && !open) {
		std::vector<Bytes> want = dumpFile(f, VD_ENC);
		replaceBuf(f, 1 + r.below(600), 0xEE);
		judgeEncoding(c, f, 0, want, "written after parsing");
		if (r.one(4)) { memset(f->buf->buffer, 0xff, f->buf->buffer_len); judgeEncoding(c, f, r.below(4), want, "written again after parsing"); }
	}
	LIB(sml_file_free(f));
}
extern "C" void __asan_init() __attribute__((weak));
static void m_c05(Ctx &c) {
	Bytes m0 = c.mode;
	c.units(c.cases, [&](long u) {
		Rng &r = c.rng; Prof p = randProf(r); p.stdWidth = true; p.zg22 = 0;
		if (u % 60 == 11) { p.hugeStr = 70000; p.budget = 4000; }
		Gen g(r, p); long live0 = vf_live_blocks;
		sml_file *f = lib([&] { return sml_file_init(); });
		std::vector<Msg> ms; int n = r.range(1, 4);
		for (int i = 0; i < n; i++) { ms.push_back(genMsg(g, r.one(2) ? (int)((size_t)u % specs().size()) : -1)); likePrevious(r, ms.back(), i ? &ms[(size_t)i - 1] : nullptr); lib([&] { sml_file_add_message(f, bMsg(ms.back())); return 0; }); }
		std::vector<Bytes> want = expectBuilt(ms);
		std::vector<Bytes> built = dumpFile(f, VD_ENC);
		if (built != want) { fprintf(stderr, "harness: builder differs from model\n%s\n%s\n", built[0].c_str(), want[0].c_str()); _exit(7); }
		Bytes all; for (auto &m : ms) all += encMsg(m);
		c.eval(all);
		judgeEncoding(c, f, 0, want, "first write");
		int rounds = r.range(0, 3);
		for (int q = 0; q < rounds; q++) {
			switch (r.below(5)) {
			case 0: judgeEncoding(c, f, 0, want, "written again over the old bytes"); break;
			case 1: memset(f->buf->buffer, r.one(2) ? 0xff : (int)r.below(256), f->buf->buffer_len); judgeEncoding(c, f, 0, want, "written over other bytes"); break;
			case 2: { size_t at = r.below(std::min<size_t>(f->buf->buffer_len, 40)); judgeEncoding(c, f, at, want, "written behind other bytes"); break; }
			case 3: replaceBuf(f, 1 + r.below(8192), (unsigned char)r.next()); judgeEncoding(c, f, 0, want, "written to a new buffer"); break;
			default: { Prof p2 = p; p2.budget = 300; p2.hugeStr = 0; Gen g2(r, p2); ms.push_back(genMsg(g2)); lib([&] { sml_file_add_message(f, bMsg(ms.back())); return 0; }); want = expectBuilt(ms); judgeEncoding(c, f, 0, want, "written again with one more message"); }
			}
			c.note("repeated writes");
		}
		if (dumpFile(f, VD_ENC) != want) c.fail("altered", "writing altered the file's content");
		LIB(sml_file_free(f));
		if (vf_live_blocks != live0) c.note("blocks left");
	});
	c.mode = m0 + "/parsed";
	c.units(c.cases, [&](long) { // parse, write, decode; parse the encoding and write once more
		Rng &r = c.rng; Bytes in = r.one(4) ? genHostile(r) : genFile(r, randProf(r), 3);
		Exact e(in); sml_file *f = lib([&] { return sml_file_parse(e.p, e.n); });
		std::vector<Bytes> want = dumpFile(f, VD_ENC);
		c.eval(in, f->messages_len > 0);
		// a time whose choice tag is no known one, or a tree nested beyond what is safe, is outside what can be written
		RefFile rf = refFile(in); bool open = false; for (auto &m : rf.msgs) open |= m.maybe;
		if (f->messages_len && !open) {
			// what the library would encode must decode to the same thing
			if (r.one(2)) replaceBuf(f, 1 + r.below(3000), 0xEE);
			judgeEncoding(c, f, 0, want, "written after parsing");
			if (r.one(2)) judgeEncoding(c, f, 0, want, "written again after parsing");
			if (r.one(3)) { Prof p; p.stdWidth = true; p.zg22 = 0; Gen g(r, p); Msg m = genMsg(g); lib([&] { sml_file_add_message(f, bMsg(m)); return 0; }); want = dumpFile(f, VD_ENC); judgeEncoding(c, f, 0, want, "written with a message added to a parsed file"); }
			c.note("parsed files written");
		}
		LIB(sml_file_free(f));
	});
	c.mode = m0 + "/files";
	c.units((long)countSweep().size(), [&](long u) { // files of every number of messages
		Rng &r = c.rng; int n = countSweep()[(size_t)u];
		Prof p; p.budget = 30; p.maxList = 1; p.maxStr = 3; p.depth = 1; p.absent = 50; p.stdWidth = true; p.zg22 = 0; Gen g(r, p);
		sml_file *f = lib([&] { return sml_file_init(); }); std::vector<Msg> ms; Bytes all;
		for (int i = 0; i < n; i++) { ms.push_back(genMsg(g)); all += encMsg(ms.back()); lib([&] { sml_file_add_message(f, bMsg(ms.back())); return 0; }); }
		std::vector<Bytes> want = expectBuilt(ms);
		c.eval(all); c.note("message counts");
		if (dumpFile(f, VD_ENC) != want) c.fail("add", std::to_string(n) + " messages added to a file are not the ones it holds");
		judgeEncoding(c, f, 0, want, "file of many messages");
		LIB(sml_file_free(f));
	});
	c.mode = m0 + "/huge"; // counts that do not fit sixteen bits
	static const long slim[] = {2, 8}; const long nh = __asan_init ? 2 : 10;
	c.units(2 * nh, [&](long u) {
		Rng &r = c.rng; int n = u & 1 ? 70001 : 65536; long k = __asan_init ? slim[u >> 1] : u >> 1;
		std::vector<Msg> ms; Bytes all;
		if (k == 9) { Msg m; m.tid = Oct("c"); m.gid = Uns(0, 1); m.abort = Uns(0, 1); m.body = List({Uns(0x201, 2), List({Abs()})}); ms.assign((size_t)n, m); }
		else ms.push_back(lenMsg(r, lenKinds[k], n, true));
		std::vector<Bytes> want = expectBuilt(ms); sml_file *f = lib([&] { return sml_file_init(); });
		for (auto &m : ms) lib([&] { sml_file_add_message(f, bMsg(m)); return 0; });
		c.eval(encMsg(ms[0]) + std::to_string(ms.size())); c.note("counts beyond sixteen bits");
		judgeEncoding(c, f, 0, want, "very many elements");
		LIB(sml_file_free(f));
	});
	c.mode = m0 + "/len";
	static const int LENS[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 29, 30, 31, 32, 33, 47, 48, 63, 64, 65, 100, 127, 128, 129, 200, 252, 253, 254, 255, 256, 257, 258, 270, 300, 511, 512, 513, 1000, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4098, 8000, 32767, 32768, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537};
	const long nl = (long)(sizeof LENS / sizeof *LENS), nt = (long)(sizeof lenKinds / sizeof *lenKinds);
	c.units(nl * nt, [&](long u) {
		Rng &r = c.rng; int n = LENS[u % nl]; T t = lenKinds[u / nl];
		if (t != tOct && n > (c.thorough ? 70000 : 5000)) return;
		Msg m = lenMsg(r, t, n, true);
		std::vector<Msg> ms = {m}; std::vector<Bytes> want = expectBuilt(ms);
		sml_file *f = lib([&] { return sml_file_init(); });
		lib([&] { sml_file_add_message(f, bMsg(m)); return 0; });
		c.eval(encMsg(m)); c.note("boundary lengths");
		judgeEncoding(c, f, 0, want, "boundary length");
		memset(f->buf->buffer, 0xff, f->buf->buffer_len);
		judgeEncoding(c, f, 0, want, "boundary length, dirty buffer");
		LIB(sml_file_free(f));
	});
	c.mode = m0 + "/depth";
	c.units(101, [&](long u) {
		Msg m = depthMsg(c.rng, (int)u); std::vector<Msg> ms = {m}; std::vector<Bytes> want = expectBuilt(ms);
		sml_file *f = lib([&] { return sml_file_init(); });
		lib([&] { sml_file_add_message(f, bMsg(m)); return 0; });
		c.eval(encMsg(m)); c.note("nesting depths");
		judgeEncoding(c, f, 0, want, "nested trees"); judgeEncoding(c, f, 0, want, "nested trees, again");
		LIB(sml_file_free(f));
	});
	c.mode = m0 + "/elem"; // every element type on its own, at every small offset, dirty buffer
	c.units(c.cases, [&](long u) {
		Rng &r = c.rng; const ElP &e = elps()[(size_t)u % elps().size()];
		Prof p = randProf(r); p.stdWidth = true; p.zg22 = 0; p.budget = 500; Gen g(r, p);
		Node nd = genFor(g, e); Bytes b = enc(nd); Ref x(b); if (!refFor(x, e)) { fprintf(stderr, "harness: element\n"); _exit(7); }
		// only what the typed interface of fixed-width numbers can hold
		void *obj = lib([&] { return e.build(nd); });
		size_t at = somewhere(r, 20); sml_buffer *w = lib([&] { return sml_buffer_init(at + b.size() * 4 + 4096); }); memset(w->buffer, (int)r.below(256), w->buffer_len);
		w->cursor = at;
		c.eval(Bytes(e.name) + b);
		lib([&] { e.write(obj, w); return 0; });
		if (w->error) c.fail("error", Bytes(e.name) + ": marked erroneous by writing");
		Bytes out((char *)w->buffer + at, w->cursor - at);
		Ref y(out);
		if (!refFor(y, e) || y.pos != out.size()) c.fail("invalid", Bytes(e.name) + ": wrote " + clipHex(out) + ", which is not exactly one valid element");
		if (y.out != x.out) c.fail("content", Bytes(e.name) + ": wrote " + x.out.substr(0, 300) + ", encoding holds " + y.out.substr(0, 300));
		Bytes full = out + Bytes(3, '\0');
		sml_buffer *rd = mkbuf(full);
		void *back = lib([&] { return e.parse(rd); });
		vf_out o = {0, 0, 0}; e.dump(&o, back, VD_ENC); Bytes got(o.p, o.len); vo_free(&o);
		if (rd->error || rd->cursor != out.size() || got != x.out) c.fail("self-decode", Bytes(e.name) + ": read back " + got.substr(0, 300) + " instead of " + x.out.substr(0, 300));
		lib([&] { if (back) e.fre(back); if (obj) e.fre(obj); sml_buffer_free(rd); sml_buffer_free(w); return 0; });
		c.note("single elements");
	});
	c.mode = m0 + "/tl"; // the type-length field itself, every length up to 70000 and around every power of 16
	c.units(64, [&](long u) {
		sml_buffer *w = lib([&] { return sml_buffer_init(64); });
		std::vector<uint64_t> ls; for (uint64_t l = (uint64_t)u; l < 70000; l += 64) ls.push_back(l);
		for (int k = 5; k <= 7; k++) for (int d = -12; d <= 12; d++) if (((d + 12) & 63) == (u & 63) || u == 0) ls.push_back((1ull << (4 * k)) + (uint64_t)(int64_t)d);
		static const int types[] = {0, 0x70};
		for (uint64_t l : ls) for (int t : types) for (int fill = 0; fill < 2; fill++) {
			memset(w->buffer, fill ? 0xff : 0, 64); w->cursor = 0;
			lib([&] { sml_buf_set_type_and_length(w, (unsigned)t, (unsigned)l); return 0; });
			Bytes out((char *)w->buffer, w->cursor), want; encTL(want, t, l);
			c.evals++; c.input = std::to_string(l);
			Ref x(out); int ty; int64_t len;
			if (!x.tl(ty, len) || ty != t || len != (int64_t)l || x.pos != out.size() || x.maybe) c.fail("tl", "type " + std::to_string(t) + " length " + std::to_string(l) + " encoded as " + hex(out) + ", expected " + hex(want));
			c.note("type-length fields");
		}
		c.distinct.insert(mix((uint64_t)u, 991));
		LIB(sml_buffer_free(w));
	});
	c.mode = m0;
}

// ---------- C18 ----------
static void m_c18(Ctx &c) {
	Bytes m0 = c.mode;
	c.units(c.cases, [&](long u) { // a file written into library-created buffers of all sizes around what is needed
		Rng &r = c.rng; Prof p = randProf(r); p.stdWidth = true; p.zg22 = 0; p.budget = u % 30 == 5 ? 5000 : 150; if (u % 30 == 9) { p.hugeStr = 70000; }
		Gen g(r, p); sml_file *f = lib([&] { return sml_file_init(); }); int n = r.range(1, 3);
		for (int i = 0; i < n; i++) { Msg m = genMsg(g); lib([&] { sml_file_add_message(f, bMsg(m)); return 0; }); }
		std::vector<Bytes> want = dumpFile(f, VD_ENC);
		// how much is needed
		LIB(sml_buffer_free(f->buf)); f->buf = lib([&] { return sml_buffer_init(4u << 20); });
		LIB(sml_file_write(f));
		Bytes ref((char *)f->buf->buffer, f->buf->cursor);
		c.eval(ref);
		std::vector<size_t> sizes = {0, 1, 2, 3, 7, 16, 64, 512};
		for (int d = -9; d <= 9; d++) if ((long)ref.size() + d >= 0) sizes.push_back(ref.size() + (size_t)d);
		for (int k = 0; k < 12; k++) sizes.push_back(r.below(ref.size() + 1));
		for (size_t s : sizes) {
			LIB(sml_buffer_free(f->buf)); f->buf = lib([&] { return sml_buffer_init(s); });
			LIB(sml_file_write(f));
			sml_buffer *b = f->buf;
			bool complete = b->cursor == ref.size() && b->cursor <= b->buffer_len && !memcmp(b->buffer, ref.data(), ref.size());
			if (!complete && !b->error) c.fail("incomplete", "a file of " + std::to_string(ref.size()) + " bytes written to a buffer of " + std::to_string(s) + ": encoding incomplete and no error reported");
			if (b->cursor > b->buffer_len) c.fail("cursor", "write position beyond the end of the buffer");
			if (!b->error) c.note("encodings complete"); else c.note("encodings refused");
			c.evals++;
		}
		// through the transport writer
		for (size_t s : {(size_t)0, (size_t)1, (size_t)7, (size_t)8, (size_t)9, ref.size(), ref.size() + 8, ref.size() + 15, ref.size() + 16}) {
			LIB(sml_buffer_free(f->buf)); f->buf = lib([&] { return sml_buffer_init(s); });
			int fd = open("/dev/null", O_WRONLY); long ret = lib([&] { return (long)sml_transport_write(fd, f); }); close(fd);
			size_t full = 8 + (ref.size() + 3) / 4 * 4 + 8;
			if (ret != 0 && ret != (long)full) c.fail("transport", "frame of " + std::to_string(full) + " bytes, " + std::to_string(ret) + " reported");
			if (ret == 0 && !f->buf->error) c.fail("transport", "0 reported without an error mark on the buffer");
			c.evals++; c.note("frames");
		}
		(void)want;
		LIB(sml_file_free(f));
	});
	c.mode = m0 + "/elem";
	c.units(c.cases * 2, [&](long u) {
		Rng &r = c.rng; const ElP &e = elps()[(size_t)u % elps().size()];
		Prof p = randProf(r); p.stdWidth = true; p.zg22 = 0; p.budget = 120; if (r.one(20)) p.hugeStr = 70000; Gen g(r, p);
		Node nd = r.one(12) && e.t != tHdr && e.t != tPope && e.t != tVEntry && e.t != tVSeq && e.t != tBody && e.t != tMessage ? Abs() : genFor(g, e);
		void *obj = lib([&] { return e.build(nd); });
		sml_buffer *w = lib([&] { return sml_buffer_init(1u << 20); }); lib([&] { e.write(obj, w); return 0; });
		Bytes ref((char *)w->buffer, w->cursor); LIB(sml_buffer_free(w));
		c.eval(Bytes(e.name) + ref);
		std::vector<size_t> sizes; if (ref.size() < 60) for (size_t s = 0; s <= ref.size() + 2; s++) sizes.push_back(s);
		else { for (int d = -6; d <= 3; d++) sizes.push_back(ref.size() + (size_t)(long)d); sizes.push_back(0); sizes.push_back(1); for (int k = 0; k < 8; k++) sizes.push_back(r.below(ref.size())); }
		for (size_t s0 : sizes) {
			size_t s = s0, at = s ? r.below(s + 1) : 0; if (r.one(2)) at = 0; // the buffer may already hold something, up to being full
			size_t far = r.one(6) ? somewhere(r, 20) : 0; at += far; s += far;
			w = lib([&] { return sml_buffer_init(s); }); w->cursor = at; memset(w->buffer, 0x3c, s);
			lib([&] { e.write(obj, w); return 0; });
			bool complete = w->cursor == at + ref.size() && w->cursor <= w->buffer_len && !memcmp(w->buffer + at, ref.data(), ref.size());
			if (!complete && !w->error) c.fail("incomplete", Bytes(e.name) + " of " + std::to_string(ref.size()) + " bytes written at " + std::to_string(at) + " of a buffer of " + std::to_string(s) + ": incomplete and no error reported");
			if (w->cursor > w->buffer_len) c.fail("cursor", Bytes(e.name) + ": write position beyond the end of the buffer");
			c.note(w->error ? "encodings refused" : "encodings complete");
			LIB(sml_buffer_free(w)); c.evals++;
		}
		lib([&] { if (obj) e.fre(obj); return 0; });
	});
	c.mode = m0 + "/number"; // numbers of every width, from exactly as many bytes, into buffers with exactly as much room
	c.units(c.cases / 8, [&](long u) {
		Rng &r = c.rng; int size = 1 + (int)(u % 8), type = r.one(2) ? 0x50 : 0x60; Bytes raw = r.bytes((size_t)size); c.eval(Bytes(1, (char)(type | size)) + raw);
		for (size_t room = 0; room <= (size_t)size + 10; room++) {
			size_t at = r.one(2) ? 0 : r.below(40); sml_buffer *w = lib([&] { return sml_buffer_init(at + room); }); w->cursor = at; Exact e(raw);
			lib([&] { sml_number_write(e.p, (unsigned char)type, size, w); return 0; });
			uint64_t v = 0, g = 0; for (int i = size; i-- > 0;) v = v << 8 | (unsigned char)raw[(size_t)i]; // little-endian memory
			Bytes o((char *)w->buffer + at, w->cursor <= w->buffer_len && w->cursor > at ? w->cursor - at : 0); for (size_t i = 1; i < o.size(); i++) g = g << 8 | (unsigned char)o[i];
			bool ok = o.size() == (size_t)size + 1 && (unsigned char)o[0] == (type | (size + 1)) && g == v;
			if (!ok && !w->error) c.fail("incomplete", "a number of " + std::to_string(size) + " bytes written to a buffer with room for " + std::to_string(room) + ": " + hex(o));
			LIB(sml_buffer_free(w)); c.evals++; c.note("number widths");
		}
	});
	c.mode = m0 + "/grow";
	c.units(16, [&](long u) { // many messages, big elements, into the default buffer
		Rng &r = c.rng; sml_file *f = lib([&] { return sml_file_init(); });
		long n = u < 8 ? 1 << (u + 2) : 2; Prof p; p.stdWidth = true; p.zg22 = 0; p.budget = 100; if (u >= 8) { p.hugeStr = 300000; p.maxStr = 100000; p.absent = 0; } Gen g(r, p);
		for (long i = 0; i < n; i++) { Msg m = genMsg(g, u >= 8 ? (int)(u % 14) : -1); lib([&] { sml_file_add_message(f, bMsg(m)); return 0; }); }
		std::vector<Bytes> want = dumpFile(f, VD_ENC);
		LIB(sml_file_write(f));
		c.eval(Bytes((char *)f->buf->buffer, std::min<size_t>(f->buf->cursor, 4096)) + std::to_string(u));
		if (!f->buf->error) { Bytes out((char *)f->buf->buffer, f->buf->cursor); RefFile rf = refFile(out, true); std::vector<Bytes> got; for (auto &m : rf.msgs) got.push_back(m.dump); if (rf.stopped || got != want) c.fail("incomplete", "large file: encoding incomplete without error"); }
		c.note("large files"); c.maxi("encoded bytes", (long)f->buf->cursor);
		LIB(sml_file_free(f));
	});
	c.mode = m0;
}
const Mode modes_write[] = {{"c05", m_c05}, {"c18", m_c18}, {nullptr, nullptr}};
