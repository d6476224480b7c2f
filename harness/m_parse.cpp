#include "core.hpp"
#include <csignal>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>

// ---------- single elements ----------
static const Bytes ALPHA("\x00\x01\x02\x05\x42\x51\x52\x53\x61\x62\x63\x65\x70\x71\x72\x73\x75\x77\x80\x81\xe2\xf1\xff", 23);

void elemCheck(const ElP &e, const Bytes &content, size_t start, bool oracle, bool extra) {
	Ctx &c = *C;
	Ref r(content, start);
	bool ok = oracle && refFor(r, e);
	long live0 = vf_live_blocks;
	sml_buffer *b = mkbuf(content, start);
	void *res = lib([&] { return e.parse(b); });
	if (oracle) {
		if (b->cursor > b->buffer_len) c.fail("cursor-beyond-end", Bytes(e.name) + ": position " + std::to_string(b->cursor) + " beyond the end " + std::to_string(b->buffer_len));
		if (b->buffer_len != content.size() || memcmp(b->buffer, content.data(), content.size())) c.fail("buffer-changed", Bytes(e.name) + ": parsing changed the buffer");
		bool err = b->error != 0;
		if (!r.maybe) {
			if (ok && err) c.fail("rejected", Bytes(e.name) + ": well-formed element reported as erroneous; reference " + r.out.substr(0, 300));
			if (!ok && !err) c.fail("accepted", Bytes(e.name) + ": invalid element accepted without error");
		}
		if (ok && !err) {
			if (b->cursor != r.pos && !r.maybe) c.fail("cursor", Bytes(e.name) + ": consumed " + std::to_string((long)b->cursor - (long)start) + " bytes, element has " + std::to_string(r.pos - start));
			vf_out o = {0, 0, 0};
			e.dump(&o, res, 0);
			Bytes got(o.p, o.len); vo_free(&o);
			if (got != r.out && !(r.maybe && b->cursor != r.pos)) c.fail("content", Bytes(e.name) + ": expected " + r.out.substr(0, 300) + " got " + got.substr(0, 300));
			c.note("elements accepted");
			if (res && !r.maybe) { // written again: exactly one element, the position right behind it
				size_t at = somewhere(c.rng, 9);
				sml_buffer *w = lib([&] { return sml_buffer_init(at + content.size() * 4 + 64); }); memset(w->buffer, (int)c.rng.below(256), w->buffer_len); w->cursor = at;
				Bytes head((char *)w->buffer, at);
				lib([&] { e.write(res, w); return 0; });
				if (w->error || w->cursor < at || w->cursor > w->buffer_len) c.fail("write-cursor", Bytes(e.name) + ": writing moved the position from " + std::to_string(at) + " to " + std::to_string(w->cursor));
				if (memcmp(w->buffer, head.data(), at)) c.fail("write-before", Bytes(e.name) + ": writing changed bytes before the position");
				Bytes wrote((char *)w->buffer + at, w->cursor - at); Bytes more = wrote + Bytes(3, '\0'); Ref y(more);
				o = {0, 0, 0}; e.dump(&o, res, VD_ENC); Bytes want(o.p, o.len); vo_free(&o); LIB(sml_buffer_free(w));
				if (!refFor(y, e) || y.maybe || y.pos != wrote.size()) c.fail("write-position", Bytes(e.name) + ": the position was advanced by " + std::to_string(wrote.size()) + " bytes, which are not exactly one element: " + clipHex(wrote));
				if (y.out != want) c.fail("write-content", Bytes(e.name) + ": wrote " + want.substr(0, 300) + ", the bytes hold " + y.out.substr(0, 300));
				c.note("elements written");
			}
		} else c.note(err ? "elements rejected" : "open cases");
		if (err) {
			// the mark is sticky
			void *res2 = nullptr; const ElP &e2 = elps()[c.rng.below(elps().size())];
			size_t cur = b->cursor;
			long l2 = vf_live_blocks; // what a parser keeps when it is started on an erroneous buffer is not claimed (the library never does that)
			res2 = lib([&] { return e2.parse(b); });
			if (!b->error) c.fail("error-cleared", Bytes("error mark of a failed ") + e.name + " parse cleared by " + e2.name);
			if (b->cursor > b->buffer_len) c.fail("cursor-beyond-end", Bytes(e2.name) + " on an erroneous buffer moved the position from " + std::to_string(cur) + " to " + std::to_string(b->cursor));
			if (res2) lib([&] { e2.fre(res2); return 0; });
			live0 += vf_live_blocks - l2;
		}
	}
	if (extra && res && !b->error) {
		// write what was read
		sml_buffer *w = lib([&] { return sml_buffer_init(16); });
		lib([&] { e.write(res, w); return 0; });
		lib([&] { sml_buffer_free(w); return 0; });
	}
	lib([&] { if (res) e.fre(res); sml_buffer_free(b); return 0; });
	if (vf_live_blocks != live0) c.fail("leak", Bytes(e.name) + ": " + std::to_string(vf_live_blocks - live0) + " block(s) not released");
}
// all strings of length <= L over the alphabet, for one parser
static long npow(long a, int n) { long r = 1; while (n--) r *= a; return r; }
static Bytes nth(long i, int L, const Bytes &al) { Bytes s; for (int k = 0; k < L; k++) { s += al[(size_t)(i % (long)al.size())]; i /= (long)al.size(); } return s; }

// whole messages through sml_message_parse and sml_message_write, at any position of a buffer
static void messageUnits(Ctx &c) {
	Bytes m0 = c.mode; c.mode += "/message";
	c.units(c.cases, [&](long u) {
		Rng &r = c.rng; Prof p = randProf(r); if (p.budget > 2000) p.budget = 400; Gen g(r, p);
		Msg m = genMsg(g, r.one(2) ? (int)((size_t)u % specs().size()) : -1); m.crcMode = r.one(8) ? 2 : r.one(6) ? 1 : 0;
		std::vector<Elem> el; Bytes b = encMsg(m, &el), pre = r.bytes(r.one(8) ? somewhere(r, 9) : r.below(9)), post = r.one(3) ? Bytes() : r.one(2) ? r.bytes(r.below(9)) : encMsg(genMsg(g));
		switch (r.below(6)) {
		case 0: b = sealMsg(mutateHead(r, encMsgHead(m, &el), el), m.crcMode); break;
		case 1: b = havoc(r, b, r.range(1, 4)); break;
		case 2: b.resize(r.below(b.size() + 1)); post = ""; break;
		case 3: if (r.one(4)) { b = sealMsg(encMsgHead(m), m.crcMode, 0, r.range(0, 4), (int)r.below(3)); } break;
		case 4: if (r.one(2)) { std::vector<Elem> e2; Bytes h = encMsgHead(m, &e2); b = sealMsg(loosen(r, h, e2, r.one(2) ? 100 : 10, 8), m.crcMode); c.note("messages with loose lengths"); } break;
		}
		Bytes full = pre + b + post;
		c.eval(full);
		long live0 = vf_live_blocks;
		sml_buffer *buf = mkbuf(full, pre.size());
		Ref x(full, pre.size()); bool ok = x.pos < x.end && x.message();
		sml_message *got = lib([&] { return sml_message_parse(buf); });
		if (buf->cursor > buf->buffer_len) c.fail("cursor-beyond-end", "message: position beyond the end");
		if (memcmp(buf->buffer, full.data(), full.size()) || buf->buffer_len != full.size()) c.fail("buffer-changed", "message: parsing changed the buffer");
		bool err = buf->error != 0;
		if (got && err) c.fail("delivered", "a message was returned although the buffer is marked erroneous");
		if (!x.maybe) {
			if (ok && err) c.fail("rejected", "well-formed message reported as erroneous; reference " + x.out.substr(0, 300));
			if (!ok && !err) c.fail("accepted", "invalid message accepted without error");
			if (ok && (got != nullptr) != (x.msgState == 1)) c.fail("checksum", got ? "a message with a wrong checksum was returned" : "a message with a correct checksum was not returned");
			if (ok && got && buf->cursor != x.pos) c.fail("cursor", "message: consumed " + std::to_string((long)buf->cursor - (long)pre.size()) + " bytes, it has " + std::to_string(x.pos - pre.size()));
			if (ok && got && dumpMsg(got) != x.out) c.fail("content", "message: expected " + x.out.substr(0, 300) + " got " + dumpMsg(got).substr(0, 300));
		}
		c.note(got ? "messages accepted" : "messages rejected");
		if (got && !x.maybe) {
			size_t at = somewhere(r, 20), n = at + full.size() * 4 + 256; sml_buffer *w = lib([&] { return sml_buffer_init(n); }); memset(w->buffer, (int)r.below(256), n); w->cursor = at;
			Bytes want = dumpMsg(got, VD_ENC);
			LIB(sml_message_write(got, w));
			if (w->error || w->cursor < at || w->cursor > w->buffer_len) c.fail("write-cursor", "message: writing moved the position from " + std::to_string(at) + " to " + std::to_string(w->cursor));
			Bytes wrote((char *)w->buffer + at, w->cursor - at); Ref y(wrote); y.strictCrc = true;
			if (wrote.empty() || !y.message() || y.msgState != 1 || y.pos != wrote.size() || y.maybe) c.fail("write-position", "message: the position was advanced by " + std::to_string(wrote.size()) + " bytes, which are not exactly one message: " + clipHex(wrote));
			if (y.out != want) c.fail("write-content", "message: wrote " + want.substr(0, 300) + ", the bytes hold " + y.out.substr(0, 300));
			LIB(sml_buffer_free(w)); c.note("messages written");
		}
		lib([&] { sml_message_free(got); sml_buffer_free(buf); return 0; });
		if (vf_live_blocks != live0) c.fail("leak", "message: " + std::to_string(vf_live_blocks - live0) + " block(s) not released");
	});
	c.mode = m0;
}

static void elemUnits(Ctx &c, bool oracle, int L, long rnd, bool extra) {
	size_t ne = elps().size();
	Bytes al = ALPHA;
	c.units((long)ne * (long)al.size(), [&](long u) {
		const ElP &e = elps()[(size_t)u % ne];
		char first = al[(size_t)u / ne];
		for (int len = 1; len <= L; len++) {
			long n = npow((long)al.size(), len - 1);
			for (long i = 0; i < n; i++) {
				Bytes s = Bytes(1, first) + nth(i, len - 1, al);
				c.evals++;
				c.input = s;
				elemCheck(e, s, 0, oracle, extra);
			}
			c.note("exhaustive short inputs", n);
		}
		c.distinct.insert(mix((uint64_t)u, 77));
		if (first == al[0]) { c.eval("", false); elemCheck(e, "", 0, oracle, extra); }
	});
	long base = (long)(ne * al.size());
	(void)base;
	Bytes m0 = c.mode; c.mode += "/r";
	c.units(rnd, [&](long u) {
		Rng &r = c.rng;
		const ElP &e = elps()[(size_t)u % ne];
		Prof p = randProf(r); if (p.budget > 2000) p.budget = 400;
		Gen g(r, p);
		std::vector<Elem> el; Bytes b = enc(genFor(g, e), &el);
		Bytes pre = r.bytes(r.one(8) ? somewhere(r, 9) : r.below(9)), post = r.bytes(r.below(5));
		int kind = (int)r.below(6);
		Bytes s = b;
		if (kind == 1) s = mutateHead(r, b, el);
		else if (kind == 2) s = havoc(r, b, r.range(1, 4));
		else if (kind == 3) s.resize(r.below(s.size() + 1)), post = "";
		else if (kind == 4) { s = mutateHead(r, b, el); post = ""; }
		else if (kind == 5 && r.one(2)) s = loosen(r, b, el, r.one(2) ? 100 : 20, 10);
		Bytes full = pre + s + post;
		c.eval(Bytes(e.name) + ":" + full);
		elemCheck(e, full, pre.size(), oracle, extra);
		if (kind == 0) c.note("well-formed elements");
	});
	if (extra || oracle) c.units(200, [&](long u) { // every prefix of a well-formed element
		Rng &r = c.rng; const ElP &e = elps()[(size_t)u % ne];
		Prof p; p.budget = 200; Gen g(r, p);
		Bytes b = enc(genFor(g, e));
		for (size_t n = 0; n < b.size() && n < 400; n++) {
			Bytes full = b.substr(0, n);
			c.eval(Bytes(e.name) + "|" + full);
			elemCheck(e, full, 0, oracle, false);
		}
		c.note("truncation sweeps");
	});
	c.mode = m0;
}

// ---------- C01 ----------
static void m_c01(Ctx &c) {
	c.units(c.cases, [&](long) {
		Bytes kind, b = genHostile(c.rng, &kind);
		c.eval(b, b.size() > 4);
		c.note("kind: " + kind);
		checkFile(b, P_NOCMP | P_NOMEM | P_PRINT | P_TOUCH | P_REWRITE);
	});
	Bytes m0 = c.mode; c.mode += "/deep";
	c.units(16, [&](long u) { // nesting far beyond any stack, and big counts
		static const long depths[] = {1000, 20000, 200000, 1500000};
		long d = depths[u % 4] ;
		Bytes b;
		if (u < 4) { // tree nesting in an attention response
			b = Bytes("\x76\x01\x62\x00\x62\x00\x72\x63\xff\x01\x74\x01\x01\x01", 14);
			for (long i = 0; i < d; i++) b += Bytes("\x73\x01\x01\x71", 4);
		} else if (u < 8) {
			b = Bytes("\x76\x01\x62\x00\x62\x00\x72\x63\x05\x01\x73\x01\x01", 13);
			for (long i = 0; i < d; i++) b += Bytes("\x73\x01\x01\x71", 4);
			b += Bytes("\x73\x01\x01\x01", 4); b = sealMsg(b);
		} else if (u < 12) { // long TL chains
			b = Bytes("\x76", 1) + Bytes((size_t)d, (char)0x8f) + Bytes("\x0f", 1);
		} else { b = Bytes((size_t)d, (char)0xf1); }
		c.eval(b.substr(0, 4096));
		checkFile(b, P_NOCMP | P_NOMEM | P_PRINT | P_TOUCH | P_REWRITE);
		c.maxi("input bytes", (long)b.size());
	});
	c.mode = m0 + "/deeper"; // trees nested in any child
	c.units(c.thorough ? 2000 : 160, [&](long u) {
		Bytes b = deepMsg(c.rng, u % 8 == 7 ? 60000 : c.rng.one(2) ? (size_t)c.rng.range(1, 600) : (size_t)c.rng.range(1, 8000)); c.eval(b.substr(0, 4096)); c.note("nested trees");
		checkFile(b, P_NOCMP | P_NOMEM | P_PRINT | P_TOUCH | P_REWRITE);
	});
	c.mode = m0 + "/huge";
	c.units(c.thorough ? 240 : 48, [&](long u) { // content of any size: one dimension of a message, or their number, far beyond any stack
		Rng &r = c.rng; Bytes b; long what = (u + u / 8) % 8;
		for (int tries = 0; b.empty() && tries < 20000; tries++) {
			Prof p; p.budget = 60; p.maxStr = 3; p.maxList = 2; p.depth = 2; p.absent = 60; p.bigList = p.bigStr = 0; Gen g(r, p); std::vector<Elem> el; Bytes h = encMsgHead(genMsg(g), &el);
			if (what == 7) { h = sealMsg(h); while (b.size() < 1000000) b += h; c.note("huge: messages"); break; }
			size_t k = r.below(el.size()); const Elem &e = el[k]; bool str = e.k == 'o'; if (str != (what == 6)) continue;
			size_t per = 1; if (!str) { int m = 0; for (int i = 0; i < e.tl; i++) m = m << 4 | ((unsigned char)h[e.off + (size_t)i] & 15); if (!m) continue; per = std::max<size_t>(1, (e.end - e.off) / (size_t)m); if (per > 40) continue; if (what < 2 && (unsigned char)h[e.off + (size_t)e.tl] != 0x77) continue; }
			bool linked = !str && (unsigned char)h[e.off + (size_t)e.tl] == 0x77; // entries of a value list are linked; the others sit in arrays, which the sanitizer copies whenever one grows
			Bytes s = stretch(h, el, k, str ? 20000000 : std::min<size_t>(linked ? 300000 : 16000, 6000000 / per)); if (s.empty()) continue;
			b = sealMsg(s); c.note(str ? "huge: string" : linked ? "huge: value list" : "huge: list");
		}
		if (b.empty()) return;
		c.eval(b.substr(0, 4096)); c.maxi("input bytes", (long)b.size());
		checkFile(b, P_NOCMP | P_NOMEM | (u & 8 ? P_PRINT | P_TOUCH : P_REWRITE));
	});
	c.mode = m0;
	countCases(c, [&](const Bytes &b) { checkFile(b, P_NOCMP | P_NOMEM | P_PRINT | P_TOUCH | P_REWRITE); });
	c.mode = m0 + "/elem";
	elemUnits(c, false, c.thorough ? 4 : 3, c.cases / 2, true);
	c.mode = m0;
}
static void m_c19(Ctx &c) { elemUnits(c, true, c.thorough ? 4 : 3, c.cases, false); messageUnits(c); }

// ---------- C03 ----------
static Bytes smallMsg(Rng &r, Bytes *head = nullptr) {
	Prof p; p.budget = 60; p.maxList = 2; p.maxStr = 5; p.depth = 1; p.absent = 40;
	Gen g(r, p); Bytes h = encMsgHead(genMsg(g));
	if (head) *head = h;
	return sealMsg(h);
}
static void m_c03(Ctx &c) {
	Bytes m0 = c.mode;
	c.units(c.cases, [&](long) {
		Rng &r = c.rng; Bytes f; int n = r.range(1, 7); Bytes prevHead;
		for (int i = 0; i < n; i++) {
			Prof p = randProf(r); if (n > 3) p.budget = 200;
			Gen g(r, p); std::vector<Elem> el; Bytes h = encMsgHead(genMsg(g), &el);
			uint16_t x = crcX25(h), k = crcKermit(h), w;
			switch (r.below(16)) {
			case 0: case 1: case 2: case 3: case 4: w = x; c.note("crc: X-25"); break;
			case 5: case 6: w = k; c.note("crc: Kermit"); break;
			case 7: w = (uint16_t)(x ^ (1 << r.below(16))); c.note("crc: one bit off"); break;
			case 8: w = (uint16_t)(x << 8 | x >> 8); c.note("crc: swapped X-25"); break;
			case 9: w = (uint16_t)(k << 8 | k >> 8); c.note("crc: swapped Kermit"); break;
			case 10: w = (uint16_t)~(r.one(2) ? x : k); c.note("crc: complement"); break;
			case 11: w = r.one(2) ? 0 : 0xffff; c.note("crc: 0/ffff"); break;
			case 12: w = crcX25(h, 1); c.note("crc: off-by-one range"); break;
			case 13: w = crcX25(prevHead); c.note("crc: of previous message"); break;
			case 14: w = (uint16_t)((r.one(2) ? x : k) ^ (r.one(2) ? 0xff00 & r.next() : 0xff & r.next())); c.note("crc: one byte off"); break;
			default: { // damage content bytes, keep the checksum
				w = r.one(4) ? k : x;
				for (int z = 0; z < 3; z++) { const Elem &e = el[r.below(el.size())]; if ((e.k == 'o' || e.k == 'u' || e.k == 'i' || e.k == 'b') && e.end > e.off + (size_t)e.tl) { h[e.off + (size_t)e.tl + r.below(e.end - e.off - (size_t)e.tl)] ^= (char)(1 << r.below(8)); if (r.one(2)) break; } }
				c.note("crc: content damaged"); }
			}
			prevHead = h;
			f += sealMsg(h, 3, w, (w >> 8) == 0 && r.one(2) ? 1 : 2);
			if (r.one(5)) f.append((size_t)r.range(1, 9), '\0');
		}
		c.eval(f);
		checkFile(f);
	});
	c.mode = m0;
	countCases(c, [&](const Bytes &b) { // around damaged messages
		Rng &r = c.rng; Bytes h; smallMsg(r, &h);
		Bytes f = smallMsg(r) + b + sealMsg(h, 3, (uint16_t)(crcX25(h) ^ (1u << r.below(16)))) + smallMsg(r);
		checkFile(f);
	});
	c.mode = m0 + "/bitflip";
	c.units(std::max(24L, c.cases / 100), [&](long) { // every single-bit error of a message between two intact ones
		Rng &r = c.rng; Bytes a = smallMsg(r), h, m = smallMsg(r, &h), z = smallMsg(r);
		if (r.one(4)) m = sealMsg(h, 1);
		for (size_t i = 0; i < m.size() * 8 && i < 2400; i++) {
			Bytes q = m; q[i / 8] ^= (char)(1 << (i % 8));
			Bytes f = a + q + z;
			c.eval(f);
			checkFile(f);
			c.note("single-bit errors");
		}
		for (int k = 0; k < 300; k++) { // bursts of up to 16 bits, double-bit errors
			Bytes q = m; size_t nbits = m.size() * 8 - 8;
			if (k & 1) { size_t s = r.below(nbits - 16); unsigned pat = 1u | (unsigned)r.below(0x10000); for (int t = 0; t < 16; t++) if (pat >> t & 1) q[(s + (size_t)t) / 8] ^= (char)(1 << ((s + (size_t)t) % 8)); c.note("burst errors"); }
			else { size_t s = r.below(nbits), t = r.below(nbits); q[s / 8] ^= (char)(1 << (s % 8)); q[t / 8] ^= (char)(1 << (t % 8)); c.note("double-bit errors"); }
			Bytes f = a + q + z;
			c.eval(f);
			checkFile(f);
		}
	});
	c.mode = m0 + "/lengths";
	c.units(80, [&](long u) { // messages of every length, each with the wrong checksums a shortcut might take for right
		Rng &r = c.rng;
		static const int big[] = {2048, 4096, 8192, 16384, 32768, 65536};
		for (int k = 0; k < 16; k++) {
			long n = u < 64 ? 24 + u + 64 * k : big[(u - 64) % 6] + (long)r.range(-40, 40) + (r.one(2) ? 0 : (long)dictInt(r, 3000));
			if (u >= 64 && k > 3) break;
			Bytes h; Msg m; m.gid = Uns(0, 1); m.abort = Uns(0, 1); long l = n > 60 ? n - 60 : 1;
			for (int t = 0; t < 200 && (long)h.size() != n; t++, l += n - (long)h.size() > 0 ? 1 : -1) { if (l < 1) break; Bytes x = r.bytes((size_t)l); m.tid = r.one(3) ? Abs() : Oct("tx"); m.body = List({Uns(0x201, 2), List({Oct(x)})}); h = encMsgHead(m); if ((long)h.size() != n && t < 190 && std::labs(n - (long)h.size()) > 3) l += n - (long)h.size(); }
			uint16_t x = crcX25(h), kz = crcKermit(h); std::vector<uint16_t> ws;
			for (uint16_t w : {x, kz}) { for (int b = 0; b < 16; b++) ws.push_back((uint16_t)(w ^ 1 << b)); for (int v : {w & 0xff, w & 0xff00, w | 0xff, w | 0xff00, w + 1, w - 1, w + 256, w - 256, (w << 8 | w >> 8) & 0xffff, ~w & 0xffff, w ^ 0xff, w ^ 0xff00}) ws.push_back((uint16_t)v); }
			ws.push_back(0); ws.push_back(0xffff); ws.push_back(crcX25(h, 1)); ws.push_back(crcX25(h, 0, h.size() - 1)); ws.push_back(crcKermit(h, 1)); ws.push_back(crcKermit(h, 0, h.size() - 1)); ws.push_back(x); ws.push_back(kz);
			if (u >= 64) { for (int q = 0; q < 50; q++) ws.erase(ws.begin() + (long)r.below(ws.size())); }
			Bytes f; for (uint16_t w : ws) f += sealMsg(h, 3, w);
			f += smallMsg(r);
			c.eval(f); checkFile(f); c.note("message lengths with wrong checksums"); c.note("wrong checksums", (long)ws.size() - 2);
		}
	});
	c.mode = m0 + "/values";
	c.units(16, [&](long u) { // every value of the checksum field
		Rng &r = c.rng; Bytes h; smallMsg(r, &h); Bytes f; for (unsigned k = 0; k < 4096; k++) { f += sealMsg(h, 3, (uint16_t)((unsigned)u << 12 | k)); c.note("checksum field values"); }
		c.eval(f); checkFile(f);
	});
	c.mode = m0 + "/corner";
	c.units(48, [&](long u) { // messages whose correct checksum has a special value
		Rng &r = c.rng;
		static const int want[] = {0x0000, 0xffff, 0x0001, 0x0100, 0x00ff, 0xff00, 0x0063, 0x6300, 0x7600, 0x8080, 0x1b1b, 0x0101};
		bool kz = u & 1; int target = want[(u / 2) % 12];
		Prof p; p.budget = 60; p.absent = 40; Gen g(r, p); Msg m = genMsg(g);
		for (long t = 0; t < 2000000; t++) {
			Bytes tid(4, 0); for (int q = 0; q < 4; q++) tid[(size_t)q] = (char)(t >> (8 * q));
			m.tid = Oct(tid); Bytes h = encMsgHead(m);
			uint16_t w = kz ? crcKermit(h) : crcX25(h);
			if (w != target) continue;
			Bytes a = smallMsg(r), z = smallMsg(r);
			for (int d = -1; d <= 1; d++) for (int nb = 1; nb <= 2; nb++) {
				uint16_t v = (uint16_t)(w + d);
				if (nb == 1 && v > 255) continue;
				Bytes f = a + sealMsg(h, 3, v, nb) + z;
				c.eval(f); checkFile(f);
				c.note("special checksum values");
			}
			break;
		}
	});
	c.mode = m0 + "/big";
	c.units(8, [&](long u) { // big messages, big files, many messages
		Rng &r = c.rng; Bytes f;
		static const size_t sz[] = {32700, 32767, 40000, 65520, 65535, 66000, 131072};
		if (u < 7) {
			f = smallMsg(r);
			Node d = List({Oct(r.bytes(sz[u])), Abs(), Abs(), Abs()});
			Bytes h = enc(List({Oct("abc"), Uns(0, 1), Uns(0, 1), List({Uns(0xff01, 2), d}), Raw(""), Raw("")}));
			f += sealMsg(h, u & 1); f += smallMsg(r);
			Bytes g = h; g[20000] ^= 1; g = sealMsg(g, 3, crcX25(h)); f += g; f += smallMsg(r);
		} else {
			Bytes h("\x76\x02\x41\x01\x01\x72\x63\x02\x01\x71\x01", 11);
			Bytes good = sealMsg(h), bad = sealMsg(h, 2);
			for (int i = 0; i < 40000; i++) { f += good; if (i % 1000 == 999) f += bad; }
		}
		c.eval(f.substr(0, 4096)); c.maxi("file bytes", (long)f.size());
		checkFile(f);
	});
	c.mode = m0;
}

// ---------- C04 ----------
static void checkWellFormed(Ctx &c, const Bytes &f, size_t want) {
	RefFile rf = refFile(f);
	if (rf.stopped || rf.msgs.size() != want || rf.droppedCrc) { fprintf(stderr, "harness: generator produced a file the reference rejects: %s\n", hex(f).c_str()); _exit(7); }
	for (auto &m : rf.msgs) if (m.maybe) { fprintf(stderr, "harness: generator produced an open case %s\n", hex(f).c_str()); _exit(7); }
	checkFile(f);
}
static void m_c04(Ctx &c) {
	Bytes m0 = c.mode;
	size_t ns = specs().size();
	c.units(c.cases, [&](long u) {
		Rng &r = c.rng; Bytes f; int n = r.range(1, 3);
		for (int i = 0; i < n; i++) {
			Prof p = randProf(r);
			if (u % 50 == 3) { p.hugeStr = 70000; p.budget = 3000; }
			Gen g(r, p); int s = (int)((size_t)(u + i) % ns);
			f += encMsg(genMsg(g, s));
			c.note(Bytes("type ") + specs()[(size_t)s].name);
		}
		c.eval(f); c.maxi("file bytes", (long)f.size());
		checkWellFormed(c, f, (size_t)n);
	});
	c.mode = m0 + "/loose";
	c.units(c.cases / 4, [&](long u) { // lengths written with more bytes than needed: the same content, where the message is delivered
		Rng &r = c.rng; Prof p = randProf(r); if (p.budget > 2000) p.budget = 600; Bytes f; int n = r.range(1, 3);
		for (int i = 0; i < n; i++) { Gen g(r, p); std::vector<Elem> el; Bytes h = encMsgHead(genMsg(g, (int)((size_t)u % ns)), &el); if (i + 1 == n || r.one(2)) h = loosen(r, h, el, r.one(2) ? 100 : r.range(2, 30), r.one(3) ? 10 : 0); f += sealMsg(h); }
		c.eval(f); c.note("files with loose lengths");
		checkFile(f);
	});
	c.mode = m0 + "/masks";
	std::vector<std::pair<size_t, unsigned>> masks; // every subset of optional fields
	for (size_t s = 0; s < ns; s++) for (unsigned m = 0; m < 1u << specs()[s].f.size(); m++) masks.push_back({s, m});
	c.units((long)masks.size(), [&](long u) {
		Rng &r = c.rng; auto [s, m] = masks[(size_t)u];
		Prof p; p.budget = 300; p.absent = 20; Gen g(r, p);
		Msg msg = genMsg(g, (int)s);
		Node &d = msg.body.c[1];
		for (size_t i = 0; i < d.c.size(); i++) {
			T t = specs()[s].f[i];
			bool seq = t == tHdrSeq || t == tPopeSeq || t == tPerSeq;
			if (m >> i & 1) d.c[i] = g.el(t); else d.c[i] = seq ? List() : Abs();
		}
		Bytes f = encMsg(msg);
		c.eval(f); c.note("optional-field subsets");
		checkWellFormed(c, f, 1);
	});
	c.mode = m0;
	countCases(c, [&](const Bytes &b) { checkFile(b); });
	c.mode = m0 + "/len";
	static const int LENS[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 29, 30, 31, 32, 33, 47, 48, 63, 64, 65, 100, 127, 128, 129, 200,  253, 254, 255, 256, 257, 300, 1000, 4095, 4096, 4097};
	const long nl = (long)(sizeof LENS / sizeof *LENS), nt = (long)(sizeof lenKinds / sizeof *lenKinds);
	c.units(nl * nt, [&](long u) { // boundary lengths of every kind of list and of strings
		Rng &r = c.rng; int n = LENS[u % nl]; T t = lenKinds[u / nl];
		Msg m = lenMsg(r, t, n, false);
		Bytes f = encMsg(m) + smallMsg(r);
		c.eval(f); c.note("boundary lengths");
		checkWellFormed(c, f, 2);
	});
	c.mode = m0 + "/tree";
	c.units(64, [&](long u) { // tree shapes: chains, stars, random; down to depth 60
		Rng &r = c.rng; Prof p; p.budget = 4000; p.maxStr = 2; p.absent = 50; Gen g(r, p);
		std::function<Node(int)> mk = [&](int d) {
			Node kids = Abs();
			if (d > 0) { kids = List(); int n = u % 3 == 0 ? 1 : r.range(1, d > 4 ? 1 : 3); for (int i = 0; i < n; i++) kids.c.push_back(mk(d - 1)); }
			return List({g.optional(tOct), g.optional(tPpv), kids});
		};
		Msg m; m.tid = Oct("x"); m.gid = Uns(0, 1); m.abort = Uns(0, 1);
		static const uint32_t tags[] = {0x501, 0x600, 0xff01, 0x300, 0x400}; static const size_t at[] = {2, 4, 3, 8, 8};
		m.body = g.body(*specFor(tags[u % 5])); m.body.c[1].c[at[u % 5]] = mk(u % 3 == 0 ? (int)u : r.range(0, 9));
		Bytes f = encMsg(m);
		c.eval(f); c.note("tree shapes");
		checkWellFormed(c, f, 1);
	});
	c.mode = m0;
}

// ---------- C07 ----------
static void m_c07(Ctx &c) {
	Bytes m0 = c.mode;
	size_t ns = specs().size();
	c.units(c.cases, [&](long u) {
		Rng &r = c.rng; Prof p = randProf(r); if (p.budget > 2000) p.budget = 600;
		Gen g(r, p); std::vector<Elem> el; Bytes h = encMsgHead(genMsg(g, (int)((size_t)u % ns)), &el);
		Bytes what, q = mutateHead(r, h, el, &what);
		if (r.one(6)) q = havoc(r, q, 1), what += " + byte";
		Bytes f;
		if (r.one(2)) f += smallMsg(r);
		if (r.one(10)) { // the tail: missing, wrong type, wrong width
			Bytes crc = sealMsg(q).substr(q.size());
			switch (r.below(6)) {
			case 0: crc.resize(r.below(crc.size())); break;
			case 1: crc[0] = (char)(0x53); break;
			case 2: crc[0] = (char)0x01; break;
			case 3: crc.insert(1, 1, '\0'); crc[0] = 0x64; break;
			case 4: crc = Bytes("\x65\x00\x00", 3) + crc.substr(1); break;
			case 5: crc = ""; break;
			}
			q = h; f += q + crc; what = "checksum field";
		} else f += sealMsg(q);
		if (r.one(2)) f += smallMsg(r);
		c.eval(f);
		c.note("fault: " + what.substr(0, what.find(' ')));
		checkFile(f);
	});
	c.mode = m0 + "/sweep";
	c.units(std::max((long)(ns + 4) * 2, c.cases / 60), [&](long u) { // every element of a message x every type and length nibble, absent, removed, doubled
		Rng &r = c.rng; Prof p; p.budget = 80; p.maxStr = 3; p.maxList = 2; p.depth = 1; p.absent = 30; p.bigList = p.bigStr = 0;
		Gen g(r, p); std::vector<Elem> el; size_t w = (size_t)u % (ns + 4);
		Msg m = genMsg(g, w < ns ? (int)w : -1);
		if (w >= ns) { // every kind of parameter value
			static const T kind[] = {tValue, tPeriod, tTupel, tTime}; g.used = 0;
			m.body = List({Uns(0x600, 2), List({Oct("s"), Abs(), Abs(), List({Oct("p")}), List({Oct("n"), List({Uns(w - ns + 1, 1), g.el(kind[w - ns])}), Abs()})})});
		}
		Bytes h = encMsgHead(m, &el);
		Bytes a = smallMsg(r);
		for (size_t k = 0; k < el.size() && k < 80; k++) {
			const Elem &e = el[k]; if (e.k == 'r' || !e.tl) continue;
			const int S = (int)strangers().size();
			for (int t = 0; t < 16 + 8 + 3 + 4 + 5 + 7 + S + 2 + 8; t++) {
				Bytes q = h; unsigned char o = (unsigned char)h[e.off];
				if (t < 16) q[e.off] = (char)((o & 0xf0) | t);
				else if (t < 24) q[e.off] = (char)((o & 0x8f) | (t - 16) << 4);
				else if (t == 24) q.replace(e.off, e.end - e.off, Bytes(1, 1));
				else if (t == 25) q.erase(e.off, e.end - e.off);
				else if (t == 26) q.insert(e.off, h.substr(e.off, e.end - e.off));
				else if (t >= 43 + S + 8) { if (e.k != 'u' && e.k != 'i' && e.k != 'b') continue; int n = t & 1 ? 16 : 256; q = retype(h, e, o & 0x70, n); if (q == h) continue; q.insert(r.one(2) ? q.size() - (h.size() - e.end) : q.size() - (h.size() - e.off - (size_t)e.tl), Bytes((size_t)n, '\0')); c.note("numbers with sixteen bytes too many"); } // the content grows as well
				else if (t >= 43 + S + 2) { static const int more[] = {16, 32, 256, 4096, 65536, 1 << 24}; q = retype(h, e, o & 0x70, more[t - 45 - S]); c.note("lengths whose low digits are right"); }
				else if (t >= 43 + S) q = retype(h, e, o & 0x70, t - 43 - S ? 1 : -1);
				else if (t >= 43) q.replace(e.off, e.end - e.off, strangers()[(size_t)t - 43]);
				else if (t >= 36) q = changeEntries(h, el, k, t - 36);
				else if (t >= 31) { // another type whose length comes out the same
					static const int ty[] = {0x00, 0x40, 0x50, 0x60, 0x70};
					q = retype(h, e, ty[t - 31], 0);
				} else { static const char *rep[] = {"\x63\x01\x02", "\x53\x01\x02", "\x42\x01", "\x71\x01"}; static const int rl[] = {3, 3, 2, 2}; q.replace(e.off, e.end - e.off, Bytes(rep[t - 27], (size_t)rl[t - 27])); }
				if (q == h) continue;
				Bytes f = a + sealMsg(q);
				c.eval(f);
				checkFile(f);
				c.note("systematic single faults");
			}
		}
	});
	c.mode = m0 + "/cut";
	c.units(std::max((long)ns, c.cases / 200), [&](long u) { // every prefix of a file
		Rng &r = c.rng; Prof p; p.budget = 150; p.maxStr = 6; Gen g(r, p);
		Bytes f = smallMsg(r) + encMsg(genMsg(g, (int)((size_t)u % ns)));
		for (size_t n = 0; n < f.size() && n < 600; n++) { Bytes q = f.substr(0, n); c.eval(q); checkFile(q); c.note("truncations"); }
	});
	c.mode = m0 + "/width";
	c.units(400, [&](long u) { // every number field with 0..14 bytes
		Rng &r = c.rng; Prof p; p.budget = 150; p.absent = 10; p.bigList = p.bigStr = 0; Gen g(r, p);
		std::vector<Elem> el; Bytes h = encMsgHead(genMsg(g, (int)((size_t)u % ns)), &el);
		for (auto &e : el) if (e.k == 'u' || e.k == 'i') for (int nb = 0; nb <= 14; nb++) {
			Bytes s; s += (char)(((unsigned char)h[e.off] & 0x70) | ((nb + 1) & 15)); Bytes d((size_t)nb, r.one(2) ? '\xff' : '\0'); if (nb && r.one(2)) d = r.bytes((size_t)nb); s += d;
			Bytes q = h; q.replace(e.off, e.end - e.off, s);
			Bytes f = sealMsg(q); c.eval(f); checkFile(f); c.note("number widths");
		}
	});
	c.mode = m0 + "/tags";
	c.units(64, [&](long u) { // message types and choices, known and unknown
		Rng &r = c.rng; Prof p; p.budget = 100; Gen g(r, p);
		std::vector<uint32_t> ts; for (auto &s : specs()) { ts.push_back(s.tag); ts.push_back(s.tag + 2); ts.push_back(s.tag | 0x10000); ts.push_back(s.tag << 8); ts.push_back(s.tag & 0xff); }
		ts.push_back(0x601); ts.push_back(0); ts.push_back(0xffffffff); ts.push_back((uint32_t)r.next());
		for (uint32_t t : ts) for (int form = 0; form < 5; form++) {
			Msg m = genMsg(g);
			m.body.c[0] = Uns(t, 4);
			if (form == 1) m.body.c[1] = Abs();
			if (form == 2) m.body.c[1] = Raw("");
			if (form == 3) m.body.c[0] = Abs();
			if (form == 4) m.body.c[1] = g.body(*specFor(ts[0])).c[1];
			Bytes f = smallMsg(r) + encMsg(m) + smallMsg(r);
			c.eval(f); checkFile(f); c.note("type tags");
		}
		(void)u;
	});
	c.mode = m0;
}

// ---------- C14 ----------
static Node obis(const char *six) { return Oct(Bytes(six, 6)); }
static void m_c14(Ctx &c) {
	Bytes m0 = c.mode;
	static const std::vector<uint64_t> edges = {41999999, 42000000, 42000001, 45000000, 48999998, 48999999, 49000000, 54999999, 55000000, 55000001, 57123456, 58999999, 59000000, 60000000, 0, 42, 0xffffffffffull, 42000000 + (1ull << 32), 55500000 + (1ull << 32), 0x0100000000ull};
	c.units(c.cases, [&](long u) {
		Rng &r = c.rng; Prof p; p.budget = 300; p.bigList = 0; p.bigStr = 0; p.absent = 40; p.bareTime = 40; p.zg22 = 30; Gen g(r, p);
		Bytes f; int nm = r.range(1, 3);
		for (int q = 0; q < nm; q++) {
			Msg m = vendorMsg(r, g, edges);
			m.crcMode = r.one(4);
			f += encMsg(m);
		}
		c.eval(f);
		RefFile rf = checkFile(f);
		for (auto &m : rf.msgs) { Ref x(f, m.begin); x.end = m.end; x.message(); if (x.dzg) c.note("lists with a corrected reading"); if (x.zg22) c.note("messages with three-part times"); if (x.bare) c.note("messages with bare times"); if (m.kermit) c.note("Kermit messages"); }
		(void)u;
	});
	c.mode = m0 + "/values";
	c.units(4 * 20, [&](long u) { // all 1-byte and all 2-byte values, edges of both serial ranges
		uint64_t s = edges[u / 4]; int part = (int)(u % 4);
		Bytes id("\x0a\x01" "DZG", 5); for (int k = 4; k >= 0; k--) id += (char)(s >> (8 * k));
		for (int lo = 0; lo < 65536 + 256; lo += c.thorough ? 1 : 37) {
			int v = lo; int nb = 2; if (v >= 65536) { v -= 65536; nb = 1; }
			if ((lo & 3) != part) continue;
			Node ser = List({obis("\x01\x00\x60\x01\x00\xff"), Abs(), Abs(), Abs(), Abs(), Oct(id), Abs()});
			Node pw = List({obis("\x01\x00\x10\x07\x00\xff"), Abs(), Abs(), Uns(27, 1), Int(-2, 1), Int(nb == 2 ? (int64_t)(int16_t)v : (int64_t)(int8_t)v, nb), Abs()});
			Node other = List({obis("\x01\x00\x24\x07\x00\xff"), Abs(), Abs(), Uns(27, 1), Int(-2, 1), Int(nb == 2 ? (int64_t)(int16_t)v : (int64_t)(int8_t)v, nb), Abs()});
			Msg m; m.tid = Oct("a"); m.gid = Uns(0, 1); m.abort = Uns(0, 1);
			m.body = List({Uns(0x701, 2), List({Abs(), Abs(), Abs(), Abs(), List({pw, ser, other, pw, other}), Abs(), Abs()})});
			Bytes f = encMsg(m);
			m.body.c[1].c[4] = List({pw, other}); f += encMsg(m); // the next list of the file is not affected
			c.eval(f); checkFile(f); c.note("affected-meter value sweeps");
		}
	});
	c.mode = m0 + "/time";
	c.units(400, [&](long u) { // all time forms at every place a time can occur
		Rng &r = c.rng; Prof p; p.budget = 200; p.absent = 5; p.bareTime = u % 3 == 0 ? 100 : 0; p.zg22 = u % 3 == 1 ? 100 : 20; p.bigList = p.bigStr = 0;
		Gen g(r, p); Msg m = genMsg(g, (int)((size_t)u % specs().size())); m.crcMode = r.one(2);
		Bytes f = encMsg(m) + smallMsg(r);
		c.eval(f); checkFile(f); c.note("time forms");
	});
	c.mode = m0;
}

// ---------- C02 ----------
static void freeNulls() {
	sml_octet_string_free(nullptr); sml_number_free(nullptr); sml_boolean_free(nullptr); sml_value_free(nullptr); sml_status_free(nullptr); sml_time_free(nullptr);
	sml_tree_free(nullptr); sml_tree_path_free(nullptr); sml_proc_par_value_free(nullptr); sml_tupel_entry_free(nullptr); sml_period_entry_free(nullptr);
	sml_list_free(nullptr); sml_sequence_free(nullptr); sml_message_free(nullptr); sml_message_body_free(nullptr); sml_file_free(nullptr); sml_buffer_free(nullptr);
	for (auto &e : elps()) e.fre(nullptr);
}
static void strFree(void *p) { sml_octet_string_free((octet_string *)p); }
static void strWrite(void *p, sml_buffer *b) { sml_octet_string_write((octet_string *)p, b); }
static void m_c02(Ctx &c) {
	signal(SIGPIPE, SIG_IGN);
	Bytes m0 = c.mode;
	long fds = vf_fd_count();
	c.units(c.cases, [&](long) {
		Bytes kind, b = genHostile(c.rng, &kind);
		c.eval(b, b.size() > 4); c.note("kind: " + kind);
		checkFile(b, P_NOCMP | P_PRINT | P_TOUCH | P_REWRITE);
	});
	c.mode = m0;
	countCases(c, [&](const Bytes &b) {
		checkFile(b, P_NOCMP | P_PRINT | P_TOUCH | P_REWRITE);
		Bytes q = b.substr(0, b.size() - c.rng.below(b.size() / 2 + 1)); // and given up somewhere inside
		checkFile(q, P_NOCMP);
	});
	c.mode = m0 + "/elem";
	elemUnits(c, false, 3, c.cases / 2, true);
	c.mode = m0 + "/build";
	c.units(c.cases / 4, [&](long u) { // build, write (repeatedly), free
		Rng &r = c.rng; Prof p = randProf(r); p.stdWidth = true; p.budget = 400; Gen g(r, p);
		long live0 = vf_live_blocks;
		vf_enter();
		sml_file *f = sml_file_init(); int n = r.range(0, 3);
		for (int i = 0; i < n; i++) sml_file_add_message(f, bMsg(genMsg(g)));
		int times = r.range(0, 3);
		for (int i = 0; i < times; i++) { f->buf->cursor = 0; sml_file_write(f); }
		vf_leave();
		c.eval(Bytes((char *)f->buf->buffer, f->buf->cursor));
		if (r.one(3)) { // sent, to something that takes it or not
			int how = (int)r.below(7), pfd[2] = {-1, -1}, fd = -1; long fds = vf_fd_count();
			if (how < 4) { if (pipe(pfd)) _exit(7); fd = pfd[1]; fcntl(fd, 1031 /*F_SETPIPE_SZ*/, how == 3 ? 4096 : 1 << 20); fcntl(fd, F_SETFL, O_NONBLOCK); if (how == 1) { close(pfd[0]); pfd[0] = -1; } if (how == 3) { char z[4096] = {0}; while (write(fd, z, how == 3 && r.one(2) ? 4000 : 4096) > 0) {} } }
			else if (how == 4) fd = open("/dev/full", O_WRONLY); else if (how == 5) fd = open("/dev/null", O_RDONLY); // and -1
			long mine = vf_fd_count(); for (int i = r.range(1, 3); i--;) LIB(sml_transport_write(fd, f));
			if (vf_fd_count() != mine) c.fail("fd-leak", "sending left a descriptor open (" + std::to_string(how) + ")");
			if (pfd[0] >= 0) close(pfd[0]);
			if (fd >= 0) close(fd);
			if (vf_fd_count() != fds) c.fail("fd-leak", "sending closed or opened descriptors");
			c.note(how == 0 || how == 2 ? "frames sent" : "frames not accepted");
		}
		LIB(sml_file_free(f));
		if (vf_live_blocks != live0) c.fail("leak", std::to_string(vf_live_blocks - live0) + " block(s) not released after building, writing " + std::to_string(times) + "x and freeing a file");
		c.note("files built"); (void)u;
	});
	c.mode = m0 + "/misc";
	c.units(400, [&](long u) {
		Rng &r = c.rng; long live0 = vf_live_blocks;
		c.eval("misc" + std::to_string(u) + std::to_string(r.next()));
		vf_enter();
		freeNulls();
		// string helpers, including rejected hexadecimal text
		auto size = [&] { return (size_t)(r.one(2) ? r.below(40) : r.one(2) ? r.below(700) : dictInt(r, 9000)); };
		Bytes s = r.bytes(size()); octet_string *a = r.one(6) ? nullptr : sml_octet_string_init((unsigned char *)s.data(), (int)s.size());
		Bytes h = hex(r.one(3) ? s : r.bytes(size())); if (r.one(3)) h += 'a'; if (r.one(4) && !h.empty()) h[r.below(h.size())] = 'z';
		octet_string *b = sml_octet_string_init_from_hex(r.one(8) ? nullptr : (char *)h.c_str());
		{ volatile int x = sml_octet_string_cmp(a, b); (void)x; }
		{ volatile int x = sml_octet_string_cmp_with_hex(a, r.one(8) ? nullptr : (char *)h.c_str()); (void)x; }
		{ volatile int x = sml_octet_string_cmp_with_hex(nullptr, (char *)h.c_str()); (void)x; }
		sml_value v; memset(&v, 0, sizeof v); v.type = SML_TYPE_OCTET_STRING; v.data.bytes = a; char *str = nullptr;
		if (sml_value_to_strhex(&v, &str, r.one(2))) free(str);
		v.data.bytes = nullptr; str = nullptr; sml_value_to_strhex(&v, &str, true); sml_value_to_strhex(nullptr, &str, true);
		sml_octet_string_free(a); sml_octet_string_free(b);
		for (int i = 0; i < 50; i++) sml_octet_string_free(sml_octet_string_generate_uuid());
		sml_message_free(sml_message_init());
		// empty objects of every kind
		sml_value_free(sml_value_init()); sml_status_free(sml_status_init()); sml_time_free(sml_time_init()); sml_tree_free(sml_tree_init()); sml_tree_path_free(sml_tree_path_init());
		sml_proc_par_value_free(sml_proc_par_value_init()); sml_tupel_entry_free(sml_tupel_entry_init()); sml_period_entry_free(sml_period_entry_init()); sml_list_free(sml_list_init());
		sml_prof_obj_header_entry_free(sml_prof_obj_header_entry_init()); sml_prof_obj_period_entry_free(sml_prof_obj_period_entry_init()); sml_value_entry_free(sml_value_entry_init());
		sml_file_free(sml_file_init());
		{ // containers with absent entries among the others
			auto str = [&] { return r.one(3) ? nullptr : sml_octet_string_init((unsigned char *)s.data(), (int)std::min<size_t>(s.size(), 40)); }; int n = r.range(0, 9);
			sml_tree_path *p = sml_tree_path_init(); for (int i = 0; i < n; i++) sml_tree_path_add_path_entry(p, str());
			sml_tree *t = sml_tree_init(); for (int i = 0; i < n; i++) { sml_tree *k = r.one(3) ? nullptr : sml_tree_init(); if (k) { k->parameter_name = str(); if (r.one(3)) sml_tree_add_tree(k, r.one(2) ? nullptr : sml_tree_init()); } sml_tree_add_tree(t, k); }
			sml_sequence *q = sml_sequence_init(strFree); for (int i = 0; i < n; i++) sml_sequence_add(q, str());
			if (r.one(2)) { sml_buffer *o = sml_buffer_init(8); sml_tree_path_write(p, o); sml_tree_write(t, o); sml_sequence_write(q, o, strWrite); sml_buffer_free(o); }
			sml_tree_path_free(p); sml_tree_free(t); sml_sequence_free(q); c.note("containers with absent entries");
		}
		vf_leave();
		if (vf_live_blocks != live0) c.fail("leak", std::to_string(vf_live_blocks - live0) + " block(s) not released by helpers");
		long n = vf_fd_count();
		if (n != fds) c.fail("fd-leak", "open descriptors went from " + std::to_string(fds) + " to " + std::to_string(n));
		c.note("helper rounds");
	});
	c.mode = m0 + "/transport";
	c.units(300, [&](long u) { // reading with faults: nothing kept
		Rng &r = c.rng; long live0 = vf_live_blocks;
		Bytes s = r.bytes(r.below(40)) + frame(genFile(r, Prof(), 1)) + frame(r.bytes(r.below(300))); if (r.one(3)) s.resize(r.below(s.size() + 1));
		c.eval(s);
		int pfd[2]; if (pipe(pfd)) return;
		fcntl(pfd[1], 1031, 1 << 20);
		if (write(pfd[1], s.data(), s.size()) < 0) return;
		close(pfd[1]);
		vf_ioplan = vf_io(); vf_ioplan.active = 1; vf_ioplan.rng = r.next(); vf_ioplan.short_reads = 2; vf_ioplan.eintr = 5; vf_ioplan.eagain = 7; vf_ioplan.fail_read_at = r.one(3) ? (long)r.below(60) : -1; vf_ioplan.fail_select_at = -1;
		size_t cap = 16 + r.below(600); unsigned char *buf = (unsigned char *)malloc(cap);
		for (int k = 0; k < 4; k++) LIB(sml_transport_read(pfd[0], buf, cap));
		vf_ioplan.active = 0;
		free(buf); close(pfd[0]);
		if (vf_live_blocks != live0) c.fail("leak", "blocks kept by the transport reader");
		long n = vf_fd_count(); if (n != fds) c.fail("fd-leak", "descriptors kept by the transport reader");
		c.note("transport reads"); (void)u;
	});
	c.mode = m0;
}

// ---------- C13 ----------
static bool readAll(int fd, void *p, size_t n) { for (size_t k = 0; k < n;) { ssize_t r = ::read(fd, (char *)p + k, n - k); if (r <= 0) return false; k += (size_t)r; } return true; }
static void m_c13(Ctx &c) {
	FILE *tr = fopen((c.out + ".trace").c_str(), "w");
	auto dumpOf = [&](const Bytes &in, int align, unsigned char fill, bool scribble, Bytes *wr) {
		vf_fill = fill;
		unsigned char *raw = (unsigned char *)malloc(in.size() + 32);
		unsigned char *p = raw + align;
		memcpy(p, in.data(), in.size());
		sml_file *f = lib([&] { return sml_file_parse(p, in.size()); });
		if (memcmp(p, in.data(), in.size())) c.fail("input-modified", "the caller's bytes were modified");
		std::vector<Bytes> before = dumpFile(f);
		if (scribble) { memset(raw, 0xEE, in.size() + 32); free(raw); raw = nullptr; }
		std::vector<Bytes> after = dumpFile(f);
		if (before != after) c.fail("aliasing", "the result changed when the caller overwrote and freed its buffer");
		Bytes all; for (auto &s : after) { all += s; all += '\n'; }
		if (wr) { f->buf->cursor = 0; LIB(sml_file_write(f)); *wr = Bytes((char *)f->buf->buffer, f->buf->cursor); }
		LIB(sml_file_free(f));
		free(raw);
		return all;
	};
	// a process that has parsed nothing yet, one child of it per input
	int ask[2], ans[2];
	if (pipe(ask) || pipe(ans)) _exit(7);
	pid_t pristine = fork();
	if (!pristine) {
		prctl(PR_SET_PDEATHSIG, SIGKILL); close(ask[1]); close(ans[0]); unitSeconds = 0;
		for (uint64_t n; readAll(ask[0], &n, 8);) {
			Bytes in(n, 0); if (!readAll(ask[0], &in[0], n)) _exit(0);
			pid_t k = fork();
			if (!k) { Bytes w; uint64_t h[2]; h[0] = hashBytes(dumpOf(in, 0, 0xA5, false, &w)); h[1] = hashBytes(w); if (::write(ans[1], h, sizeof h) != (ssize_t)sizeof h) _exit(7); _exit(0); }
			int st = 0; waitpid(k, &st, 0);
			if (st) { uint64_t h[2] = {0, 0}; if (::write(ans[1], h, sizeof h) < 0) _exit(7); }
		}
		_exit(0);
	}
	close(ask[0]); close(ans[1]);
	c.units(c.cases, [&](long u) {
		Rng &r = c.rng;
		Bytes x = r.one(3) ? genHostile(r) : genFile(r, randProf(r), 3);
		if (u % 5 == 0) { Bytes id("\x0a\x01" "DZG\x00\x02\x80\xde\x80", 10); // affected-meter list
			Node ser = List({Oct(Bytes("\x01\x00\x60\x01\x00\xff", 6)), Abs(), Abs(), Abs(), Abs(), Oct(id), Abs()}), pw = List({Oct(Bytes("\x01\x00\x10\x07\x00\xff", 6)), Abs(), Abs(), Abs(), Int(-2, 1), Int(-5, 2), Abs()});
			Msg m; m.tid = Oct("a"); m.gid = Uns(0, 1); m.abort = Uns(0, 1);
			m.body = List({Uns(0x701, 2), List({Abs(), Abs(), Abs(), Abs(), r.one(2) ? List({ser, pw}) : r.one(2) ? List({pw, pw}) : List({pw, ser, pw}), Abs(), Abs()})});
			x = r.one(2) ? encMsg(m) + x : x + encMsg(m); }
		if (x.size() > 30000) x.resize(30000);
		c.eval(x);
		Bytes w1, w2;
		Bytes base = dumpOf(x, 0, 0xA5, false, &w1);
		uint64_t n = x.size(), h[2];
		if (::write(ask[1], &n, 8) != 8 || ::write(ask[1], x.data(), x.size()) != (ssize_t)x.size() || !readAll(ans[0], h, sizeof h)) _exit(7);
		if (h[0] != hashBytes(base)) c.fail("history-dependent", "the result differs from that of a process that has parsed nothing before");
		if (h[1] != hashBytes(w1)) c.fail("write-history-dependent", "the encoding differs from that of a process that has parsed nothing before");
		c.note("results compared with a fresh process");
		static const unsigned char fills[] = {0x00, 0xff, 0x5a, 0x76};
		// other memory contents, alignments, a scribbled and freed input
		if (dumpOf(x, (int)r.below(8), fills[r.below(4)], true, &w2) != base) c.fail("memory-dependent", "result depends on alignment or leftover memory contents");
		if (w1 != w2) c.fail("write-memory-dependent", "encoding depends on leftover memory contents");
		// history: other inputs parsed, kept, written, freed in between
		std::vector<sml_file *> kept;
		for (int k = r.range(1, 4); k > 0; k--) {
			Bytes y = genHostile(r); if (y.size() > 30000) y.resize(30000);
			sml_file *f = lib([&] { return sml_file_parse((unsigned char *)y.data(), y.size()); });
			if (r.one(2)) { f->buf->cursor = 0; LIB(sml_file_write(f)); }
			if (r.one(2)) LIB(sml_file_free(f)); else kept.push_back(f);
			if (r.one(4)) { sml_message *m = lib([&] { return sml_message_init(); }); LIB(sml_message_free(m)); }
		}
		Bytes w3;
		if (dumpOf(x, (int)r.below(8), fills[r.below(4)], r.one(2), &w3) != base) c.fail("history-dependent", "result depends on what was parsed before");
		if (w3 != w1) c.fail("write-history-dependent", "encoding depends on what was done before");
		for (auto *f : kept) LIB(sml_file_free(f));
		// position: each message alone gives the same as in the file
		RefFile rf = refFile(x);
		std::vector<Bytes> inFile; { size_t s = 0, e; while ((e = base.find('\n', s)) != Bytes::npos) { inFile.push_back(base.substr(s, e - s)); s = e + 1; } }
		if (inFile.size() == rf.msgs.size()) for (size_t k = 0; k < rf.msgs.size() && k < 4; k++) {
			Bytes one = x.substr(rf.msgs[k].begin, rf.msgs[k].end - rf.msgs[k].begin);
			if (rf.msgs[k].maybe) continue;
			Bytes d = dumpOf(one, 0, 0x33, false, nullptr);
			if (d != inFile[k] + "\n") c.fail("position-dependent", "message " + std::to_string(k) + " parsed alone differs from the same message within the file");
			Bytes pre; if (r.one(2)) pre = genFile(r, Prof(), 2); else { Prof pp; Gen g(r, pp); pre = sealMsg(encMsgHead(genMsg(g)), 2); }
			Bytes d2 = dumpOf(pre + one, 0, 0x44, false, nullptr);
			if (d2.size() < d.size() || d2.compare(d2.size() - d.size(), d.size(), d)) c.fail("position-dependent", "message parsed after others differs from the same message alone");
			c.note("messages moved");
		}
		if (tr) fprintf(tr, "%ld %016llx %016llx\n", u, (unsigned long long)hashBytes(base), (unsigned long long)hashBytes(w1));
		c.note("histories");
	});
	if (tr) fclose(tr);
	close(ask[1]); close(ans[0]); waitpid(pristine, nullptr, 0);
}
const Mode modes_parse[] = {{"c01", m_c01}, {"c02", m_c02}, {"c03", m_c03}, {"c04", m_c04}, {"c07", m_c07}, {"c13", m_c13}, {"c14", m_c14}, {"c19", m_c19}, {nullptr, nullptr}};
