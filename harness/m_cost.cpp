// C08: the work done and the memory held stay within a constant factor of the input.
// The library is compiled with -fsanitize-coverage=trace-pc-guard; every executed
// edge is counted here, as are all bytes moved and every allocation.
#include "core.hpp"
#include <algorithm>
#include <memory>
#include <unistd.h>

extern "C" {
unsigned long long vf_edges, vf_edge_limit; uintptr_t vf_sp_low;
extern unsigned long long vf_mem_bytes __attribute__((weak));
static const char *doing = "parsing";
static void overLimit() { C->fail("work", Bytes(doing) + " executed more than " + std::to_string(vf_edge_limit) + " program edges and was stopped"); }
void __sanitizer_cov_trace_pc_guard(uint32_t *) {
	if (!vf_track) return;
	if (++vf_edges > vf_edge_limit && vf_edge_limit) { vf_track = 0; overLimit(); }
	uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
	if (sp < vf_sp_low) vf_sp_low = sp;
}
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { for (; a < b; a++) *a = 1; }
}
struct Cost { unsigned long long edges, bytes; long peak, allocs; size_t stack; int msgs; };
// limits per input byte / constant part; several times what the current code needs
static const double EDGE_A = 120, EDGE_B = 4000, BYTE_A = 100, BYTE_B = 50000, PEAK_A = 120, PEAK_B = 8192; static const size_t STACK = 160 * 1024;

static Cost measure(const Bytes &in, bool print) {
	Ctx &c = *C; Cost k; double n = (double)in.size();
	Exact e(in);
	long live0 = vf_live_bytes; vf_mem_reset();
	vf_edges = 0; if (&vf_mem_bytes) vf_mem_bytes = 0;
	vf_edge_limit = (unsigned long long)(EDGE_A * n + EDGE_B); vf_alloc_cap = (long)(PEAK_A * n + PEAK_B);
	uintptr_t sp0 = (uintptr_t)__builtin_frame_address(0); vf_sp_low = sp0;
	sml_file *f = lib([&] { return sml_file_parse(e.p, e.n); });
	k.edges = vf_edges; k.bytes = (&vf_mem_bytes ? vf_mem_bytes : 0) + vf_moved_bytes; k.peak = vf_peak_bytes - live0; k.allocs = vf_allocs; k.stack = sp0 - vf_sp_low; k.msgs = f->messages_len;
	vf_alloc_cap = 0;
	auto chk = [&](const char *what, double v, double lim) { if (v > lim) c.fail("cost", Bytes("parsing ") + std::to_string(in.size()) + " bytes took " + std::to_string((long long)v) + " " + what + ", more than " + std::to_string((long long)lim)); };
	chk("bytes moved", (double)k.bytes, BYTE_A * n + BYTE_B);
	chk("bytes of memory", (double)k.peak, PEAK_A * n + PEAK_B);
	chk("bytes of stack", (double)k.stack, (double)STACK);
	auto phase = [&](const char *what, const std::function<void()> &g) {
		vf_edges = 0; vf_edge_limit = (unsigned long long)(EDGE_A * n + EDGE_B); if (&vf_mem_bytes) vf_mem_bytes = 0; vf_moved_bytes = 0;
		uintptr_t s0 = (uintptr_t)__builtin_frame_address(0); vf_sp_low = s0; doing = what;
		LIB(g());
		doing = "parsing"; vf_edge_limit = 0; size_t st = s0 - vf_sp_low; double mv = (double)((&vf_mem_bytes ? vf_mem_bytes : 0) + vf_moved_bytes);
		c.maxi(Bytes("stack bytes, ") + what, (long)st); if (n > 200) c.maxi(Bytes("edges per 1000 bytes, ") + what, (long)((double)vf_edges * 1000 / n));
		if (st > STACK) c.fail("cost", Bytes(what) + " the " + std::to_string(k.msgs) + " messages of " + std::to_string(in.size()) + " bytes took " + std::to_string(st) + " bytes of stack");
		if (mv > BYTE_A * n + BYTE_B) c.fail("cost", Bytes(what) + " what " + std::to_string(in.size()) + " bytes hold took " + std::to_string((long long)mv) + " bytes moved");
	};
	if (print) phase("printing", [&] { sml_file_print(f); });
	if (print) phase("converting", [&] { touchValues(f); });
	if (f->messages_len) {
		sml_buffer *nb = sml_buffer_init(in.size() * 2 + 4096); if (f->buf) sml_buffer_free(f->buf); f->buf = nb;
		phase("writing", [&] { sml_file_write(f); });
	}
	phase("releasing", [&] { sml_file_free(f); });
	c.maxi("edges per 1000 bytes", n > 200 ? (long)((double)k.edges * 1000 / n) : 0); c.maxi("bytes moved per 1000 bytes", n > 2000 ? (long)((double)k.bytes * 1000 / n) : 0); c.maxi("memory per 1000 bytes", n > 200 ? (long)((double)k.peak * 1000 / n) : 0);
	c.maxi("stack bytes", (long)k.stack); c.maxi("input bytes", (long)in.size()); c.maxi("constant edges", n < 64 ? (long)k.edges : 0);
	c.evals++;
	if (getenv("VF_COST")) fprintf(stderr, "%zu edges %.1f bytes %.1f peak %.1f stack %zu msgs %d\n", in.size(), (double)k.edges / n, (double)k.bytes / n, (double)k.peak / n, k.stack, k.msgs);
	return k;
}
static Bytes wrapMsg(uint32_t tag, const Bytes &body, int mode = 0) { Bytes h("\x76\x02\x41\x62\x00\x62\x00\x72\x65", 9); for (int k = 3; k >= 0; k--) h += (char)(tag >> (8 * k)); return sealMsg(h + body, mode); }
static Bytes rep(const Bytes &s, size_t n) { Bytes o; o.reserve(s.size() * n); while (n--) o += s; return o; }
static Bytes tlist(uint64_t n) { Bytes o; encTL(o, 0x70, n); return o; }
static Bytes tstr(const Bytes &s) { Bytes o; encTL(o, 0, s.size()); return o + s; }
static const int NSHAPES = 34;
static Bytes shape(int s, size_t n, Bytes *name) {
	auto cnt = [&](size_t unit) { return std::max<size_t>(1, n / unit); };
	const Bytes abs7("\x77\x01\x01\x01\x01\x01\x01\x01", 8), node("\x73\x01\x01\x01", 4);
	switch (s) {
	case 0: *name = "small messages"; return rep(wrapMsg(0x201, Bytes("\x71\x01", 2)), cnt(20));
	case 1: *name = "one long string"; return wrapMsg(0x201, Bytes("\x71", 1) + tstr(Bytes(n, 'x')));
	case 2: *name = "long value list"; return wrapMsg(0x701, Bytes("\x77\x01\x01\x01\x01", 5) + tlist(cnt(8)) + rep(abs7, cnt(8)) + Bytes("\x01\x01", 2));
	case 3: *name = "wide tree"; return wrapMsg(0xff01, Bytes("\x74\x01\x01\x01\x73\x01\x01", 7) + tlist(cnt(4)) + rep(node, cnt(4)));
	case 4: *name = "tree of absent children"; return wrapMsg(0xff01, Bytes("\x74\x01\x01\x01\x73\x01\x01", 7) + tlist(n) + Bytes(n, 1));
	case 5: *name = "long path"; return wrapMsg(0x500, Bytes("\x75\x01\x01\x01", 4) + tlist(cnt(2)) + rep(Bytes("\x02\x61", 2), cnt(2)) + Bytes("\x01", 1));
	case 6: *name = "path of absent entries"; return wrapMsg(0x500, Bytes("\x75\x01\x01\x01", 4) + tlist(n) + Bytes(n, 1) + Bytes("\x01", 1));
	case 7: *name = "object list"; return wrapMsg(0x300, Bytes("\x79\x01\x01\x01\x01\x01\x01\x01", 8) + tlist(cnt(2)) + rep(Bytes("\x02\x61", 2), cnt(2)) + Bytes("\x01", 1));
	case 8: *name = "header list"; return wrapMsg(0x301, Bytes("\x78\x01\x01\x01\x01", 5) + tlist(cnt(4)) + rep(node, cnt(4)) + Bytes("\x70\x01\x01", 3));
	case 9: *name = "period list"; return wrapMsg(0x301, Bytes("\x78\x01\x01\x01\x01\x70", 6) + tlist(cnt(5)) + rep(Bytes("\x74\x01\x01\x70\x01", 5), cnt(5)) + Bytes("\x01\x01", 2));
	case 10: *name = "profile list"; return wrapMsg(0x401, Bytes("\x79\x01\x01\x01\x01\x01\x01", 7) + tlist(cnt(6)) + rep(Bytes("\x75\x01\x01\x01\x01\x01", 6), cnt(6)) + Bytes("\x01\x01", 2));
	case 11: *name = "values in one period"; return wrapMsg(0x301, Bytes("\x78\x01\x01\x01\x01\x70\x71\x74\x01\x01", 10) + tlist(cnt(3)) + rep(Bytes("\x72\x01\x01", 3), cnt(3)) + Bytes("\x01\x01\x01", 3));
	case 12: *name = "zero bytes"; return Bytes(n, '\0');
	case 13: *name = "0xff bytes"; return Bytes(n, '\xff');
	case 14: *name = "long TL chain"; return Bytes("\x76", 1) + Bytes(n, '\x8f') + "\x0f";
	case 15: *name = "huge list count, no entries"; return Bytes("\x76\x02\x41\x62\x00\x62\x00\x72\x63\x05\x00\x75\x01\x01\x01\xff\x8f\x8f\x8f\x8f\x8f\x0f", 22) + Bytes(n / 2, '\x02');
	case 16: *name = "huge tree count"; return Bytes("\x76\x02\x41\x62\x00\x62\x00\x72\x63\xff\x01\x74\x01\x01\x01\x73\x01\x01\xff\x8f\x8f\x8f\x8f\x0f", 24) + rep(node, cnt(4));
	case 17: *name = "huge string length"; return rep(wrapMsg(0x201, Bytes("\x71\x01", 2)), cnt(40)) + Bytes("\x76\x87\x8f\x8f\x8f\x8f\x8f\x0f", 8) + Bytes(n / 2, 'x');
	case 18: *name = "wrong checksums"; return rep(wrapMsg(0x201, Bytes("\x71\x01", 2), 2), cnt(20));
	case 19: *name = "Kermit messages"; return rep(wrapMsg(0x201, Bytes("\x71\x01", 2), 1), cnt(20));
	case 20: *name = "huge value list count"; return Bytes("\x76\x02\x41\x62\x00\x62\x00\x72\x63\x07\x01\x77\x01\x01\x01\x01\xff\x8f\x8f\x8f\x8f\x8f\x0f", 23) + rep(abs7, cnt(8));
	case 21: *name = "deep tree"; return Bytes("\x76\x02\x41\x62\x00\x62\x00\x72\x63\xff\x01\x74\x01\x01\x01", 15) + rep(Bytes("\x73\x01\x01\x71", 4), cnt(4));
	case 22: *name = "tree of depth 60, wide"; { Bytes t = node; for (int d = 0; d < 60; d++) t = Bytes("\x73\x01\x01\x73", 4) + t + node + node; size_t k = std::max<size_t>(1, n / t.size()); return wrapMsg(0xff01, Bytes("\x74\x01\x01\x01\x73\x01\x01", 7) + tlist(k) + rep(t, k)); }
	case 23: *name = "DZG value list"; { Bytes ser = Bytes("\x77\x07\x01\x00\x60\x01\x00\xff\x01\x01\x01\x01\x0b\x0a\x01" "DZG\x00\x02\x80\xde\x80\x01", 24), pw("\x77\x07\x01\x00\x10\x07\x00\xff\x01\x01\x62\x1b\x52\x00\x53\xff\x00\x01", 18); size_t k = std::max<size_t>(1, n / 42); return wrapMsg(0x701, Bytes("\x77\x01\x01\x01\x01", 5) + tlist(2 * k) + rep(ser + pw, k) + Bytes("\x01\x01", 2)); }
	case 24: *name = "tupel entries in a tree"; { Bytes t = Bytes("\x73\x01\x72\x62\x03\xf1\x07", 7) + Bytes(23, 1) + "\x01"; size_t k = std::max<size_t>(1, n / t.size()); return wrapMsg(0xff01, Bytes("\x74\x01\x01\x01\x73\x01\x01", 7) + tlist(k) + rep(t, k)); }
	case 25: *name = "huge header list count"; return Bytes("\x76\x02\x41\x62\x00\x62\x00\x72\x63\x03\x01\x78\x01\x01\x01\x01\xff\x8f\x8f\x8f\x8f\x8f\x0f", 23) + rep(node, cnt(4));
	case 26: *name = "huge period list count"; return Bytes("\x76\x02\x41\x62\x00\x62\x00\x72\x63\x04\x01\x79\x01\x01\x01\x01\x01\x01\xff\x8f\x8f\x8f\x8f\x0f", 24) + rep(Bytes("\x75\x01\x01\x01\x01\x01", 6), cnt(6));
	case 27: *name = "huge object list count"; return Bytes("\x76\x02\x41\x62\x00\x62\x00\x72\x63\x03\x00\x79\x01\x01\x01\x01\x01\x01\x01\xff\x8f\x8f\x8f\x8f\x0f", 25) + Bytes(n, 2);
	case 28: *name = "huge number lengths"; return Bytes("\x76\x02\x41\xe8\x8f\x8f\x8f\x8f\x0f", 9) + Bytes(n, 'x');
	case 29: *name = "messages with long strings"; { Bytes m = wrapMsg(0x100, Bytes("\x77", 1) + tstr(Bytes(300, 'a')) + tstr(Bytes(300, 'b')) + Bytes("\x01\x01\x01\x01\x01", 5)); return rep(m, std::max<size_t>(1, n / m.size())); }
	case 30: *name = "absent everything, path"; return Bytes("\x76\x01\x01\x01\x72\x63\x05\x00\x75\x01\x01\x01\xff\x8f\x8f\x8f\x8f\x8f\x0f", 19) + Bytes(n, 1);
	case 31: *name = "absent everything, object list"; return Bytes("\x76\x01\x01\x01\x72\x63\x03\x00\x79\x01\x01\x01\x01\x01\x01\x01\xff\x8f\x8f\x8f\x8f\x8f\x0f", 23) + Bytes(n, 1);
	case 32: *name = "absent children, huge count"; return Bytes("\x76\x01\x01\x01\x72\x63\xff\x01\x74\x01\x01\x01\x73\x01\x01\xff\x8f\x8f\x8f\x8f\x8f\x0f", 22) + Bytes(n, 1);
	default: *name = "intact then broken"; return rep(wrapMsg(0x701, Bytes("\x77\x01\x01\x01\x01\x71", 6) + abs7 + Bytes("\x01\x01", 2)), cnt(50)) + Bytes("\x76\x05", 2) + Bytes(n / 3, '\x77');
	}
}
void m_c08(Ctx &c) {
	Bytes m0 = c.mode; vf_fill_on = 0;
	c.units(c.cases, [&](long) {
		Bytes k, b = genHostile(c.rng, &k); c.eval(b); c.evals--; c.note("kind: " + k);
		measure(b, true);
	});
	c.mode = m0 + "/shape";
	static const size_t sizes[] = {300, 1000, 4000, 16000, 64000, 256000, 1000000, 4000000};
	c.units(NSHAPES * 2, [&](long u) {
		Bytes name; int ns = c.thorough ? 8 : 7; double prevE = 0, prevB = 0; size_t prevN = 0;
		for (int q = 0; q < ns; q++) {
			Bytes b = shape((int)(u / 2), sizes[q], &name);
			if (u & 1) b.resize(b.size() - 1 - b.size() / 7);
			c.eval(name + std::to_string(q) + b.substr(0, 2000)); c.evals--;
			if (getenv("VF_COST")) { fprintf(stderr, "%s: ", name.c_str()); }
			Cost k = measure(b, false);
			// growth: four times the input must not cost much more than four times the work
			if (prevN >= 900 && b.size() > prevN) {
				double f = (double)b.size() / (double)prevN;
				if ((double)k.edges > prevE * f * 1.5 + 5000) c.fail("growth", name + ": " + std::to_string(f) + " times the input took " + std::to_string((double)k.edges / prevE) + " times the steps");
				if ((double)k.bytes > prevB * f * 2.5 + 20000) c.fail("growth", name + ": " + std::to_string(f) + " times the input moved " + std::to_string((double)k.bytes / prevB) + " times the bytes");
			}
			prevE = (double)k.edges; prevB = (double)k.bytes; prevN = b.size();
			c.note("shape: " + name);
		}
	});
	c.mode = m0 + "/stretch"; // one dimension of any message made longer
	c.units(std::max(400L, c.cases / 20), [&](long u) {
		Rng &r = c.rng; Prof p = randProf(r); p.budget = 120; p.bigList = p.bigStr = 0; p.hugeStr = 0; Bytes h, name; std::vector<Elem> el; size_t k = 0; int kind = 0;
		for (int tries = 0; tries < 60; tries++) {
			Gen g(r, p); el.clear(); h = encMsgHead(genMsg(g), &el); k = r.below(el.size()); kind = u % 5 == 4 ? 1 + (int)r.below(7) : 0;
			if (kind == 7 && (el[k].k == 'r' || el[k].tl != 1)) { if (tries == 59) return; continue; }
			if (!kind && u % 2 && tries < 50 && el[k].k != 'l') continue; // lists as often as strings
			if (kind || !stretch(h, el, k, 100).empty()) break;
			if (tries == 59) return;
		}
		Bytes one = sealMsg(h, r.one(8) ? 2 : r.one(6) ? 1 : 0), other = sealMsg(encMsgHead(genMsg(*std::make_unique<Gen>(r, p))));
		int zeros = r.range(1, 200); uint64_t deep = r.next(); bool before = r.one(3), after = r.one(3);
		auto make = [&](size_t n) {
			Bytes b;
			switch (kind) {
			case 0: { const Elem &e = el[k]; size_t per = 1; if (e.k == 'l') { size_t m = 0; for (int i = 0; i < e.tl; i++) m = m << 4 | ((unsigned char)h[e.off + (size_t)i] & 15); if (m) per = (e.end - e.off) / m + 1; } Bytes s = stretch(h, el, k, std::max<size_t>(100, n / per)); b = s.empty() ? s : sealMsg(s); name = e.k == 'l' ? "a list" : "a string"; break; }
			case 1: b = Bytes(n, '\0') + one; name = "zeros, then a message"; break;
			case 2: while (b.size() < n) b += one; name = "messages"; break;
			case 3: while (b.size() < n) b += one + Bytes((size_t)zeros, '\0'); name = "messages and zeros"; break;
			case 4: b = one + Bytes(n, '\0'); name = "a message, then zeros"; break;
			case 7: { // the same length, announced with very many bytes
				const Elem &e = el[k]; uint64_t l = (unsigned char)h[e.off] & 15; int ty = (unsigned char)h[e.off] & 0x70; if (ty != 0x70) l += n - 1;
				Bytes t(n, (char)0x80); t[0] = (char)(0x80 | ty); t.back() = 0; for (size_t i = 0; i < 8; i++) t[n - 1 - i] = (char)((unsigned char)t[n - 1 - i] | (l >> (4 * i) & 15));
				b = h; b.replace(e.off, 1, t); b = sealMsg(b); name = "one length"; break; }
			case 6: { Rng q(deep); b = deepMsg(q, n / 12); name = "nested trees"; break; }
			default: while (b.size() < n) b += one + other; name = "messages of two kinds"; break;
			}
			return (before ? other : Bytes()) + b + (after ? other : Bytes());
		};
		double prevE = 0, prevB = 0; size_t prevN = 0;
		for (size_t n : {4000, 16000, 64000, 256000, 1000000}) {
			if (n > 256000 && !c.thorough) break;
			Bytes b = make(n); if (b.size() < n / 4) return;
			c.eval(b.substr(0, 3000)); c.evals--; c.note("stretched: " + name);
			Cost q = measure(b, r.one(2));
			if (prevN && b.size() > prevN) { double f = (double)b.size() / (double)prevN; if ((double)q.edges > prevE * f * 1.5 + 5000) c.fail("growth", name + ": " + std::to_string(f) + " times the input took " + std::to_string((double)q.edges / prevE) + " times the steps"); if ((double)q.bytes > prevB * f * 2.5 + 20000) c.fail("growth", name + ": " + std::to_string(f) + " times the input moved " + std::to_string((double)q.bytes / prevB) + " times the bytes"); }
			prevE = (double)q.edges; prevB = (double)q.bytes; prevN = b.size();
		}
	});
	c.mode = m0 + "/elem"; // single elements with declared lengths that nothing backs up
	c.units((long)elps().size() * 40, [&](long u) {
		Rng &r = c.rng; const ElP &e = elps()[(size_t)u % elps().size()]; Prof p = randProf(r); p.budget = 200; Gen g(r, p);
		std::vector<Elem> el; Bytes b = enc(genFor(g, e), &el); if (el.empty()) return;
		const Elem &x = el[r.below(el.size())]; int type = (unsigned char)b[x.off] & 0x70; Bytes s; encTL(s, type, r.one(2) ? r.next() & 0x7fffffff : r.below(1 << 20)); b.replace(x.off, (size_t)x.tl, s);
		if (r.one(3)) b.resize(r.below(b.size()) + 1);
		c.eval(Bytes(e.name) + b); c.evals--;
		double n = (double)b.size(); vf_mem_reset(); long live0 = vf_live_bytes; vf_edges = 0; vf_edge_limit = (unsigned long long)(EDGE_A * n + EDGE_B);
		sml_buffer *buf = mkbuf(b); vf_alloc_cap = (long)(PEAK_A * n + PEAK_B);
		void *res = lib([&] { return e.parse(buf); });
		vf_alloc_cap = 0; vf_edge_limit = 0;
		if ((double)(vf_peak_bytes - live0) > PEAK_A * n + PEAK_B) c.fail("cost", Bytes(e.name) + ": " + std::to_string(vf_peak_bytes - live0) + " bytes of memory for an element of " + std::to_string(b.size()) + " bytes");
		lib([&] { if (res) e.fre(res); sml_buffer_free(buf); return 0; });
		c.evals++; c.note("elements with unbacked lengths");
	});
	c.mode = m0;
}
