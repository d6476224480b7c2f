#include "model.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstdio>
#include <cstdlib>

uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0xD6E8FEB86659FD93ull + b); r.next(); return r.next(); }
uint64_t hashBytes(const Bytes &b, uint64_t h) {
	for (unsigned char c : b) { h ^= c; h *= 1099511628211ull; }
	return h ^ (h >> 31);
}
Bytes hex(const Bytes &b) {
	static const char *d = "0123456789abcdef"; Bytes o; o.reserve(b.size() * 2);
	for (unsigned char c : b) { o += d[c >> 4]; o += d[c & 15]; }
	return o;
}
Bytes unhex(const Bytes &h) {
	Bytes o; int hi = -1;
	for (char c : h) {
		int v = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
		if (v < 0) continue;
		if (hi < 0) hi = v; else { o += (char)(hi * 16 + v); hi = -1; }
	}
	return o;
}
Node Abs() { return Node(); }
Node Oct(const Bytes &s) { Node n; n.k = 'o'; n.s = s; return n; }
Node Bool(uint8_t b) { Node n; n.k = 'b'; n.v = b; return n; }
Node Int(int64_t v, int nb) { Node n; n.k = 'i'; n.v = (uint64_t)v; n.nb = nb; return n; }
Node Uns(uint64_t v, int nb) { Node n; n.k = 'u'; n.v = v; n.nb = nb; return n; }
Node List(std::vector<Node> c) { Node n; n.k = 'l'; n.c = std::move(c); return n; }
Node Raw(const Bytes &s) { Node n; n.k = 'r'; n.s = s; return n; }

void encTL(Bytes &out, int type, uint64_t len) {
	// number of TL bytes: smallest k with total < 16^k
	int k = 1;
	for (;; k++) {
		uint64_t total = type == 0x70 ? len : len + (uint64_t)k;
		if (k >= 16 || total < (1ull << (4 * k))) break;
	}
	uint64_t total = type == 0x70 ? len : len + (uint64_t)k;
	for (int i = k - 1; i >= 0; i--) {
		unsigned nib = (unsigned)((total >> (4 * i)) & 15);
		out += (char)((i ? 0x80 : 0) | (i == k - 1 ? type : 0) | (int)nib);
	}
}
void enc(const Node &n, Bytes &out, std::vector<Elem> *el, int depth) {
	size_t off = out.size(); size_t idx = 0;
	if (el) { idx = el->size(); el->push_back({off, 0, 0, n.k, depth}); }
	size_t tl = 0;
	switch (n.k) {
	case 'a': out += (char)1; tl = 1; break;
	case 'r': out += n.s; break;
	case 'o':
		if (n.s.empty()) { out += (char)1; tl = 1; break; }
		encTL(out, 0, n.s.size()); tl = out.size() - off; out += n.s; break;
	case 'b': encTL(out, 0x40, 1); tl = 1; out += (char)n.v; break;
	case 'i': case 'u':
		encTL(out, n.k == 'i' ? 0x50 : 0x60, (uint64_t)n.nb); tl = out.size() - off;
		for (int j = n.nb - 1; j >= 0; j--) out += j >= 8 ? (char)(n.k == 'i' && (int64_t)n.v < 0 ? 0xff : 0) : (char)(n.v >> (8 * j));
		break;
	case 'l':
		encTL(out, 0x70, n.c.size()); tl = out.size() - off;
		for (auto &c : n.c) enc(c, out, el, depth + 1);
		break;
	}
	if (el) { (*el)[idx].tl = (int)tl; (*el)[idx].end = out.size(); }
}
Bytes enc(const Node &n, std::vector<Elem> *el) { Bytes b; enc(n, b, el, 0); return b; }

// reflected CRC-16/CCITT, derived from the polynomial, not from a printed table
struct CrcTab { uint16_t t[256]; CrcTab() { for (int i = 0; i < 256; i++) { uint16_t c = (uint16_t)i; for (int k = 0; k < 8; k++) c = (uint16_t)((c & 1) ? (c >> 1) ^ 0x8408 : c >> 1); t[i] = c; } } };
static const CrcTab CT;
static uint16_t run(const Bytes &b, size_t f, size_t t, uint16_t c) {
	if (t > b.size()) t = b.size();
	for (size_t i = f; i < t; i++) c = (uint16_t)((c >> 8) ^ CT.t[(c ^ (unsigned char)b[i]) & 255]);
	return c;
}
uint16_t crcX25(const Bytes &b, size_t f, size_t t) { uint16_t c = (uint16_t)~run(b, f, t, 0xffff); return (uint16_t)(c << 8 | c >> 8); }
uint16_t crcKermit(const Bytes &b, size_t f, size_t t) { return run(b, f, t, 0); }
static uint16_t slow(const unsigned char *p, size_t n, uint16_t c) {
	for (size_t i = 0; i < n; i++) for (int k = 0; k < 8; k++) {
		int bit = ((p[i] >> k) & 1) ^ (c & 1);
		c >>= 1; if (bit) c ^= 0x8408;
	}
	return c;
}
uint16_t crcX25slow(const unsigned char *p, size_t n) { uint16_t c = (uint16_t)~slow(p, n, 0xffff); return (uint16_t)(c << 8 | c >> 8); }
uint16_t crcKermitslow(const unsigned char *p, size_t n) { return slow(p, n, 0); }

const std::vector<MsgSpec> &specs() {
	static const std::vector<MsgSpec> s = {
		{0x100, "OpenReq", {tOct, tOct, tOct, tOct, tOct, tOct, tU8}},
		{0x101, "OpenRes", {tOct, tOct, tOct, tOct, tTime, tU8}},
		{0x200, "CloseReq", {tOct}},
		{0x201, "CloseRes", {tOct}},
		{0x300, "ProfilePackReq", {tOct, tOct, tOct, tBool, tTime, tTime, tPath, tObjList, tTree}},
		{0x301, "ProfilePackRes", {tOct, tTime, tU32, tPath, tHdrSeq, tPopeSeq, tOct, tOct}},
		{0x400, "ProfileListReq", {tOct, tOct, tOct, tBool, tTime, tTime, tPath, tObjList, tTree}},
		{0x401, "ProfileListRes", {tOct, tTime, tU32, tPath, tTime, tU64, tPerSeq, tOct, tOct}},
		{0x500, "GetProcParReq", {tOct, tOct, tOct, tPath, tOct}},
		{0x501, "GetProcParRes", {tOct, tPath, tTree}},
		{0x600, "SetProcParReq", {tOct, tOct, tOct, tPath, tTree}},
		{0x700, "GetListReq", {tOct, tOct, tOct, tOct, tOct}},
		{0x701, "GetListRes", {tOct, tOct, tOct, tTime, tList, tOct, tTime}},
		{0xff01, "AttentionRes", {tOct, tOct, tOct, tTree}},
	};
	return s;
}
const MsgSpec *specFor(uint32_t tag) { for (auto &s : specs()) if (s.tag == tag) return &s; return nullptr; }
std::vector<T> fieldsOf(T t) {
	switch (t) {
	case tTupel: return {tOct, tTime, tU64, tU8, tI8, tI64, tU8, tI8, tI64, tU8, tI8, tI64, tOct, tU8, tI8, tI64, tU8, tI8, tI64, tU8, tI8, tI64, tOct};
	case tPeriod: return {tOct, tU8, tI8, tValue, tOct};
	case tHdr: return {tOct, tU8, tI8};
	case tPope: return {tTime, tU64, tVSeq, tOct};
	case tVEntry: return {tValue, tOct};
	default: return {};
	}
}

// ---- generator ----
// constants that occur in the code under test: used as values, lengths and contents
// (workload only; no oracle looks at them)
const Dict &dict() {
	static const Dict d = [] {
		Dict o; const char *f = getenv("VF_DICT"); FILE *in = f ? fopen(f, "r") : nullptr; char line[256];
		while (in && fgets(line, sizeof line, in)) {
			Bytes l(line); while (!l.empty() && (l.back() == '\n')) l.pop_back();
			if (l.size() > 2 && l[0] == 'i') o.ints.push_back(strtoull(l.c_str() + 2, nullptr, 10)); else if (l.size() > 2 && l[0] == 's') o.strs.push_back(unhex(l.substr(2)));
		}
		if (in) fclose(in);
		if (o.ints.empty()) o.ints = {1, 255, 256};
		if (o.strs.empty()) o.strs = {Bytes("DZG")};
		return o;
	}();
	return d;
}
size_t somewhere(Rng &r, size_t near) {
	if (!r.one(6)) return r.below(near);
	switch (r.below(4)) {
	case 0: return r.below(3000);
	case 1: return dictInt(r, 140000);
	default: { size_t k = (size_t)1 << r.range(8, 17); return k - r.below(k < 40 ? k : 40) + r.below(6); }
	}
}
uint64_t dictInt(Rng &r, uint64_t most) {
	for (int i = 0; i < 6; i++) { uint64_t v = r.pick(dict().ints) + (uint64_t)(r.one(2) ? 0 : r.range(-1, 1)); if (v <= most) return v; }
	return r.below(std::min<uint64_t>(most, 300) + 1);
}
// entries that are equal, or nearly equal, to their neighbours
static void twins(Rng &r, Node &n) {
	if (n.c.size() < 2 || !r.one(6)) return;
	for (size_t i = 1; i < n.c.size(); i++) if (r.one(2)) {
		Node was = n.c[i]; n.c[i] = n.c[r.one(3) ? r.below(i) : i - 1];
		if (was.k == 'l' && was.c.size() == n.c[i].c.size() && !was.c.empty() && r.one(2)) { size_t j = r.below(was.c.size()); n.c[i].c[j] = was.c[j]; }
	}
}
// strings with structure: the same bytes at both ends, repeated pieces, palindromes, runs
Bytes patterned(Rng &r, size_t n) {
	if (!n) return "";
	auto piece = [&] { Bytes t; if (r.one(3)) t = r.pick(dict().strs); else if (r.one(2)) { static const char *a = "\x1b\x1a\x00\x01\xff\x80\x76\x72\x63\x0a\x0d \x7f\x55\xaa"; t = Bytes(1 + r.below(4), a[r.below(15)]); if (r.one(3)) t += a[r.below(15)]; } else t = r.bytes(1 + r.below(4)); return t; };
	Bytes b = r.one(3) ? Bytes(n, (char)r.next()) : r.bytes(n), t = piece(), e = r.one(2) ? t : piece();
	switch (r.below(6)) {
	case 0: for (size_t i = 0; i < n; i++) b[i] = t[i % t.size()]; break;
	case 1: for (size_t i = 0; i < n / 2; i++) b[n - 1 - i] = b[i]; break;
	case 2: if (t.size() <= n) b.replace(0, t.size(), t); break;
	case 3: if (e.size() <= n) b.replace(n - e.size(), e.size(), e); break;
	default: if (t.size() <= n) b.replace(0, t.size(), t); if (e.size() <= n) b.replace(n - e.size(), e.size(), e); break;
	}
	for (size_t i; (i = b.find("\x1b\x1b\x1b\x1b")) != Bytes::npos;) b[i + 1] = 'E'; // no escape sequence in the transport
	return b;
}
Bytes Gen::str() {
	if (!strs.empty() && r.one(10)) { Bytes b = r.pick(strs); if (used + (long)b.size() < p.budget + 200) { if (r.one(3) && !b.empty()) { if (r.one(2) && b.size() > 1) b.pop_back(); else b[r.below(b.size())] ^= (char)(1 << r.below(8)); } used += (long)b.size() + 1; return b; } }
	Bytes b = str1(); if (b.size() <= 64) { if (strs.size() < 40) strs.push_back(b); else strs[r.below(40)] = b; }
	return b;
}
Bytes Gen::str1() {
	if (r.pct(2)) { Bytes b = r.pick(dict().strs); if (r.one(3)) b += r.bytes(r.below(9)); if (r.one(6)) b.insert(0, r.bytes(1 + r.below(3))); if (b.find("\x1b\x1b\x1b\x1b") == Bytes::npos) { used += (long)b.size() + 1; return b; } }
	static const std::vector<int> bound = {13, 14, 15, 16, 17, 29, 30, 31, 127, 128, 253, 254, 255, 256, 257, 258};
	static const std::vector<int> big = {4091, 4092, 4093, 4094, 4095, 4096, 4097, 32767, 32768, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537};
	size_t n;
	if (p.hugeStr && r.pct(1)) { n = r.one(3) ? r.below(p.hugeStr) : (size_t)r.pick(big); if (n > p.hugeStr) n = p.hugeStr; }
	else if (r.pct(p.bigStr) && used < p.budget) n = r.one(4) ? 1 + (size_t)dictInt(r, 2000) : (size_t)r.pick(bound);
	else n = (size_t)r.range(1, p.maxStr);
	used += (long)n + 1;
	if (r.one(4)) { Bytes b(n, 0); for (auto &c : b) c = (char)r.range(0x20, 0x7e); return b; }
	if (r.one(8)) return patterned(r, n);
	if (r.one(8)) { static const char *alpha = "\x00\x01\x1b\x76\x72\x63\xff\x80"; Bytes b(n, 0); for (auto &c : b) c = alpha[r.below(8)]; return b; }
	return r.bytes(n);
}
int Gen::len() {
	static const std::vector<int> bound = {14, 15, 16, 17, 18, 31, 32, 33, 254, 255, 256, 257};
	int n;
	if (used > p.budget) n = r.range(0, 1);
	else if (r.pct(p.bigList)) n = r.one(6) ? (int)dictInt(r, 130) : r.one(4) ? r.pick(bound) : bound[r.below(8)];
	else n = r.range(0, p.maxList);
	used += n;
	return n;
}
Node Gen::num(char k, int maxb, bool exact) {
	int nb = maxb;
	if (!exact) {
		if (p.stdWidth) { static const int w[] = {1, 2, 4, 8}; do nb = w[r.below(4)]; while (nb > maxb); }
		else nb = r.range(1, maxb);
	}
	uint64_t m = nb == 8 ? ~0ull : ((1ull << (8 * nb)) - 1), v;
	switch (r.below(10)) {
	case 7: v = dictInt(r, ~0ull); if (k == 'i' && r.one(3)) v = 0 - v; break;
	case 8: v = nums.empty() ? r.next() : r.pick(nums) + (uint64_t)(r.one(2) ? 0 : r.range(-1, 1)); break;
	case 0: v = 0; break;
	case 1: v = m; break;
	case 2: v = 1ull << (8 * nb - 1); break;
	case 3: v = (1ull << (8 * nb - 1)) - 1; break;
	case 4: v = r.below(256); break;
	default: v = r.next();
	}
	v &= m;
	used += nb + 1;
	if (nums.size() < 40) nums.push_back(v); else nums[r.below(40)] = v;
	if (k == 'i') {
		if (nb < 8 && (v >> (8 * nb - 1)) & 1) v |= ~m;
		return Int((int64_t)v, nb);
	}
	return Uns(v, nb);
}
Node Gen::optional(T t, int depth) {
	if (r.pct(p.absent)) { used++; return Abs(); }
	return el(t, depth);
}
Node Gen::listEntry() {
	return List({optional(tOct), optional(tStatus), optional(tTime), optional(tU8), optional(tI8), optional(tValue), optional(tOct)});
}
Node Gen::el(T t, int depth) {
	used++;
	switch (t) {
	case tOct: return Oct(str());
	case tU8: return num('u', 1);
	case tU16: return num('u', 2);
	case tU32: return num('u', 4);
	case tU64: return num('u', 8);
	case tI8: return num('i', 1);
	case tI16: return num('i', 2);
	case tI32: return num('i', 4);
	case tI64: return num('i', 8);
	case tBool: { static const int bv[] = {0, 0xff, 1, 0x80, 0x10}; return Bool((uint8_t)bv[r.below(5)]); }
	case tStatus: return num('u', 8);
	case tValue:
		switch (r.below(4)) {
		case 0: return Oct(str());
		case 1: return el(tBool);
		case 2: return num('u', 8);
		default: return num('i', 8);
		}
	case tTime:
		if (r.pct(p.bareTime)) return num('u', 4, true);
		if (r.pct(p.zg22)) return List({Uns(3, 1), List({optional(tU32), optional(tI16), optional(tI16)})});
		if (p.oddTag && r.pct(p.oddTag)) return List({r.one(2) ? Abs() : Uns(r.below(256), 1), num('u', 4)});
		return List({Uns((uint64_t)r.range(1, 2), 1), num('u', 4)});
	case tPath: { Node n = List(); for (int k = len(); k > 0; k--) n.c.push_back(Oct(str())); twins(r, n); return n; }
	case tObjList: { Node n = List(); for (int k = len(); k > 0; k--) n.c.push_back(optional(tOct)); twins(r, n); return n; }
	case tList: { Node n = List(); for (int k = len(); k > 0; k--) n.c.push_back(listEntry()); twins(r, n); return n; }
	case tHdrSeq: { Node n = List(); for (int k = len(); k > 0; k--) n.c.push_back(el(tHdr)); twins(r, n); return n; }
	case tPopeSeq: { Node n = List(); for (int k = len(); k > 0; k--) n.c.push_back(el(tPope)); twins(r, n); return n; }
	case tPerSeq: { Node n = List(); for (int k = len(); k > 0; k--) n.c.push_back(optional(tPeriod)); twins(r, n); return n; }
	case tVSeq: { Node n = List(); for (int k = len(); k > 0; k--) n.c.push_back(el(tVEntry)); twins(r, n); return n; }
	case tTupel: case tPeriod: case tHdr: case tPope: case tVEntry: {
		Node n = List();
		for (T f : fieldsOf(t)) n.c.push_back(f == tVSeq ? el(f) : optional(f));
		return n; }
	case tPpv: {
		int tag = r.range(1, 4);
		static const T k[] = {tOct, tValue, tPeriod, tTupel, tTime};
		return List({Uns((uint64_t)tag, 1), tag == 4 ? el(tTime) : optional(k[tag])}); }
	case tTree: {
		Node kids = Abs();
		if (depth < p.depth && !r.pct(p.absent)) { kids = List(); for (int k = len(); k > 0; k--) kids.c.push_back(el(tTree, depth + 1)); twins(r, kids); }
		return List({optional(tOct), optional(tPpv), kids}); }
	default: fprintf(stderr, "gen: bad type %d\n", t); abort();
	}
}
Node Gen::body(const MsgSpec &m) {
	Node d = List();
	for (T f : m.f) d.c.push_back(f == tHdrSeq || f == tPopeSeq || f == tPerSeq ? el(f) : optional(f));
	return List({Uns(m.tag, p.stdWidth ? 4 : (m.tag > 0xffff ? 4 : r.one(3) ? 4 : 2)), d});
}
Node Gen::bodyRandom() { return body(r.pick(specs())); }
Msg genMsg(Gen &g, int spec) {
	Msg m;
	m.tid = g.optional(tOct); m.gid = g.optional(tU8); m.abort = g.optional(tU8);
	m.body = g.body(spec < 0 ? g.r.pick(specs()) : specs()[(size_t)spec]);
	return m;
}
Bytes encMsgHead(const Msg &m, std::vector<Elem> *el) {
	return enc(List({m.tid, m.gid, m.abort, m.body, Raw(""), Raw("")}), el);
}
Bytes sealMsg(const Bytes &head, int crcMode, uint16_t ex, int nb, int eom) {
	Bytes b = head; uint16_t c = crcMode == 1 ? crcKermit(b) : crcMode == 3 ? ex : crcX25(b);
	if (crcMode == 2) c ^= 0x0100;
	if (nb == 2) { b += (char)0x63; b += (char)(c >> 8); b += (char)c; }
	else { b += (char)0x62; b += (char)c; }
	if (eom >= 0) b += (char)eom;
	return b;
}
Bytes encMsg(const Msg &m, std::vector<Elem> *el) { return sealMsg(encMsgHead(m, el), m.crcMode); }

// ---- reference decoder ----
void Ref::u(const char *pre, uint64_t v) { out += pre; out += std::to_string(v); }
void Ref::i(const char *pre, int64_t v) { out += pre; out += std::to_string(v); }
int Ref::peekType() { return pos < end ? ((unsigned char)b[pos] & 0x70) : -1; }
bool Ref::tl(int &type, int64_t &len) {
	if (pos >= end) return false;
	unsigned char c = (unsigned char)b[pos];
	type = c & 0x70;
	uint64_t n = 0; int k = 0; bool lead0 = false, big = false;
	for (;;) {
		if (pos >= end) return false;
		c = (unsigned char)b[pos++];
		if (k == 0 && (c & 0x80) && (c & 15) == 0) lead0 = true;
		if (k > 0 && (c & 0x70)) lead0 = true;
		k++;
		if (n >> 40) big = true; else n = n << 4 | (c & 15);
		if (!(c & 0x80)) break;
	}
	if (lead0) { maybe = true; sawNoncanon = true; }
	if (big || n > 0x7fffffff) return false;
	len = type == 0x70 ? (int64_t)n : (int64_t)n - k;
	return len >= 0;
}
bool Ref::skip(bool &s) {
	s = false;
	if (pos >= end) return false;
	if (b[pos] == 1) { pos++; s = true; out += '-'; }
	return true;
}
bool Ref::oct(Bytes *raw) {
	bool s; if (!skip(s)) return false;
	if (raw) raw->clear();
	if (s) return true;
	int t; int64_t n;
	if (peekType() != 0) return false;
	if (!tl(t, n)) return false;
	if ((uint64_t)n > end - pos) return false;
	if ((uint64_t)n == end - pos) maybe = true;
	Bytes v = b.substr(pos, (size_t)n);
	out += 'x'; out += hex(v);
	if (raw) *raw = v;
	pos += (size_t)n;
	return true;
}
bool Ref::num(int type, int max, uint64_t *pv, int *pnb, bool *abs) {
	bool s; if (!skip(s)) return false;
	if (abs) *abs = s;
	if (s) return true;
	int t; int64_t n;
	if (peekType() != type) return false;
	if (!tl(t, n)) return false;
	if (n > max) return false;
	if ((uint64_t)n > end - pos) return false;
	if (n == 0) maybe = true;
	uint64_t v = 0;
	for (int k = 0; k < n; k++) v = v << 8 | (unsigned char)b[pos + (size_t)k];
	if (type == 0x50 && n > 0 && n < 8 && ((unsigned char)b[pos] & 0x80)) v |= ~0ull << (8 * n);
	pos += (size_t)n;
	if (type == 0x50) i("i", (int64_t)v); else u("u", v);
	if (pv) *pv = v;
	if (pnb) *pnb = (int)n;
	return true;
}
bool Ref::boolean() {
	bool s; if (!skip(s)) return false;
	if (s) return true;
	int t; int64_t n;
	if (peekType() != 0x40) return false;
	if (!tl(t, n) || n != 1 || pos >= end) return false;
	out += b[pos] ? "b1" : "b0"; pos++;
	return true;
}
static int stdw(int nb) { return nb <= 1 ? 1 : nb <= 2 ? 2 : nb <= 4 ? 4 : 8; }
bool Ref::value(Val &v) {
	v = Val();
	bool s; size_t save = out.size();
	if (!skip(s)) return false;
	out.resize(save);
	if (s) return true;
	v.abs = false;
	bool ok;
	switch (peekType()) {
	case 0: v.k = 'o'; ok = oct(&v.s); break;
	case 0x40: v.k = 'b'; ok = boolean(); v.v = ok && (unsigned char)b[pos - 1] != 0; break;
	case 0x50: case 0x60: v.k = peekType() == 0x50 ? 'i' : 'u'; ok = num(peekType(), 8, &v.v, &v.nb); break;
	default: ok = false;
	}
	out.resize(save);
	return ok;
}
void Ref::putValue(const Val &v) {
	if (v.abs) { out += '-'; return; }
	switch (v.k) {
	case 'o': out += "vx"; out += hex(v.s); break;
	case 'b': out += v.v ? "vb1" : "vb0"; break;
	case 'i': u("v", (uint64_t)stdw(v.nb) * 8); i("i", (int64_t)v.v); break;
	case 'u': u("v", (uint64_t)stdw(v.nb) * 8); u("u", v.v); break;
	}
}
bool Ref::status() {
	size_t save = out.size(); uint64_t v; int nb; bool abs;
	if (!num(0x60, 8, &v, &nb, &abs)) return false;
	out.resize(save);
	if (abs) out += '-'; else { u("s", (uint64_t)stdw(nb) * 8); u("u", v); }
	return true;
}
bool Ref::listHead(int n) {
	int t; int64_t len;
	if (peekType() != 0x70) return false;
	return tl(t, len) && len == n;
}
bool Ref::time() {
	bool s; if (!skip(s)) return false;
	if (s) return true;
	out += "t(";
	if ((unsigned char)b[pos] == 0x65) {
		bare = true;
		out += "u1,";
		if (!num(0x60, 4)) return false;
		out += ')';
		return true;
	}
	if (!listHead(2)) return false;
	uint64_t tag = 0; bool abs;
	if (!num(0x60, 1, &tag, nullptr, &abs)) return false;
	if (abs || tag < 1 || tag > 3) maybe = true;
	out += ',';
	if (peekType() == 0x60) { if (!num(0x60, 4)) return false; }
	else if (peekType() == 0x70) {
		zg22 = true;
		size_t save = out.size();
		if (!listHead(3)) return false;
		if (!num(0x60, 4) || !num(0x50, 2) || !num(0x50, 2)) return false;
		out.resize(save); out += "-";
	} else return false;
	out += ')';
	return true;
}
bool Ref::path() {
	bool s; if (!skip(s)) return false;
	if (s) return true;
	int t; int64_t n;
	if (peekType() != 0x70 || !tl(t, n)) return false;
	out += "P[";
	for (int64_t k = 0; k < n; k++) {
		size_t save = out.size();
		bool isabs = pos < end && b[pos] == 1;
		if (!oct()) return false;
		if (isabs) out.resize(save); else out += ' ';
	}
	out += ']';
	return true;
}
bool Ref::ppv(int depth) {
	bool s; if (!skip(s)) return false;
	if (s) return true;
	if (!listHead(2)) return false;
	out += "p(";
	uint64_t tag; bool abs;
	if (!num(0x60, 1, &tag, nullptr, &abs) || abs) return false;
	out += ' ';
	switch (tag) {
	case 1: { Val v; if (!value(v)) return false; putValue(v); break; }
	case 2: { if (!skip(s)) return false; if (!s && !fixed(tPeriod, "pe", depth)) return false; break; }
	case 3: { if (!skip(s)) return false; if (!s && !fixed(tTupel, "te", depth)) return false; break; }
	case 4: if (!time()) return false; break;
	default: return false;
	}
	out += ')';
	return true;
}
bool Ref::tree(int depth) {
	if (depth > 100) maybe = true;
	if (depth > 5000) return false;
	bool s; if (!skip(s)) return false;
	if (s) return true;
	if (!listHead(3)) return false;
	out += "T(";
	if (!oct()) return false;
	out += ' ';
	if (!ppv(depth)) return false;
	out += " [";
	size_t save = out.size();
	if (!skip(s)) return false;
	if (s) out.resize(save);
	else {
		int t; int64_t n;
		if (peekType() != 0x70 || !tl(t, n)) return false;
		for (int64_t k = 0; k < n; k++) {
			bool isabs = pos < end && b[pos] == 1;
			if (isabs) { pos++; continue; }
			if (!tree(depth + 1)) return false;
			out += ' ';
		}
	}
	out += "])";
	return true;
}
bool Ref::list() {
	bool s; if (!skip(s)) return false;
	if (s) return true;
	int t; int64_t n;
	if (peekType() != 0x70 || !tl(t, n)) return false;
	if (n == 0) { out += '-'; return true; }
	bool dvs74 = false;
	out += "L[";
	for (int64_t k = 0; k < n; k++) {
		if (!listHead(7)) return false;
		out += "e(";
		Bytes name; Val v;
		bool nameAbs = pos < end && b[pos] == 1;
		if (!oct(&name)) return false;
		out += ' '; if (!status()) return false;
		out += ' '; if (!time()) return false;
		out += ' '; if (!num(0x60, 1)) return false;
		out += ' '; if (!num(0x50, 1)) return false;
		out += ' '; if (!value(v)) return false;
		// the DVS74 workaround, as stated in C14
		static const Bytes serialName("\x01\x00\x60\x01\x00\xff", 6), powerName("\x01\x00\x10\x07\x00\xff", 6);
		if (!nameAbs && name == serialName && !v.abs && v.k == 'o' && v.s.size() == 10 && v.s.compare(0, 5, Bytes("\x0a\x01" "DZG", 5)) == 0) {
			uint64_t ser = 0;
			for (int q = 5; q < 10; q++) ser = ser << 8 | (unsigned char)v.s[(size_t)q];
			if ((ser >= 42000000 && ser <= 48999999) || (ser >= 55000000 && ser <= 58999999)) dvs74 = true;
		} else if (dvs74 && !nameAbs && name == powerName && !v.abs && v.k == 'i' && v.nb <= 2) {
			dzg = true;
			v.k = 'u';
			v.v &= stdw(v.nb) == 1 ? 0xff : 0xffff;
		}
		putValue(v);
		if (!v.abs && (nameAbs || name.size() < 6)) srvName = true;
		if (!v.abs && v.k == 'o' && v.s.empty()) srvEmpty = true;
		out += ' '; if (!oct()) return false;
		out += ") ";
	}
	out += ']';
	return true;
}
bool Ref::fixed(T t, const char *pre, int depth) {
	std::vector<T> f = fieldsOf(t);
	if (!listHead((int)f.size())) return false;
	out += pre; out += '(';
	bool first = true;
	for (T x : f) { if (!first) out += ' '; first = false; if (!el(x, depth)) return false; }
	out += ')';
	return true;
}
bool Ref::seq(T t, int depth) {
	int ty; int64_t n;
	if (peekType() != 0x70 || !tl(ty, n)) return false;
	out += "S[";
	for (int64_t k = 0; k < n; k++) { if (!el(t, depth)) return false; out += ' '; }
	out += ']';
	return true;
}
bool Ref::objlist() {
	bool s; if (!skip(s)) return false;
	if (s) return true;
	int t; int64_t n;
	if (peekType() != 0x70 || !tl(t, n)) return false;
	if (n == 0) { out += '-'; return true; }
	out += "O[";
	for (int64_t k = 0; k < n; k++) { if (!oct()) return false; out += ' '; }
	out += ']';
	return true;
}
bool Ref::el(T t, int depth) {
	bool s;
	switch (t) {
	case tOct: return oct();
	case tU8: return num(0x60, 1);
	case tU16: return num(0x60, 2);
	case tU32: return num(0x60, 4);
	case tU64: return num(0x60, 8);
	case tI8: return num(0x50, 1);
	case tI16: return num(0x50, 2);
	case tI32: return num(0x50, 4);
	case tI64: return num(0x50, 8);
	case tBool: return boolean();
	case tValue: { Val v; if (!value(v)) return false; putValue(v); return true; }
	case tStatus: return status();
	case tTime: return time();
	case tPath: return path();
	case tTree: return tree(depth);
	case tList: return list();
	case tHdrSeq: return seq(tHdr);
	case tPopeSeq: return seq(tPope);
	case tPerSeq: return seq(tPeriod);
	case tVSeq: return seq(tVEntry);
	case tObjList: return objlist();
	case tPpv: return ppv(depth);
	case tTupel: if (!skip(s)) return false; return s || fixed(tTupel, "te", depth);
	case tPeriod: if (!skip(s)) return false; return s || fixed(tPeriod, "pe", depth);
	case tHdr: return fixed(tHdr, "h", depth);
	case tPope: return fixed(tPope, "op", depth);
	case tVEntry: return fixed(tVEntry, "ve", depth);
	case tBody: return body();
	default: fprintf(stderr, "ref: bad type %d\n", t); abort();
	}
}
bool Ref::body() {
	if (!listHead(2)) return false;
	size_t save = out.size(); uint64_t tag; bool abs;
	if (!num(0x60, 4, &tag, nullptr, &abs) || abs) return false;
	out.resize(save);
	const MsgSpec *m = specFor((uint32_t)tag);
	if (!m) return false;
	if (!listHead((int)m->f.size())) return false;
	u("B", tag);
	out += '(';
	bool first = true;
	for (T x : m->f) { if (!first) out += ' '; first = false; if (!el(x)) return false; }
	out += ')';
	return true;
}
bool Ref::message() {
	size_t begin = pos;
	maybe = false; msgState = 0; kermit = false;
	if (!listHead(6)) return false;
	out += "M(";
	if (!oct()) return false;
	out += ' '; if (!num(0x60, 1)) return false;
	out += ' '; if (!num(0x60, 1)) return false;
	out += ' '; if (!body()) return false;
	out += ')';
	size_t stop = pos;
	size_t save = out.size(); uint64_t crc; bool abs;
	if (end - pos < 3) return false;
	if (!num(0x60, 2, &crc, nullptr, &abs) || abs) return false;
	out.resize(save);
	bool x25 = crc == crcX25(b, begin, stop), kz = !strictCrc && crc == crcKermit(b, begin, stop);
	if (!x25 && !kz) { msgState = 2; return true; }
	if (pos >= end) return false;
	if (b[pos] == 0) pos++; else maybe = true;
	kermit = !x25;
	msgState = 1;
	return true;
}
RefFile refFile(const Bytes &b, bool strictCrc) {
	RefFile f; Ref r(b); r.strictCrc = strictCrc;
	while (r.pos < r.end) {
		if (b[r.pos] == 0) { r.pos++; continue; }
		size_t begin = r.pos; r.out.clear(); r.srvName = r.srvEmpty = false;
		if (!r.message()) { f.stopped = true; f.stopPos = begin; break; }
		if (r.msgState == 1 || r.maybe) { f.srvName |= r.srvName; f.srvEmpty |= r.srvEmpty; }
		if (r.msgState == 1) f.msgs.push_back({r.out, r.maybe, begin, r.pos, r.kermit});
		else { f.droppedCrc++; if (r.maybe) f.msgs.push_back({"", true, begin, r.pos, false}); }
	}
	return f;
}
static Bytes clip(const Bytes &s) { return s.size() > 400 ? s.substr(0, 400) + "..." : s; }
Bytes compareDelivered(const RefFile &rf, const std::vector<Bytes> &got) {
	size_t j = 0; bool skippedMaybe = false;
	for (size_t k = 0; k < rf.msgs.size(); k++) {
		if (j < got.size() && got[j] == rf.msgs[k].dump) { j++; continue; }
		if (rf.msgs[k].maybe) { skippedMaybe = true; continue; }
		if (skippedMaybe && j == got.size()) return "";
		if (j >= got.size()) return "message " + std::to_string(k) + " missing; expected " + clip(rf.msgs[k].dump);
		size_t d = 0; while (d < got[j].size() && d < rf.msgs[k].dump.size() && got[j][d] == rf.msgs[k].dump[d]) d++;
		size_t from = d > 40 ? d - 40 : 0;
		return "message " + std::to_string(k) + " differs at " + std::to_string(d) + ": expected ..." + clip(rf.msgs[k].dump.substr(from)) + " got ..." + clip(got[j].substr(from));
	}
	if (j < got.size()) return "delivered message that must not be delivered: " + clip(got[j]);
	return "";
}
Bytes frame(const Bytes &payload) {
	Bytes f("\x1b\x1b\x1b\x1b\x01\x01\x01\x01", 8); f += payload;
	int pad = (int)((4 - payload.size() % 4) % 4);
	f.append((size_t)pad, '\0');
	f += Bytes("\x1b\x1b\x1b\x1b\x1a", 5); f += (char)pad;
	uint16_t c = crcX25(f);
	f += (char)(c >> 8); f += (char)c;
	return f;
}
