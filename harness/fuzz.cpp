// Coverage-guided workload (libFuzzer) under the same oracles as the generated one.
// VF_TARGET names the property; the first byte of an input selects what is fed to what.
#include "core.hpp"
#include "stream.hpp"
#include <sys/stat.h>
#include <unistd.h>

static Ctx ctx;
static Bytes target;
static std::vector<int> kinds; // 0 raw file, 1 message head (sealed), 2 element, 3 transport stream, 4 two sealed heads, 5 head written again, 6 text of a list
static void onF(unsigned char *b, size_t n) { volatile unsigned char x = 0; for (size_t i = 0; i < n; i++) x ^= b[i]; if (n >= 16) { sml_file *f = lib([&] { return sml_file_parse(b + 8, n - 16); }); LIB(sml_file_free(f)); } }
static void seeds(const Bytes &dir, uint64_t seed, int n) {
	for (int i = 0; i < n; i++) {
		Rng r(mix(seed, (uint64_t)i)); Prof p = randProf(r); p.budget = 250; p.maxStr = 8; p.bigList = p.bigStr = 2; if (target == "C05" || target == "C18") p.stdWidth = true;
		Gen g(r, p); int k = kinds[r.below(kinds.size())]; Bytes b(1, (char)k);
		switch (k) {
		case 0: b += genFile(r, p, 2); break;
		case 1: case 5: b += encMsgHead(genMsg(g, (int)((size_t)i % specs().size()))); break;
		case 2: { size_t e = (size_t)i % elps().size(); b += (char)e; b += (char)0; b += enc(genFor(g, elps()[e])); break; }
		case 3: { Stream s; for (int q = r.range(1, 3); q > 0; q--) addFrame(r, s, okFrame(r, 100), r.one(2)); b += (char)r.below(256); b += s.b; break; }
		case 4: { Bytes h = encMsgHead(genMsg(g)); b += (char)(h.size() & 255); b += h; b += encMsgHead(genMsg(g)); break; }
		}
		char name[300]; snprintf(name, sizeof name, "%s/%04d", dir.c_str(), i);
		FILE *f = fopen(name, "wb"); if (f) { fwrite(b.data(), 1, b.size(), f); fclose(f); }
	}
}
void m_c08(Ctx &) {} // the cost monitor has its own coverage callback
void fuzzDone() { ctx.finish(); }
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
	C = &ctx; const char *t = getenv("VF_TARGET"), *o = getenv("VF_OUT"), *s = getenv("VF_SEEDS"), *sd = getenv("VF_FSEED");
	target = t ? t : "C01"; ctx.out = o ? o : "/tmp/vf_fuzz"; ctx.mode = "fuzz-" + target; ctx.seed = sd ? strtoull(sd, nullptr, 10) : 1;
	vf_ioplan.fail_read_at = vf_ioplan.fail_select_at = -1;
	if (target == "C01") kinds = {0, 1, 1, 2, 3, 4, 5};
	else if (target == "C19") kinds = {2};
	else if (target == "C05" || target == "C18") kinds = {1, 5, 5};
	else kinds = {0, 1, 1, 4};
	if (s) { mkdir(s, 0755); seeds(s, ctx.seed, 300); }
	if (!getenv("VF_STDERR") && !freopen("/dev/null", "w", stdout)) _exit(9);
	atexit(fuzzDone);
	return 0;
}
// ---- mutations that keep the structure: one leaf's content, or one subtree ----
struct Raw1 { size_t off, body, end; bool list; };
static bool walk(const Bytes &b, size_t &pos, std::vector<Raw1> &v, int depth) {
	if (pos >= b.size() || depth > 40) return false;
	size_t off = pos; unsigned char t = (unsigned char)b[pos]; if (t == 0) { pos++; return true; }
	uint64_t len = t & 15; int type = t & 0x70; int n = 1;
	while ((unsigned char)b[pos] & 0x80) { if (++pos >= b.size() || n > 6) return false; len = len << 4 | ((unsigned char)b[pos] & 15); n++; }
	pos++;
	if (type == 0x70) { size_t me = v.size(); v.push_back({off, pos, 0, true}); for (uint64_t i = 0; i < len; i++) if (!walk(b, pos, v, depth + 1)) { v[me].end = b.size(); return false; } v[me].end = pos; return true; }
	if (len < (uint64_t)n || len - (uint64_t)n > b.size() - pos) return false;
	v.push_back({off, pos, pos + (size_t)(len - (uint64_t)n), false}); pos += (size_t)(len - (uint64_t)n); return true;
}
extern "C" size_t LLVMFuzzerMutate(uint8_t *, size_t, size_t);
extern "C" size_t LLVMFuzzerCustomMutator(uint8_t *d, size_t n, size_t max, unsigned seed) {
	if (n < 3 || seed % 4 == 0) return LLVMFuzzerMutate(d, n, max);
	Rng r(seed); int k = d[0]; size_t hdr = k == 2 ? 3 : k == 4 ? 2 : 1; if (k == 3 || n <= hdr) return LLVMFuzzerMutate(d, n, max);
	Bytes b((char *)d + hdr, n - hdr); std::vector<Raw1> v; size_t pos = 0;
	if (k == 1 || k == 5 || k == 4) { if (!b.empty() && b[0] == 0x76) pos = 1; while (pos < b.size() && walk(b, pos, v, 0)) ; }
	else while (pos < b.size() && walk(b, pos, v, 0)) ;
	if (v.empty()) return LLVMFuzzerMutate(d, n, max);
	for (int q = r.range(1, 3); q > 0; q--) {
		const Raw1 &e = v[r.below(v.size())]; if (e.end > b.size() || e.end < e.off) continue;
		Bytes nw; int type = (unsigned char)b[e.off] & 0x70;
		if (e.list || r.one(5)) { const Raw1 &o = v[r.below(v.size())]; if (o.end <= b.size() && o.end > o.off) nw = b.substr(o.off, o.end - o.off); if (r.one(3)) nw = Bytes(1, 1); }
		else {
			uint8_t t[300]; size_t m = std::min<size_t>(e.end - e.body, 200); memcpy(t, b.data() + e.body, m); size_t cap = type ? 8 : std::min<size_t>(m + 24, 290);
			size_t z = m && m <= cap ? LLVMFuzzerMutate(t, m, cap) : (t[0] = (uint8_t)r.next(), 1);
			if (type == 0x40) z = 1;
			encTL(nw, type, z); nw.append((char *)t, z);
		}
		b.replace(e.off, e.end - e.off, nw); break;
	}
	if (b.size() + hdr > max) b.resize(max - hdr);
	memcpy(d + hdr, b.data(), b.size()); return b.size() + hdr;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
	if (n < 2) return 0;
	rawInput.assign((const char *)d, n);
	Ctx &c = ctx; int k = kinds[d[0] % kinds.size()]; for (int q : kinds) if (q == d[0]) k = q;
	Bytes b((const char *)d + 1, n - 1);
	int flags = target == "C01" ? P_NOCMP | P_NOMEM | P_PRINT | P_TOUCH | P_REWRITE : target == "C02" ? P_NOCMP | P_PRINT | P_TOUCH | P_REWRITE : 0;
	c.unit = c.evals; c.rng = Rng(hashBytes(b));
	switch (k) {
	case 0: c.eval(b); checkFile(b, flags); c.note("coverage-guided: files"); break;
	case 1: { Bytes f = sealMsg(b, (b.size() & 15) == 7); c.eval(f); checkFile(f, flags); c.note("coverage-guided: sealed messages"); break; }
	case 4: { size_t m = b.empty() ? 0 : (unsigned char)b[0]; Bytes f; if (b.size() > m + 1) f = sealMsg(b.substr(1, m)) + sealMsg(b.substr(m + 1), 1); else f = b; c.eval(f); checkFile(f, flags); c.note("coverage-guided: message pairs"); break; }
	case 2: { if (b.size() < 2) return 0; const ElP &e = elps()[(unsigned char)b[0] % elps().size()]; size_t st = (unsigned char)b[1] & 7; Bytes s = Bytes(st, 'z') + b.substr(2); c.eval(Bytes(e.name) + s); elemCheck(e, s, st, target != "C01", target == "C01"); c.note("coverage-guided: elements"); break; }
	case 3: { if (b.empty()) return 0; size_t cap = 8 + (unsigned char)b[0]; Bytes s = b.substr(1); c.eval(s); int fd = memfile(s); for (int q = 0; q < 20; q++) { unsigned char *u = (unsigned char *)malloc(cap); size_t m = lib([&] { return sml_transport_read(fd, u, cap); }); free(u); if (!m) break; } lseek(fd, 0, SEEK_SET); LIB(sml_transport_listen(fd, onF)); close(fd); c.note("coverage-guided: streams"); break; }
	default: { Bytes f = sealMsg(b); c.eval(f); writeAgain(f); c.note("coverage-guided: messages written"); }
	}
	return 0;
}
