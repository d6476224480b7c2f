// Byte streams with planted frames, noise and damage; shared by C09, C15 and C20.
#pragma once
#include "core.hpp"
#include <algorithm>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
#pragma GCC diagnostic ignored "-Wunused-function"

static const Bytes START("\x1b\x1b\x1b\x1b\x01\x01\x01\x01", 8), ESC("\x1b\x1b\x1b\x1b", 4);

struct Planted { size_t at, len; bool must; };
struct Stream { Bytes b; std::vector<Planted> fr; std::vector<std::pair<size_t, size_t>> zones; bool clean = true; };

// payload without four consecutive escape bytes (the escape mechanism is a recorded finding, see C10)
static Bytes noEsc(Rng &r, size_t n) {
	Bytes p;
	int style = (int)r.below(6);
	while (p.size() < n) {
		char ch;
		switch (style) {
		case 0: ch = (char)r.next(); break;
		case 1: ch = 0; break;
		case 2: ch = "\x1b\x1b\x1b\x01\x1a\x00"[r.below(6)]; break;
		case 3: ch = r.one(3) ? '\x1b' : '\x01'; break;
		case 4: ch = (char)(r.one(20) ? 0x1a : 0x76); break;
		default: ch = r.one(8) ? '\x1b' : (char)r.next();
		}
		if (ch == 0x1b && p.size() >= 3 && p.compare(p.size() - 3, 3, "\x1b\x1b\x1b") == 0) ch = 0x2b;
		p += ch;
	}
	return p;
}
static Bytes noiseOf(Rng &r) {
	Bytes p; int n = r.range(1, 5);
	if (r.one(4)) return r.bytes(r.below(60));
	for (int i = 0; i < n; i++) switch (r.below(9)) {
		case 0: p += Bytes((size_t)r.range(1, 9), '\x1b'); break;
		case 1: p += ESC + Bytes((size_t)r.range(1, 3), '\x01'); break;
		case 2: p += Bytes((size_t)r.range(1, 3), '\x1b') + Bytes((size_t)r.range(1, 5), '\x01'); break;
		case 3: p += ESC + "\x1a" + r.bytes(3); break;
		case 4: p += ESC + Bytes((size_t)r.range(1, 3), '\x01') + Bytes((size_t)r.range(1, 4), '\x1b'); break;
		case 5: p += Bytes((size_t)r.range(1, 40), (char)(r.one(2) ? 0 : 0xff)); break;
		case 6: p += r.bytes(r.below(20)); break;
		case 7: p += Bytes("\x76\x05\x01\x02", 4); break;
		default: p += Bytes((size_t)r.range(1, 5), '\x01');
	}
	return p;
}
static void addFrame(Rng &r, Stream &s, const Bytes &f, bool noise) {
	Bytes n = noise ? noiseOf(r) : "";
	size_t hit;
	while ((hit = (n + f).find(START)) != n.size()) n.erase(hit, 1 + r.below(8)); // no earlier complete start sequence
	s.b += n;
	s.fr.push_back({s.b.size(), f.size(), true});
	s.b += f;
}
static Bytes okFrame(Rng &r, size_t maxTotal) {
	size_t maxPay = maxTotal - 16;
	size_t n;
	switch (r.below(7)) {
	case 3: n = dictInt(r, maxPay); break;
	case 0: n = r.below(9); break;
	case 1: n = maxPay - r.below(std::min<size_t>(maxPay + 1, 9)); break;
	case 2: n = r.below(maxPay + 1); break;
	default: n = r.below(std::min<size_t>(maxPay + 1, 120));
	}
	if (r.one(3)) { Prof p; p.budget = 200; Bytes f = genFile(r, p, 2); if (f.size() <= maxPay && f.find(ESC) == Bytes::npos) return frame(f); }
	if (n > maxPay) n = maxPay;
	Bytes f = frame(noEsc(r, n));
	while (f.size() > maxTotal) f = frame(noEsc(r, n -= 4));
	return f;
}
// anything but an end mark and a doubled escape
static int unknownEscape(Rng &r) {
	int v = r.one(3) ? 0x1a ^ (1 << r.below(8)) : (int)r.below(256);
	return v == 0x1a || v == 0x1b ? 0x02 : v;
}
static void addDamaged(Rng &r, Stream &s, size_t cap) {
	Bytes f = okFrame(r, std::max<size_t>(40, std::min<size_t>(cap, 600))), n = r.one(2) ? noiseOf(r) : "";
	size_t at = s.b.size();
	bool over = false;
	switch (r.below(8)) {
	case 0: f.resize(8 + r.below(f.size() - 8)); break;                       // cut
	case 1: f = frame(noEsc(r, cap + r.below(200))); over = true; break;       // too long
	case 2: f.erase(8 + r.below(f.size() - 8), 1 + r.below(3)); break;        // bytes lost
	case 3: f.insert(8 + r.below(f.size() - 8), r.bytes(1 + r.below(3))); break;
	case 4: { size_t k = 8 + 4 * r.below((f.size() - 12) / 4); f.insert(k, ESC + Bytes(1, (char)unknownEscape(r)) + r.bytes(3)); break; } // unknown escape
	case 5: f[f.size() - 8 + r.below(5)] ^= (char)(1 << r.below(8)); break;   // end mark damaged
	case 6: f.resize(8); break;                                               // only a start
	default: f = START + START + f.substr(8); break;                          // two starts
	}
	(void)over;
	s.b += n; s.b += f;
	// the reader may be busy with the damaged part for one buffer length beyond any start sequence in it
	s.zones.push_back({at, s.b.size()});
	s.clean = false;
}
// frames beginning within one buffer length of a start sequence that belongs to no intact frame need not arrive
static void settle(Stream &s, size_t cap) {
	for (size_t p = s.b.find(START); p != Bytes::npos; p = s.b.find(START, p + 1)) {
		bool good = false, inside = false;
		for (auto &f : s.fr) { if (f.at == p) good = true; else if (p > f.at && p < f.at + f.len) inside = true; }
		if (good || inside) continue;
		for (auto &f : s.fr) if (f.at > p && f.at < p + cap) f.must = false;
	}
}
static int memfile(const Bytes &b) {
	int fd = memfd_create("s", 0);
	if (fd < 0 || ::write(fd, b.data(), b.size()) != (ssize_t)b.size() || lseek(fd, 0, SEEK_SET)) { fprintf(stderr, "memfd\n"); _exit(7); }
	return fd;
}
// the same file under another number: 0, and those around the sizes of sets and tables of descriptors
static int elsewhere(Rng &r, int fd) {
	static const int to[] = {0, 0, 3, 63, 64, 127, 128, 255, 256, 1023, 1024, 1025, 1999};
	static long lim = [] { rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); if (rl.rlim_cur < 2000) { rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 2000); setrlimit(RLIMIT_NOFILE, &rl); } getrlimit(RLIMIT_NOFILE, &rl); return (long)rl.rlim_cur; }();
	if (!r.one(4)) { if (fd) return fd; int d = fcntl(fd, F_DUPFD, 3); close(fd); return d; }
	if (!fd) C->note("descriptor 0");
	int n = to[r.below(13)];
	if (n >= lim || n == fd || (n && fcntl(n, F_GETFD) >= 0) || dup2(fd, n) != n) return fd;
	close(fd); C->note(n ? "other descriptor numbers" : "descriptor 0"); return n;
}
