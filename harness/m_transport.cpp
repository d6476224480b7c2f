// C09: reading frames from a byte stream.  C10: sending frames.
#include <pthread.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include "stream.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
#include <time.h>

struct RunOut { std::vector<Bytes> got; bool zeroBeforeEnd = false; long calls = 0; };
static std::vector<Bytes> *LG; static size_t LGmax;
static void onFrame(unsigned char *b, size_t n) { LG->push_back(Bytes((char *)b, n)); memset(b, "\x1b\x01\x00\xff"[LG->size() & 3], n); if (LG->size() > LGmax) C->fail("endless", "the listener reports frames without end"); }

static RunOut runReader(const Stream &s, int fd, size_t cap, bool seekable) {
	Ctx &c = *C; RunOut o;
	for (;;) {
		unsigned char *buf = (unsigned char *)malloc(cap + 32);
		memset(buf, 0xC7, cap + 32);
		// the caller's buffer ends where the block ends, so that the sanitizer sees the first byte beyond it
		unsigned char *b = buf + 32;
		size_t n = lib([&] { return sml_transport_read(fd, b, cap); });
		for (int i = 0; i < 32; i++) if (buf[i] != 0xC7) c.fail("buffer-underrun", "bytes before the caller's buffer were changed");
		if (n > cap) c.fail("length", "reported length " + std::to_string(n) + " exceeds the buffer of " + std::to_string(cap));
		if (n) o.got.push_back(Bytes((char *)b, n));
		free(buf);
		o.calls++;
		if (o.got.size() > s.fr.size() + s.b.size() / 8 + 2) c.fail("endless", "more frames reported than the stream can hold");
		if (n == 0) {
			if (!seekable) { char ch; ssize_t k = read(fd, &ch, 1); if (k <= 0) break; c.fail("zero-before-end", "no frame reported although the stream goes on"); }
			if (lseek(fd, 0, SEEK_CUR) >= (off_t)s.b.size()) break;
			o.zeroBeforeEnd = true;
			if (o.calls > (long)s.b.size() + 10) c.fail("no-progress", "the reader returns without consuming anything");
		}
	}
	return o;
}
// can got[j..q) be found as separate pieces of the stream, in this order, between from and to?
static bool placed(const Stream &s, const std::vector<Bytes> &got, size_t j, size_t q, size_t from, size_t to) {
	for (; j < q; j++) {
		if (got[j].size() < 16 || got[j].compare(0, 8, START) || got[j].compare(got[j].size() - 8, 5, ESC + "\x1a")) return false;
		size_t p = s.b.find(got[j], from);
		if (p == Bytes::npos || p + got[j].size() > to) return false;
		from = p + got[j].size();
	}
	return true;
}
static void judge(const Stream &s, const std::vector<Bytes> &got, size_t cap) {
	Ctx &c = *C;
	if (s.clean) {
		for (size_t k = 0; k < s.fr.size(); k++) {
			Bytes want = s.b.substr(s.fr[k].at, s.fr[k].len);
			if (k >= got.size()) c.fail("lost", "frame " + std::to_string(k) + " of " + std::to_string(want.size()) + " bytes at offset " + std::to_string(s.fr[k].at) + " was not reported (buffer " + std::to_string(cap) + ")");
			if (got[k] != want) c.fail("differs", "frame " + std::to_string(k) + " at offset " + std::to_string(s.fr[k].at) + ": expected " + std::to_string(want.size()) + " bytes " + clipHex(want, 60) + " got " + std::to_string(got[k].size()) + " bytes " + clipHex(got[k], 60));
			c.note("frames received");
		}
		if (s.fr.size() < got.size()) c.fail("extra", "something beyond the planted frames was reported: " + clipHex(got[s.fr.size()], 100));
		return;
	}
	// every report is a piece of the stream, in order; the frames that have to arrive are among them, at their places
	std::vector<size_t> reach(1, 0); size_t from = 0;
	for (size_t k = 0; k < s.fr.size(); k++) {
		if (!s.fr[k].must) continue;
		Bytes want = s.b.substr(s.fr[k].at, s.fr[k].len); std::vector<size_t> next; bool seen = false;
		for (size_t q = reach[0]; q < got.size(); q++) {
			if (got[q] != want) continue;
			seen = true;
			for (size_t j : reach) if (j <= q && placed(s, got, j, q, from, s.fr[k].at)) { next.push_back(q + 1); break; }
		}
		if (next.empty() && !seen) c.fail("lost-after-damage", "frame " + std::to_string(k) + " at offset " + std::to_string(s.fr[k].at) + " was not reported although it begins more than a buffer length (" + std::to_string(cap) + ") after the damage");
		if (next.empty()) c.fail("invented", "the reports before frame " + std::to_string(k) + " at offset " + std::to_string(s.fr[k].at) + " are no pieces of the stream in the order received");
		reach = next; from = s.fr[k].at + s.fr[k].len; c.note("frames received");
	}
	for (size_t j : reach) if (placed(s, got, j, got.size(), from, s.b.size())) { c.note("reports", (long)got.size()); return; }
	c.fail("invented", "the reports after the last intact frame are no pieces of the stream in the order received");
}
static void plan(Rng &r, int kind) {
	vf_ioplan = vf_io(); vf_ioplan.fail_read_at = vf_ioplan.fail_select_at = -1;
	vf_ioplan.rng = r.next();
	if (!kind) return;
	vf_ioplan.active = 1;
	if (kind & 1) vf_ioplan.short_reads = r.range(1, 4);
	if (kind & 2) vf_ioplan.eintr = r.range(2, 9);
	if (kind & 4) vf_ioplan.eagain = r.range(2, 9);
	if (kind & 8) vf_ioplan.select_eintr = r.range(2, 9);
}
static void planStats() {
	C->note("short reads injected", vf_ioplan.shorts); C->note("EINTR injected", vf_ioplan.eintrs); C->note("EAGAIN injected", vf_ioplan.eagains);
	vf_ioplan = vf_io(); vf_ioplan.fail_read_at = vf_ioplan.fail_select_at = -1;
}
struct Feeder { int fd; const Bytes *b; uint64_t seed; };
static void *feed(void *a) {
	Feeder *f = (Feeder *)a; Rng r(f->seed); size_t p = 0;
	while (p < f->b->size()) {
		size_t n = r.one(3) ? 1 : r.one(2) ? r.below(9) + 1 : r.below(200) + 1; if (n > f->b->size() - p) n = f->b->size() - p;
		ssize_t w = ::write(f->fd, f->b->data() + p, n); // vf_track is not consulted: vf_ioplan.active is off for the feeder's mode
		if (w > 0) p += (size_t)w;
		if (r.one(4)) usleep((useconds_t)r.below(300));
	}
	close(f->fd);
	return nullptr;
}
struct Idler { int fd; const Bytes *b; uint64_t seed; long slept; };
static void *trickle(void *a) { // few pieces, with long pauses
	Idler *f = (Idler *)a; Rng r(f->seed); size_t p = 0; f->slept = 0;
	for (int k = 0; k < 5; k++) { usleep(60000); f->slept += 60; size_t left = f->b->size() - p, n = k == 4 ? left : r.below(left / 2 + 1); if (n && ::write(f->fd, f->b->data() + p, n) != (ssize_t)n) _exit(7); p += n; }
	close(f->fd); return nullptr;
}
// live input: every piece is sent only when the library would wait for it; a frame whose last byte was sent has to be reported before that
struct Live { const Stream *s; int w; size_t sent = 0, reported = 0; std::vector<size_t> ends; Rng *r; };
static Live *LV;
static void liveMore(int) {
	Live &l = *LV; size_t due = 0; for (auto &f : l.s->fr) due += f.at + f.len <= l.sent;
	if (l.reported < due) C->fail("late", "frame " + std::to_string(l.reported) + " has arrived completely (" + std::to_string(l.sent) + " bytes sent) but is not reported before more input arrives");
	if (l.sent == l.s->b.size()) { if (l.w >= 0) close(l.w); l.w = -1; return; }
	size_t stop = l.s->b.size(); // never beyond the end of the next frame, so that nothing else can trigger the report
	for (auto &f : l.s->fr) if (f.at + f.len > l.sent) { stop = f.at + f.len; break; }
	size_t n = l.r->one(2) ? stop - l.sent : 1 + l.r->below(stop - l.sent);
	if (::write(l.w, l.s->b.data() + l.sent, n) != (ssize_t)n) _exit(7);
	l.sent += n; C->note("pieces sent on demand");
}
static void onLive(unsigned char *b, size_t n) { LG->push_back(Bytes((char *)b, n)); memset(b, "\x1b\x01\x00\xff"[LG->size() & 3], n); LV->reported++; if (LG->size() > LGmax) C->fail("endless", "the listener reports frames without end"); }
static void m_c09(Ctx &c) {
	Bytes m0 = c.mode;
	static const size_t caps[] = {17, 20, 24, 28, 33, 64, 100, 256, 512, 1000, 8096};
	c.units(c.cases, [&](long u) {
		Rng &r = c.rng; size_t cap = r.one(3) ? 20 + r.below(400) : caps[r.below(11)];
		size_t maxTotal = (cap - 1) & ~(size_t)3; if (maxTotal < 16) maxTotal = 16;
		if (r.one(3)) maxTotal = cap & ~(size_t)3;   // a frame may fill the buffer completely
		Stream s; int n = r.range(1, 6);
		for (int i = 0; i < n; i++) addFrame(r, s, okFrame(r, maxTotal), r.one(2));
		if (r.one(2)) { Bytes t = noiseOf(r); while (t.find(START) != Bytes::npos) t.erase(t.find(START), 3); s.b += t; }
		if (r.one(8)) { // an unfinished frame at the end
			Bytes f = okFrame(r, maxTotal); f.resize(8 + r.below(f.size() - 8)); s.b += f; c.note("unfinished frame at the end"); }
		c.eval(Bytes("cap ") + std::to_string(cap) + ":" + s.b);
		bool listen = cap == 8096 && r.one(2);
		int fd = elsewhere(r, memfile(s.b));
		int kind = (int)r.below(16); plan(r, kind);
		if (listen) {
			std::vector<Bytes> got; LG = &got; LGmax = s.fr.size() + 5;
			LIB(sml_transport_listen(fd, onFrame));
			planStats();
			judge(s, got, cap); c.note("listener runs");
		} else {
			RunOut o = runReader(s, fd, cap, true);
			planStats();
			judge(s, o.got, cap);
			if (o.zeroBeforeEnd && s.clean && s.b.size() == s.fr.back().at + s.fr.back().len) c.fail("zero-before-end", "the reader gave up although only intact frames and noise were sent");
		}
		close(fd); (void)u;
	});
	c.mode = m0 + "/lookalike"; // every lookalike prefix directly before a frame
	std::vector<Bytes> looks;
	for (int a = 0; a <= 9; a++) for (int b = 0; b <= 5; b++) for (int d = 0; d <= 5; d++) looks.push_back(Bytes((size_t)a, '\x1b') + Bytes((size_t)b, '\x01') + Bytes((size_t)d, '\x1b'));
	// a start sequence with one byte replaced, left out or added, and every short sequence of the bytes that matter
	for (size_t p = 0; p < 8; p++) { for (int v = 0; v < 256; v++) { Bytes l = START; l[p] = (char)v; if (l != START) looks.push_back(l); } Bytes l = START; l.erase(p, 1); looks.push_back(l); }
	for (size_t p = 0; p <= 8; p++) for (int v = 0; v < 256; v++) { Bytes l = START; l.insert(p, 1, (char)v); looks.push_back(l); }
	for (int n = 1, end = 3; n <= (c.thorough ? 9 : 7); n++, end *= 3) for (int k = 0; k < end; k++) { Bytes l; for (int q = 0, x = k; q < n; q++, x /= 3) l += "\x1b\x01\x02"[x % 3]; looks.push_back(l); }
	c.units((long)looks.size(), [&](long u) {
		Rng &r = c.rng; Stream s; const Bytes &l = looks[(size_t)u];
		for (int k = 0; k < 4; k++) {
			Bytes f = okFrame(r, 96);
			Bytes n = k == 2 ? l + l : l;
			if (k == 3) { n = looks[r.below(looks.size())] + l; if (r.one(2)) for (auto &ch : n) if (ch == 2) ch = (char)r.next(); }
			if ((n + f).find(START) != n.size()) continue;
			s.b += n; s.fr.push_back({s.b.size(), f.size(), true}); s.b += f;
		}
		if (s.fr.empty()) return;
		c.eval(s.b); c.note("start lookalikes");
		int fd = memfile(s.b); RunOut o = runReader(s, fd, 128, true); close(fd);
		judge(s, o.got, 128);
		std::vector<Bytes> got; LG = &got; LGmax = 20;
		fd = memfile(s.b); LIB(sml_transport_listen(fd, onFrame)); close(fd);
		judge(s, got, 8096);
	});
	c.mode = m0 + "/damage";
	c.units(c.cases, [&](long u) {
		Rng &r = c.rng; bool listen = r.one(4); size_t cap = listen ? 8096 : 40 + r.below(300);
		Stream s; int n = r.range(3, 12);
		for (int i = 0; i < n; i++) {
			if (r.one(3)) addDamaged(r, s, cap);
			else addFrame(r, s, okFrame(r, std::min<size_t>((cap - 1) & ~(size_t)3, 400)), r.one(3));
		}
		if (s.zones.empty()) addDamaged(r, s, cap);
		// enough intact traffic afterwards
		size_t end = s.b.size();
		while (s.b.size() < end + cap + 300) addFrame(r, s, okFrame(r, std::min<size_t>((cap - 1) & ~(size_t)3, 400)), r.one(3));
		s.clean = false;
		settle(s, cap);
		long must = 0; for (auto &f : s.fr) must += f.must;
		c.eval(Bytes("cap ") + std::to_string(cap) + ":" + s.b);
		c.note("frames that must survive damage", must);
		int fd = elsewhere(r, memfile(s.b)); int kind = (int)r.below(16); plan(r, kind);
		std::vector<Bytes> got;
		if (listen) { LG = &got; LGmax = s.b.size() / 8; LIB(sml_transport_listen(fd, onFrame)); c.note("listener runs"); }
		else got = runReader(s, fd, cap, true).got;
		planStats();
		judge(s, got, cap);
		close(fd); (void)u;
	});
	c.mode = m0 + "/runs";
	c.units(std::max(300L, c.cases / 6), [&](long u) { // much of the same in a row: damage of one kind, noise, or intact frames; then intact traffic
		Rng &r = c.rng; static const int ns[] = {2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 512, 1000, 1001, 1024};
		bool listen = u & 1; size_t cap = listen ? 8096 : 40 + r.below(80); int n = u < 5 ? 66000 : ns[r.below(38)], kind = u < 5 ? 10 + (int)(u & 1) : (int)r.below(13);
		Stream s; bool same = r.one(2); Bytes one = okFrame(r, 40);
		for (int i = 0; i < n && s.b.size() < 4000000; i++) {
			Bytes f = same ? one : okFrame(r, 40); size_t at = s.b.size();
			if (kind >= 10 || (kind == 9 && i % 2)) { if (kind == 11 && n < 2000) { addFrame(r, s, f, true); continue; } s.fr.push_back({at, f.size(), true}); s.b += f; continue; }
			switch (kind) {
			case 0: case 9: f.insert(8, ESC + Bytes(1, (char)unknownEscape(r)) + "\0\0\0"); break; // unknown escape
			case 1: f.resize(8); break;
			case 2: f = START + START; break;
			case 3: f.resize(8 + r.below(f.size() - 8)); break;
			case 4: if (n > 300) n = 300; f = START + noEsc(r, cap); break;                              // too long
			case 5: f = frame(""); break;
			case 6: f = ESC + "\x1a" + r.bytes(3); break;                                                // ends only
			case 7: f = Bytes((size_t)r.range(1, 9), (char)(same ? 0 : r.next())); break;
			default: f = ESC; break;
			}
			if (kind == 5) { s.fr.push_back({at, f.size(), true}); s.b += f; continue; }
			s.b += f; s.clean = false;
		}
		size_t end = s.b.size();
		if (!s.clean) while (s.b.size() < end + cap + 300) addFrame(r, s, okFrame(r, std::min<size_t>((cap - 1) & ~(size_t)3, 400)), r.one(3));
		else addFrame(r, s, okFrame(r, std::min<size_t>((cap - 1) & ~(size_t)3, 400)), false);
		if (!s.clean) settle(s, cap);
		c.eval(std::to_string(cap) + ":" + s.b); c.note("runs of the same");
		int fd = memfile(s.b); std::vector<Bytes> got;
		if (listen) { LG = &got; LGmax = s.b.size() / 8 + 5; LIB(sml_transport_listen(fd, onFrame)); }
		else got = runReader(s, fd, cap, true).got;
		close(fd); judge(s, got, cap);
	});
	c.mode = m0 + "/patience"; // any number of interruptions, and of moments without data, in a row
	c.units(std::max(160L, c.cases / 12), [&](long u) {
		Rng &r = c.rng; Stream s; int n = r.range(1, 4); size_t cap = u & 1 ? 8096 : 120; static const long ks[] = {50, 64, 99, 100, 101, 127, 128, 255, 256, 257, 500, 999, 1000, 1001, 1024, 3000, 5000, 10001, 32768, 65536, 70000, 100003};
		for (int i = 0; i < n; i++) addFrame(r, s, okFrame(r, 120), r.one(2));
		long k = r.one(3) ? 1 + (long)r.below(70) : ks[r.below(22)] + (long)r.below(2);
		c.eval(std::to_string(k) + ":" + s.b); c.note("long interruptions"); c.maxi("interruptions in a row", k);
		int fd = memfile(s.b); plan(r, 0); vf_ioplan.active = 1; vf_ioplan.burst = k; vf_ioplan.burst_at = 1 + (long)r.below(s.b.size());
		std::vector<Bytes> got;
		if (u & 1) { LG = &got; LGmax = 20; LIB(sml_transport_listen(fd, onFrame)); } else got = runReader(s, fd, cap, true).got;
		planStats(); close(fd); judge(s, got, cap);
	});
	c.mode = m0 + "/noise"; // much noise of one kind
	c.units(c.thorough ? 64 : 24, [&](long u) {
		Rng &r = c.rng; Stream s; size_t n = u < 8 ? 1200000 : 70000 + r.below(300000), cap = u & 1 ? 8096 : 200; addFrame(r, s, okFrame(r, 120), false);
		Bytes z; switch (u / 2 % 5) {
		case 0: z = Bytes(n, 'x'); break;
		case 1: z = Bytes(n, '\0'); break;
		case 2: z = Bytes(n, '\x01'); break;
		case 3: while (z.size() < n) z += r.bytes(4096); break;
		default: while (z.size() < n) z += noiseOf(r); }
		for (size_t p; (p = z.find(START)) != Bytes::npos;) z[p] = 'x';
		s.b += z; addFrame(r, s, okFrame(r, 120), false); settle(s, cap);
		c.eval(std::to_string(n) + ":" + s.b.substr(0, 4000)); c.note("long noise"); c.maxi("noise bytes in a row", (long)n);
		int fd = memfile(s.b); std::vector<Bytes> got;
		if (u & 1) { LG = &got; LGmax = 20; LIB(sml_transport_listen(fd, onFrame)); } else got = runReader(s, fd, cap, true).got;
		close(fd); judge(s, got, cap);
	});
	c.mode = m0 + "/ioerror";
	c.units(c.cases / 4, [&](long u) { // a persistent read error: ends, nothing invented
		Rng &r = c.rng; Stream s; int n = r.range(1, 4);
		for (int i = 0; i < n; i++) addFrame(r, s, okFrame(r, 200), r.one(2));
		c.eval(s.b); c.note("read errors");
		int fd = memfile(s.b); plan(r, 1 | (int)r.below(16)); vf_ioplan.fail_read_at = (long)r.below(60);
		std::vector<Bytes> got;
		if (u & 1) { LG = &got; LGmax = 50; LIB(sml_transport_listen(fd, onFrame)); }
		else for (int k = 0; k < 6; k++) { unsigned char *b = (unsigned char *)malloc(256); size_t m = lib([&] { return sml_transport_read(fd, b, 256); }); if (m) got.push_back(Bytes((char *)b, m)); free(b); }
		planStats(); close(fd);
		s.clean = false; for (auto &f : s.fr) f.must = false;
		judge(s, got, 256);
	});
	c.mode = m0 + "/pipe";
	c.units(std::max(16L, c.cases / 60), [&](long) { // a real pipe, fed piecemeal by another thread, sometimes non-blocking
		Rng &r = c.rng; Stream s; int n = r.range(2, 6); size_t cap = 40 + r.below(300);
		for (int i = 0; i < n; i++) addFrame(r, s, okFrame(r, (cap - 1) & ~(size_t)3), r.one(2));
		c.eval(s.b); c.note("pipe streams");
		int p[2]; if (pipe(p)) return;
		int at = p[0];
		if (r.one(3)) { // a descriptor number beyond FD_SETSIZE
			struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); if (rl.rlim_max > 2000) { rl.rlim_cur = 2000; setrlimit(RLIMIT_NOFILE, &rl); int d = fcntl(p[0], F_DUPFD, 1500); if (d >= 0) { close(p[0]); at = d; c.note("descriptor above 1024"); } }
		}
		if (r.one(2)) { fcntl(at, F_SETFL, O_NONBLOCK); c.note("non-blocking descriptors"); }
		Feeder f = {p[1], &s.b, r.next()};
		pthread_t t; pthread_create(&t, nullptr, feed, &f);
		std::vector<Bytes> got;
		for (;;) {
			unsigned char *b = (unsigned char *)malloc(cap); size_t m = sml_transport_read(at, b, cap);
			if (m) got.push_back(Bytes((char *)b, m));
			free(b);
			if (!m) break;
		}
		pthread_join(t, nullptr); close(at);
		judge(s, got, cap);
	});
	c.mode = m0 + "/live";
	c.units(std::max(200L, c.cases / 8), [&](long u) {
		Rng &r = c.rng; Stream s; int n = r.range(1, 6); size_t cap = u & 1 ? 8096 : 40 + r.below(300);
		for (int i = 0; i < n; i++) addFrame(r, s, okFrame(r, std::min<size_t>(cap & ~(size_t)3, 2000)), r.one(3));
		if (r.one(2)) { Bytes t = r.bytes(r.below(9)); if (t.find(ESC) == Bytes::npos) s.b += t; }
		c.eval(s.b); c.note("live streams");
		int p[2]; if (pipe(p)) return;
		if (r.one(2)) fcntl(p[0], F_SETFL, O_NONBLOCK);
		Live l; l.s = &s; l.w = p[1]; l.r = &r; LV = &l; plan(r, (int)r.below(16)); vf_ioplan.active = 1; vf_ioplan.on_empty = liveMore;
		std::vector<Bytes> got; LG = &got; LGmax = 20;
		if (u & 1) { LIB(sml_transport_listen(p[0], onLive)); c.note("live listener runs"); }
		else for (;;) {
			unsigned char *b = (unsigned char *)malloc(cap); size_t m = lib([&] { return sml_transport_read(p[0], b, cap); });
			if (m) { got.push_back(Bytes((char *)b, m)); l.reported++; }
			free(b);
			if (!m || got.size() > 20) break;
		}
		planStats(); close(p[0]); if (l.w >= 0) close(l.w);
		judge(s, got, cap);
	});
	c.mode = m0 + "/idle"; // waiting costs nothing
	c.units(32, [&](long u) {
		Rng &r = c.rng; Stream s; int n = r.range(1, 3);
		for (int i = 0; i < n; i++) addFrame(r, s, okFrame(r, 64), r.one(2));
		c.eval(s.b + std::to_string(u)); c.note("idle lines");
		int p[2]; if (pipe(p)) return;
		if (u % 4) fcntl(p[0], F_SETFL, O_NONBLOCK);
		Idler f = {p[1], &s.b, r.next()}; pthread_t t; pthread_create(&t, nullptr, trickle, &f);
		plan(r, 0); vf_ioplan.active = 1; timespec a, b; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &a);
		std::vector<Bytes> got; LG = &got; LGmax = 20;
		if (u & 1) sml_transport_listen(p[0], [](unsigned char *b, size_t n) { LG->push_back(Bytes((char *)b, n)); });
		else for (;;) { unsigned char *q = (unsigned char *)malloc(500); size_t m = sml_transport_read(p[0], q, 500); if (m) got.push_back(Bytes((char *)q, m)); free(q); if (!m || got.size() > 20) break; }
		clock_gettime(CLOCK_THREAD_CPUTIME_ID, &b); long calls = vf_ioplan.reads + vf_ioplan.selects; planStats();
		pthread_join(t, nullptr); close(p[0]);
		double ms = (double)(b.tv_sec - a.tv_sec) * 1e3 + (double)(b.tv_nsec - a.tv_nsec) / 1e6;
		if (calls > 8 * (long)s.b.size() + 2000 || ms > 120) c.fail("busy", "receiving " + std::to_string(s.b.size()) + " bytes with pauses of " + std::to_string(f.slept) + " ms altogether took " + std::to_string(calls) + " calls and " + std::to_string((long)ms) + " ms of processor time: the library does not wait, it asks all the time");
		judge(s, got, 500);
	});
	c.mode = m0 + "/big";
	c.units(48, [&](long u) { // frames far beyond the listener's buffer
		Rng &r = c.rng; static const size_t ns[] = {8080, 16384, 32760, 65528, 65536, 65544, 131072, 300000}; Stream s; size_t cap = 0;
		for (int i = r.range(1, 3); i > 0; i--) { size_t n = ns[(size_t)(u + i) % 8] + 4 * r.below(20); if (r.one(4)) n = dictInt(r, 200000); addFrame(r, s, frame(noEsc(r, n)), r.one(2)); if (r.one(2)) addFrame(r, s, okFrame(r, 200), r.one(2)); }
		for (auto &f : s.fr) cap = std::max(cap, f.len);
		if (r.one(2)) cap += r.below(100000);
		settle(s, cap);
		c.eval(s.b); c.note("frames beyond 8 KiB"); int fd = memfile(s.b); RunOut o = runReader(s, fd, cap, u & 1); close(fd); judge(s, o.got, cap);
	});
	c.mode = m0 + "/caps";
	c.units(64, [&](long u) { // every small buffer size, and very large ones
		Rng &r = c.rng; size_t cap = u < 60 ? (size_t)u : u == 60 ? 1u << 20 : u == 61 ? 64u << 20 : u == 62 ? 8u << 20 : 1u << 16;
		Stream s;
		for (int i = 0; i < 6; i++) { Bytes f = i & 1 ? okFrame(r, 16) : okFrame(r, cap > 24 && cap < 4000 ? (cap - 1) & ~(size_t)3 : 64); if (f.size() <= cap) addFrame(r, s, f, r.one(2)); else { s.b += f; s.clean = false; } }
		if (s.fr.empty()) s.clean = false;
		c.eval(std::to_string(cap) + ":" + s.b); c.note("buffer sizes");
		if (cap < 8) { // too small for any frame: a defined refusal, whatever is waiting
			int fd = memfile(s.b); unsigned char *b = (unsigned char *)malloc(cap ? cap : 1);
			size_t n = lib([&] { return sml_transport_read(fd, b, cap); }); free(b); close(fd);
			if (n) c.fail("tiny-buffer", "a frame was reported into a buffer of " + std::to_string(cap) + " bytes");
			return;
		}
		settle(s, cap);
		if (!s.clean) for (auto &f : s.fr) f.must = f.must && cap > 16;
		int fd = memfile(s.b); RunOut o = runReader(s, fd, cap, true); close(fd);
		judge(s, o.got, cap);
	});
	c.mode = m0;
}

// ---------- C10 ----------
// takes what is written into a pipe or socket; allocates nothing, as the allocator is being watched
struct Sink { int fd; size_t n; };
static unsigned char sunk[4 << 20];
static void *sink(void *p) { Sink *s = (Sink *)p; for (long k; s->n < sizeof sunk && (k = syscall(SYS_read, s->fd, sunk + s->n, sizeof sunk - s->n)) > 0;) s->n += (size_t)k; return nullptr; }
static void checkFrame(Ctx &c, sml_file *f, const std::vector<Bytes> &want, Rng &r, int wmode, bool expectKnown, long wk = -1) {
	struct rlimit rl = {}, old = {};
	int kind = wmode == 0 && r.one(3) ? 1 + (int)r.below(4) : 0, fd, ends[2] = {-1, -1}; Sink sk = {-1, 0}; pthread_t t; // what is written to: a file, a pipe, a socket, a file at its end, a device
	if (kind == 1 && pipe(ends)) kind = 0;
	if (kind == 2 && socketpair(AF_UNIX, SOCK_STREAM, 0, ends)) kind = 0;
	if (kind == 1 || kind == 2) { fd = ends[1]; sk.fd = ends[0]; pthread_create(&t, nullptr, sink, &sk); c.note(kind == 1 ? "sent into pipes" : "sent into sockets"); }
	else if (kind == 4) { fd = open("/dev/null", O_WRONLY); c.note("sent to a device"); }
	else { fd = elsewhere(r, memfd_create("w", 0)); if (kind == 3) { fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_APPEND); c.note("sent to the end of a file"); } }
	vf_ioplan = vf_io(); vf_ioplan.fail_read_at = vf_ioplan.fail_select_at = -1;
	vf_ioplan.active = 1; vf_ioplan.wmode = wmode; vf_ioplan.rng = r.next(); vf_ioplan.wk = wk >= 0 ? wk : (long)r.below(r.one(2) ? 40 : 400);
	if (wmode == 7) { // the system itself accepts no more than that
		vf_ioplan.wmode = 0; getrlimit(RLIMIT_FSIZE, &old); rl = old; rl.rlim_cur = (rlim_t)vf_ioplan.wk; setrlimit(RLIMIT_FSIZE, &rl); signal(SIGXFSZ, SIG_IGN); c.note("limits of the system");
	}
	long ret = lib([&] { return (long)sml_transport_write(fd, f); });
	if (wmode == 7) setrlimit(RLIMIT_FSIZE, &old);
	vf_ioplan = vf_io(); vf_ioplan.fail_read_at = vf_ioplan.fail_select_at = -1;
	Bytes out;
	if (kind == 4) { close(fd); if (ret < 16 || ret % 4) c.fail("return", std::to_string(ret) + " returned although the device accepted the whole frame"); return; }
	if (kind == 1 || kind == 2) { close(fd); pthread_join(t, nullptr); close(ends[0]); out.assign((char *)sunk, sk.n); fd = memfile(out); }
	else { off_t n = lseek(fd, 0, SEEK_END); out.resize((size_t)n); if (pread(fd, &out[0], (size_t)n, 0) != n) _exit(7); }
	bool faulty = wmode >= 1;
	c.note(faulty ? "sends with an injected fault" : "sends without fault");
	// what a complete frame looks like
	auto complete = [&](Bytes *why) {
		if (out.size() < 16) { *why = "frame of " + std::to_string(out.size()) + " bytes"; return false; }
		if (out.size() % 4) { *why = "frame length " + std::to_string(out.size()) + " is no multiple of four"; return false; }
		if (out.compare(0, 8, START)) { *why = "wrong start sequence"; return false; }
		if (out.compare(out.size() - 8, 5, ESC + "\x1a")) { *why = "wrong end sequence"; return false; }
		unsigned pad = (unsigned char)out[out.size() - 3];
		if (pad > 3) { *why = "padding count " + std::to_string(pad); return false; }
		uint16_t crc = crcX25(out, 0, out.size() - 2), has = (uint16_t)((unsigned char)out[out.size() - 2] << 8 | (unsigned char)out[out.size() - 1]);
		if (crc != has) { *why = "wrong checksum"; return false; }
		Bytes pay = out.substr(8, out.size() - 16);
		if (pay.size() < pad) { *why = "padding exceeds the payload"; return false; }
		for (unsigned k = 0; k < pad; k++) if (pay[pay.size() - 1 - k]) { *why = "padding is not zero"; return false; }
		pay.resize(pay.size() - pad);
		RefFile rf = refFile(pay, true);
		if (rf.stopped || rf.droppedCrc) { *why = "payload is not a sequence of intact messages: " + clipHex(pay, 200); return false; }
		if (rf.msgs.size() != want.size()) { *why = "payload has " + std::to_string(rf.msgs.size()) + " messages, " + std::to_string(want.size()) + " were sent"; return false; }
		for (size_t k = 0; k < want.size(); k++) if (rf.msgs[k].dump != want[k]) { *why = "message " + std::to_string(k) + ": sent " + want[k].substr(0, 300) + " frame holds " + rf.msgs[k].dump.substr(0, 300); return false; }
		size_t lastEnd = want.empty() ? 0 : rf.msgs.back().end;
		if (lastEnd != pay.size()) { *why = "padding count does not match the encoded length"; return false; }
		return true;
	};
	Bytes why; bool whole = complete(&why);
	if (!faulty) {
		if (!whole) c.fail("frame", why);
		if (ret != (long)out.size()) c.fail("return", "frame of " + std::to_string(out.size()) + " bytes accepted, but " + std::to_string(ret) + " returned");
		bool hasEsc = out.substr(8, out.size() - 16).find(ESC) != Bytes::npos;
		// and back
		lseek(fd, 0, SEEK_SET);
		unsigned char *b = (unsigned char *)malloc(out.size() + 8);
		size_t m = lib([&] { return sml_transport_read(fd, b, out.size() + 8); });
		if (m != out.size() || memcmp(b, out.data(), m)) {
			if (hasEsc) { c.known("transport-escape", "payload containing 1b1b1b1b is sent without the doubled escape sequence and cannot be received"); free(b); close(fd); c.note("known: escape in payload"); return; }
			c.fail("read-back", "the frame sent cannot be received");
		}
		sml_file *g = lib([&] { return sml_file_parse(b + 8, m - 16); });
		std::vector<Bytes> got = dumpFile(g, VD_ENC);
		LIB(sml_file_free(g)); free(b);
		if (got != want) c.fail("read-back", "the frame read back holds other messages");
		c.note("frames read back");
	} else if (whole && ret == (long)out.size()) c.note("fault survived, whole frame accepted");
	else {
		if (ret != 0) c.fail("return", "returned " + std::to_string(ret) + " although only " + std::to_string(out.size()) + " bytes were accepted and the frame is not complete (fault mode " + std::to_string(wmode) + ")");
		if (whole) c.fail("return", "returned 0 although the whole frame was accepted (fault mode " + std::to_string(wmode) + ")");
		c.note("faults reported");
	}
	(void)expectKnown;
	close(fd);
}
static std::vector<Bytes> wantOf(const sml_file *f) { return dumpFile(f, VD_ENC); }
static bool escFree(sml_file *f) {
	sml_buffer *b = f->buf; bool ok = true;
	f->buf = sml_buffer_init(1 << 20); sml_file_write(f);
	Bytes s((char *)f->buf->buffer, f->buf->cursor); ok = s.find(ESC) == Bytes::npos;
	sml_buffer_free(f->buf); f->buf = b;
	return ok;
}
static void m_c10(Ctx &c) {
	Bytes m0 = c.mode;
	c.units(c.cases, [&](long u) {
		Rng &r = c.rng; Prof p = randProf(r); p.stdWidth = true; p.zg22 = 0; p.budget = u % 40 == 7 ? 20000 : 600;
		if (u % 40 == 7) { p.hugeStr = 66000; }
		Gen g(r, p);
		sml_file *f; int n = u % 97 == 0 ? 0 : r.range(1, 4);
		Bytes src;
		if (r.one(3)) { // obtained by parsing
			for (int i = 0; i < n; i++) src += encMsg(genMsg(g));
			Exact e(src); f = lib([&] { return sml_file_parse(e.p, e.n); });
			c.note("parsed files sent");
		} else {
			f = lib([&] { return sml_file_init(); });
			for (int i = 0; i < n; i++) { Msg m = genMsg(g); lib([&] { sml_file_add_message(f, bMsg(m)); return 0; }); }
			c.note("built files sent");
		}
		if (!escFree(f)) { LIB(sml_file_free(f)); return; }
		int rounds = r.range(1, 4);
		for (int q = 0; q < rounds; q++) {
			std::vector<Bytes> want = wantOf(f); Bytes all; for (auto &w : want) all += w;
			int mode = r.one(2) ? 0 : r.range(1, 7);
			c.eval(std::to_string(mode) + all, !all.empty());
			checkFrame(c, f, want, r, mode, false);
			if (r.one(4)) { unsigned char fill = (unsigned char)(r.one(2) ? 0xff : r.next()); memset(f->buf->buffer, fill, f->buf->buffer_len); c.note("dirty buffers"); }
			if (r.one(3)) { Prof p2 = p; p2.budget = 200; Gen g2(r, p2); Msg m = genMsg(g2); lib([&] { sml_file_add_message(f, bMsg(m)); return 0; }); if (!escFree(f)) break; c.note("sent again with more messages"); }
		}
		LIB(sml_file_free(f));
	});
	c.mode = m0 + "/pad";
	c.units(64, [&](long u) { // every padding and frame length
		Rng &r = c.rng; sml_file *f = lib([&] { return sml_file_init(); });
		Msg m; m.tid = Oct(Bytes((size_t)(1 + u), 't')); m.gid = Uns(0, 1); m.abort = Uns(0, 1); m.body = List({Uns(0x201, 4), List({Abs()})});
		lib([&] { sml_file_add_message(f, bMsg(m)); return 0; });
		std::vector<Bytes> want = wantOf(f);
		for (int mode = 0; mode < 8; mode++) for (int k = 0; k < 8; k++) { c.eval("pad" + std::to_string(u) + "/" + std::to_string(mode * 8 + k)); checkFrame(c, f, want, r, mode, false); }
		LIB(sml_file_free(f));
	});
	c.mode = m0 + "/short";
	c.units(8, [&](long u) { // every possible accepted prefix
		Rng &r = c.rng; sml_file *f = lib([&] { return sml_file_init(); });
		Prof p; p.stdWidth = true; p.zg22 = 0; p.budget = 60; Gen g(r, p); Msg m = genMsg(g); lib([&] { sml_file_add_message(f, bMsg(m)); return 0; });
		std::vector<Bytes> want = wantOf(f);
		for (int mode : {1, 5, 6}) for (long k = 0; k < 700; k++) {
			int fd = memfd_create("w", 0);
			vf_ioplan = vf_io(); vf_ioplan.fail_read_at = vf_ioplan.fail_select_at = -1; vf_ioplan.active = 1; vf_ioplan.wmode = mode; vf_ioplan.wk = k;
			long ret = lib([&] { return (long)sml_transport_write(fd, f); });
			vf_ioplan = vf_io(); vf_ioplan.fail_read_at = vf_ioplan.fail_select_at = -1;
			long got = (long)lseek(fd, 0, SEEK_END); close(fd);
			static long full; if (mode == 1 && k == 0) { int g2 = memfd_create("w", 0); full = lib([&] { return (long)sml_transport_write(g2, f); }); close(g2); }
			c.eval("short" + std::to_string(u) + "/" + std::to_string(mode) + "/" + std::to_string(k)); c.note("accepted prefixes");
			if (got == full ? ret != full : ret != 0) c.fail("return", "returned " + std::to_string(ret) + " although " + std::to_string(got) + " of " + std::to_string(full) + " bytes were accepted");
			if (k > full + 8) break;
		}
		LIB(sml_file_free(f));
	});
	c.mode = m0 + "/big";
	c.units(std::max<long>(24, std::min<long>(c.cases / 100, 400)), [&](long u) { // frames larger than the usual sizes of pipes, pages and buffers
		Rng &r = c.rng; sml_file *f = lib([&] { return sml_file_init(); });
		static const size_t sz[] = {4096, 8192, 16384, 32768, 65536, 131072, 65536 * 3, 300000};
		size_t goal = u < 24 ? sz[u % 8] + (size_t)(u / 8) * 700 : r.one(2) ? r.pick(std::vector<size_t>(sz, sz + 8)) - 40 + r.below(80) : 3000 + r.below(400000), have = 0; bool one = r.one(3);
		while (have < goal) { size_t n = one ? goal : std::min<size_t>(goal - have, 200 + r.below(9000)); Msg m; m.tid = Oct("big"); m.gid = Uns(0, 1); m.abort = Uns(0, 1); Bytes b = r.bytes(n); for (auto &ch : b) if (ch == '\x1b') ch = 'x'; m.body = List({Uns(0x201, 4), List({Oct(b)})}); lib([&] { sml_file_add_message(f, bMsg(m)); return 0; }); have += n + 30; }
		if (!escFree(f)) { LIB(sml_file_free(f)); return; }
		std::vector<Bytes> want = wantOf(f); size_t total = 0; for (auto &w : want) total += w.size();
		checkFrame(c, f, want, r, 0, false); c.eval("big" + std::to_string(u) + "/" + std::to_string(total));
		std::vector<long> ks; for (long k = 512; k <= 524288; k *= 2) { ks.push_back(k); if (r.one(4)) ks.push_back(k - 1), ks.push_back(k + 1); } for (int i = 0; i < 4; i++) ks.push_back((long)r.below(goal + goal / 10));
		long full; { int g = memfd_create("w", 0); full = lib([&] { return (long)sml_transport_write(g, f); }); close(g); } for (long d : {-1L, -8L, -16L, -full / 2}) ks.push_back(full + d); // within the frame
		for (long d = 256; d < full; d *= 2) ks.push_back(full - d); // lengths that agree with the frame's in their lower bits
		for (long k : ks) { static const int modes[] = {1, 5, 6, 7}; int mode = modes[r.below(4)]; if (u < 8) for (int md : modes) { checkFrame(c, f, want, r, md, false, k); c.eval("big" + std::to_string(u) + "/" + std::to_string(md) + "/" + std::to_string(k)); } else { checkFrame(c, f, want, r, mode, false, k); c.eval("big" + std::to_string(u) + "/" + std::to_string(mode) + "/" + std::to_string(k)); } }
		c.note("large frames"); LIB(sml_file_free(f));
	});
	c.mode = m0 + "/escape";
	c.units(4, [&](long u) { // the recorded finding
		Rng &r = c.rng; sml_file *f = lib([&] { return sml_file_init(); });
		Bytes pay = Bytes((size_t)u, 'a') + Bytes(8, '\x1b') + "zzzz";
		Msg m; m.tid = Oct(pay); m.gid = Uns(0, 1); m.abort = Uns(0, 1); m.body = List({Uns(0x201, 4), List({Abs()})});
		lib([&] { sml_file_add_message(f, bMsg(m)); return 0; });
		c.eval("escape" + std::to_string(u));
		int fd = memfd_create("w", 0); LIB(sml_transport_write(fd, f)); lseek(fd, 0, SEEK_SET);
		unsigned char b[512]; size_t n = lib([&] { return sml_transport_read(fd, b, sizeof b); }); close(fd);
		bool ok = n > 16;
		if (ok) { sml_file *g = lib([&] { return sml_file_parse(b + 8, n - 16); }); ok = dumpFile(g, VD_ENC) == wantOf(f); LIB(sml_file_free(g)); }
		if (!ok) { c.known("transport-escape", "a message whose encoding contains 1b1b1b1b is sent without the doubled escape sequence and is not received again"); c.note("known: escape in payload"); }
		LIB(sml_file_free(f)); (void)r;
	});
	c.mode = m0;
}
const Mode modes_transport[] = {{"c09", m_c09}, {"c10", m_c10}, {nullptr, nullptr}};
