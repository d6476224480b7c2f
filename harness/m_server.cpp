// C15 / C20: the sml_server tool as a black box: bytes in, lines out.
#include "stream.hpp"
#include "units.hpp"
#include <cmath>
#include <cerrno>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <pthread.h>
#include <spawn.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <termios.h>
#include <time.h>
#include <stdlib.h>
extern char **environ;

struct Result { Bytes out; int status; bool timeout; };
struct Feed { int fd; const Bytes *b; uint64_t seed; };
static void *feedPipe(void *a) {
	Feed *f = (Feed *)a; Rng r(f->seed); size_t p = 0;
	while (p < f->b->size()) {
		size_t n = r.one(4) ? 1 : r.below(400) + 1; if (n > f->b->size() - p) n = f->b->size() - p;
		ssize_t w = ::write(f->fd, f->b->data() + p, n); if (w < 0) break; p += (size_t)w;
		if (r.one(6)) usleep((useconds_t)r.below(200));
	}
	close(f->fd);
	return nullptr;
}
enum Src { FILE_STDIN, PIPE_STDIN, FILE_PATH, TTY_PATH };
// a terminal line, as a meter's serial interface is one: opened by the tool itself, and set up by it
struct Tty { int m = -1; Bytes name; };
static bool openTty(Tty &t) {
	t.m = posix_openpt(O_RDWR | O_NOCTTY | O_CLOEXEC); if (t.m < 0) return false;
	char n[128]; if (grantpt(t.m) || unlockpt(t.m) || ptsname_r(t.m, n, sizeof n)) { close(t.m); return false; }
	t.name = n; fcntl(t.m, F_SETFL, O_NONBLOCK); return true;
}
// waits for `until` to appear in the output before it hangs up (for a terminal) or closes the pipe
static Result runLive(const Bytes &in, bool v, bool tty, const Bytes &until, bool &ran) {
	signal(SIGPIPE, SIG_IGN);
	const char *exe = getenv("VF_SERVER"); if (!exe) _exit(7);
	Tty t; int fin = -1, wr; ran = false;
	if (tty) { if (!openTty(t)) return Result(); wr = t.m; } else { int p[2]; if (pipe2(p, O_CLOEXEC)) _exit(7); fin = p[0]; wr = p[1]; fcntl(wr, F_SETFL, O_NONBLOCK); }
	ran = true;
	int fout = memfd_create("o", MFD_CLOEXEC), nul = open("/dev/null", O_RDWR | O_CLOEXEC);
	posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
	posix_spawn_file_actions_adddup2(&fa, tty ? nul : fin, 0); posix_spawn_file_actions_adddup2(&fa, fout, 1); posix_spawn_file_actions_adddup2(&fa, nul, 2);
	const char *av[6]; int n = 0; av[n++] = exe; if (v) av[n++] = "-v"; av[n++] = tty ? t.name.c_str() : "-"; av[n] = nullptr;
	pid_t pid; if (posix_spawn(&pid, exe, &fa, nullptr, (char **)av, environ)) { fprintf(stderr, "spawn %s\n", exe); _exit(7); }
	posix_spawn_file_actions_destroy(&fa); if (fin >= 0) close(fin); close(nul);
	Result r; r.timeout = false; r.status = -1; size_t at = 0; bool ready = !tty, dead = false; timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
	for (;;) {
		if (waitpid(pid, &r.status, WNOHANG) == pid) { dead = true; break; }
		timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1); if (t1.tv_sec - t0.tv_sec > 60) { r.timeout = true; break; }
		struct termios tc;
		if (!ready) { if (tcgetattr(t.m, &tc) == 0 && !(tc.c_lflag & ICANON)) ready = true; else { usleep(300); continue; } }
		if (at < in.size()) { size_t k = 1 + C->rng.below(C->rng.one(3) ? 1500 : 60); ssize_t w = ::write(wr, in.data() + at, std::min(k, in.size() - at)); if (w > 0) at += (size_t)w; else if (w < 0 && errno != EAGAIN && errno != EINTR) break; else usleep(200); continue; }
		struct stat st; if (fstat(fout, &st) == 0 && st.st_size) { Bytes o((size_t)std::min<off_t>(st.st_size, 4000), 0); ssize_t k = pread(fout, &o[0], o.size(), st.st_size - (off_t)o.size()); if (k > 0 && o.find(until) != Bytes::npos) break; }
		usleep(500);
	}
	close(wr);
	if (!dead) for (long ms = 0;; ms++) { if (r.timeout || ms > 40000) { kill(pid, SIGKILL); waitpid(pid, &r.status, 0); r.timeout = true; break; } if (waitpid(pid, &r.status, WNOHANG) == pid) break; usleep(1000); }
	off_t m = lseek(fout, 0, SEEK_END); r.out.resize((size_t)m); if (m && pread(fout, &r.out[0], (size_t)m, 0) != m) _exit(7); close(fout);
	if (r.timeout && r.out.find(until) == Bytes::npos) C->fail("late", Bytes("the readings of a frame that has arrived completely on a ") + (tty ? "terminal line" : "pipe") + " were not printed within 60 s while the line stayed open");
	return r;
}
static Result runServer(const Bytes &in, bool s, bool v, int src) {
	bool viaPipe = src == PIPE_STDIN;
	signal(SIGPIPE, SIG_IGN);
	const char *exe = getenv("VF_SERVER"); if (!exe) { fprintf(stderr, "VF_SERVER\n"); _exit(7); }
	int fin, wend = -1;
	Bytes path = C->out + ".stream";
	if (src == FILE_PATH) { int f = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600); if (f < 0 || ::write(f, in.data(), in.size()) != (ssize_t)in.size()) _exit(7); close(f); fin = open("/dev/null", O_RDONLY | O_CLOEXEC); }
	else if (viaPipe) { int p[2]; if (pipe2(p, O_CLOEXEC)) _exit(7); fin = p[0]; wend = p[1]; } else fin = memfile(in);
	int fout = memfd_create("o", MFD_CLOEXEC), nul = open("/dev/null", O_WRONLY | O_CLOEXEC);
	posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
	posix_spawn_file_actions_adddup2(&fa, fin, 0); posix_spawn_file_actions_adddup2(&fa, fout, 1); posix_spawn_file_actions_adddup2(&fa, nul, 2);
	const char *av[6]; int n = 0; av[n++] = exe; if (s) av[n++] = "-s"; if (v) av[n++] = "-v"; av[n++] = src == FILE_PATH ? path.c_str() : "-"; av[n] = nullptr;
	pid_t pid; if (posix_spawn(&pid, exe, &fa, nullptr, (char **)av, environ)) { fprintf(stderr, "spawn %s\n", exe); _exit(7); }
	posix_spawn_file_actions_destroy(&fa);
	close(fin); close(nul);
	pthread_t th; Feed fd = {wend, &in, C->rng.next()}; if (viaPipe) pthread_create(&th, nullptr, feedPipe, &fd);
	Result r; r.timeout = false; r.status = -1;
	for (long ms = 0;; ms++) {
		pid_t k = waitpid(pid, &r.status, WNOHANG);
		if (k == pid) break;
		if (ms > 60000) { kill(pid, SIGKILL); waitpid(pid, &r.status, 0); r.timeout = true; break; }
		usleep(ms < 50 ? 300 : 1000);
	}
	if (viaPipe) pthread_join(th, nullptr);
	off_t m = lseek(fout, 0, SEEK_END); r.out.resize((size_t)m); if (m && pread(fout, &r.out[0], (size_t)m, 0) != m) _exit(7); close(fout);
	if (src == FILE_PATH) unlink(path.c_str());
	return r;
}
static void ended(const Result &r) {
	if (r.timeout) C->fail("hang", "sml_server did not end within 60 s of the end of its input");
	if (WIFSIGNALED(r.status)) C->fail("crash", "sml_server was ended by signal " + std::to_string(WTERMSIG(r.status)));
	if (WEXITSTATUS(r.status) != 0) C->fail("exit", "sml_server ended with status " + std::to_string(WEXITSTATUS(r.status)));
}
static std::vector<Bytes> lines(const Bytes &o) { std::vector<Bytes> v; size_t s = 0, e; while ((e = o.find('\n', s)) != Bytes::npos) { v.push_back(o.substr(s, e - s)); s = e + 1; } if (s < o.size()) v.push_back(o.substr(s)); return v; }

struct Reading { Bytes obis; char kind; Bytes text; bool sig; uint64_t v; int nb; int scaler; Bytes unit; };
static Reading expectOf(const Node &e) {
	Reading r; char t[64]; const unsigned char *o = (const unsigned char *)e.c[0].s.data();
	snprintf(t, sizeof t, "%d-%d:%d.%d.%d*%d", o[0], o[1], o[2], o[3], o[4], o[5]); r.obis = t;
	const Node &val = e.c[5]; r.kind = val.k; r.sig = val.k == 'i'; r.v = val.v; r.nb = val.nb; r.scaler = 0;
	if (val.k == 'o') { size_t i = 0; while (i < val.s.size() && (unsigned char)val.s[i] > 0x20 && (unsigned char)val.s[i] < 0x7b) r.text += val.s[i++]; for (; i < val.s.size(); i++) { snprintf(t, sizeof t, "%02x ", (unsigned char)val.s[i]); r.text += t; } }
	if (val.k == 'b') r.text = val.v ? "true" : "false";
	if (e.c[4].k == 'i') r.scaler = (int)(int8_t)e.c[4].v;
	if (e.c[3].k == 'u') for (auto &u : UNITS) if (u.code == (int)(uint8_t)e.c[3].v) r.unit = u.name;
	return r;
}
// empty: the line is what it should be
static Bytes lineDiffers(const Reading &r, const Bytes &line) {
	if (line.compare(0, r.obis.size(), r.obis) || line.size() <= r.obis.size() || line[r.obis.size()] != '#') return "OBIS number " + r.obis;
	Bytes rest = line.substr(r.obis.size() + 1); size_t h = rest.rfind('#');
	if (r.kind == 'o' || r.kind == 'b') {
		if (r.kind == 'b' && r.text == "false" && rest == "true#") { // recorded finding, see known-findings.txt
			C->known("server-boolean", "a boolean reading with the value false is printed as true"); C->note("known: false printed as true"); return "";
		}
		if (rest != r.text + "#") return r.kind == 'b' ? "boolean " + r.text : "text \"" + r.text + "\"";
		return "";
	}
	h = rest.find('#'); if (h == Bytes::npos) return "a number followed by #";
	Bytes num = rest.substr(0, h), unit = rest.substr(h + 1);
	if (unit != r.unit) return "unit \"" + r.unit + "\"";
	int prec = r.scaler < 0 ? -r.scaler : 0; size_t dot = num.find('.');
	size_t dec = dot == Bytes::npos ? 0 : num.size() - dot - 1;
	if ((int)dec != prec) return std::to_string(prec) + " decimals";
	for (size_t i = 0; i < num.size(); i++) if (!(isdigit((unsigned char)num[i]) || (i == 0 && num[i] == '-') || i == dot)) return "a decimal number";
	long double exact = (r.sig ? (long double)(int64_t)r.v : (long double)r.v) * powl(10.0L, r.scaler), got = strtold(num.c_str(), nullptr);
	long double tol = fabsl(exact) * 4e-15L + 0.5L * powl(10.0L, -prec) * (prec ? 0.02L : 1.0L); // an integer over a power of ten needs no rounding
	if (prec == 0) tol = fabsl(exact) * 4e-15L + 1e-9L;
	if (fabsl(got - exact) > tol) { char t[80]; snprintf(t, sizeof t, "the value %.12Lg", exact); return t; }
	if (exact < 0 ? num[0] != '-' : num[0] == '-') return "the right sign";
	return "";
}
static Node reading(Rng &r, uint64_t unique, bool plain) {
	Bytes name = r.one(3) ? Bytes("\x01\x00\x01\x08\x00\xff", 6) : r.bytes(6);
	if (r.one(8)) name = Bytes("\x01\x00\x10\x07\x00\xff", 6);
	Node unit = r.pct(25) ? Abs() : Uns(r.one(3) ? r.below(256) : r.one(2) ? 27 : 30, 1);
	static const int sc[] = {-4, -3, -2, -1, 0, 1, 2, 3};
	Node scaler = r.pct(25) ? Abs() : Int(r.one(6) ? (int64_t)(int8_t)r.next() : sc[r.below(8)], 1);
	Prof p; p.absent = 20; p.bigStr = 0; Gen g(r, p);
	Node val;
	if (plain) { val = Uns(unique, 8); }
	else switch (r.below(7)) {
		case 0: { Bytes s = r.bytes(1 + r.below(24)); if (r.one(2)) for (auto &ch : s) ch = (char)r.range(0x1f, 0x7d); val = Oct(s); break; }
		case 1: { Bytes s = r.bytes(1 + r.below(40)); val = Oct(s); break; }
		case 2: val = Bool((uint8_t)(r.one(2) ? 0 : r.one(2) ? 1 : 0xff)); break;
		case 3: case 4: val = g.num('i', 8); break;
		case 5: val = g.num('u', 8); break;
		default: val = r.one(8) ? Abs() : Uns(r.below(100000000), r.range(4, 8));
	}
	return List({Oct(name), g.optional(tStatus), g.optional(tTime), unit, scaler, val, r.one(6) ? Oct(r.bytes(1 + r.below(30))) : Abs()});
}
struct SFile { Bytes frame; std::vector<Reading> rd; std::vector<uint32_t> tags; std::vector<size_t> perList; };
// a well-formed frame; `unique` numbers the readings
static SFile goodFrame(Rng &r, uint64_t &unique, bool plain) {
	for (;;) {
		SFile f; Bytes pay; Prof p; p.budget = 150; Gen g(r, p); int n = r.range(1, 4);
		auto add = [&](Msg m) { m.crcMode = r.one(6) ? 1 : 0; pay += encMsg(m); f.tags.push_back((uint32_t)m.body.c[0].v); };
		if (r.one(2)) add(genMsg(g, 1));
		for (int i = 0; i < n; i++) {
			if (r.one(4)) { int sp; do sp = (int)r.below(specs().size()); while (specs()[(size_t)sp].tag == 0x701); add(genMsg(g, sp)); continue; }
			Msg m = genMsg(g, 12); Node L = List(); int k = r.one(20) ? r.range(14, 60) : r.range(1, 8); size_t got = 0;
			for (int j = 0; j < k; j++) { Node e = reading(r, unique, plain); unique++; if (e.c[5].k != 'a') { f.rd.push_back(expectOf(e)); got++; } L.c.push_back(e); }
			m.body.c[1].c[4] = L; add(m); f.perList.push_back(got);
		}
		if (r.one(2)) add(genMsg(g, 3));
		f.frame = frame(pay);
		if (pay.find(ESC) != Bytes::npos || f.frame.size() > 8096 || f.frame.find(ESC, 4) != f.frame.size() - 8) continue;
		return f;
	}
}
static void judgePrint(Ctx &c, const std::vector<SFile> &fs, const Result &res, bool sf, bool vf) {
	std::vector<Bytes> ls = lines(res.out); size_t at = 0;
	bool stopped = false;
	for (size_t i = 0; i < fs.size() && !stopped; i++) {
		if (vf) {
			Bytes head = at < ls.size() ? ls[at++] : "(nothing)", want = "(" + std::to_string(fs[i].tags.size()) + " SML messages";
			if (head.find(want) == Bytes::npos) c.fail("verbose", "file " + std::to_string(i) + ": expected a line reporting " + std::to_string(fs[i].tags.size()) + " messages, got \"" + head + "\"");
			for (uint32_t t : fs[i].tags) { char x[16]; snprintf(x, sizeof x, " %X", t); Bytes l = at < ls.size() ? ls[at++] : "(nothing)"; if (l.find(x) == Bytes::npos) c.fail("verbose", "file " + std::to_string(i) + ": expected a line reporting message" + x + ", got \"" + l + "\""); }
			if (at < ls.size() && ls[at].find('#') == Bytes::npos) at++; // the headline of the readings
			c.note("files reported with -v");
		}
		size_t k = 0, list = 0;
		for (size_t j = 0; j < fs[i].rd.size() || (sf && list < fs[i].perList.size()); ) {
			if (sf && list < fs[i].perList.size() && k == fs[i].perList[list]) { stopped = true; break; }
			if (j >= fs[i].rd.size()) break;
			if (at >= ls.size()) c.fail("missing", "reading " + std::to_string(j) + " of frame " + std::to_string(i) + " (" + fs[i].rd[j].obis + ") was not printed");
			Bytes d = lineDiffers(fs[i].rd[j], ls[at]);
			if (!d.empty()) c.fail("line", "reading " + std::to_string(j) + " of frame " + std::to_string(i) + ": printed \"" + ls[at].substr(0, 300) + "\", expected " + d);
			c.note(fs[i].rd[j].kind == 'o' ? "octet string readings" : fs[i].rd[j].kind == 'b' ? "boolean readings" : "number readings");
			at++; j++; k++;
		}
		if (sf && !fs[i].perList.empty()) stopped = true;
		if (stopped) c.note("runs with -s");
	}
	if (at < ls.size()) c.fail("extra", "unexpected line \"" + ls[at].substr(0, 300) + "\"");
}
// every length of an octet string, printable to a different extent, up to what fits into a frame
static void stringLengths(Ctx &c) {
	Bytes m0 = c.mode; c.mode += "/strings";
	c.units(96, [&](long u) {
		Rng &r = c.rng; Bytes all; std::vector<Reading> want; std::vector<Node> L; size_t room = 0;
		auto flush = [&] {
			if (L.empty()) return;
			Msg m; m.tid = Oct("t"); m.gid = Uns(0, 1); m.abort = Uns(0, 1); m.body = List({Uns(0x701, 2), List({Abs(), Abs(), Abs(), Abs(), List(L), Abs(), Abs()})});
			Bytes f = frame(encMsg(m)); if (f.find(ESC, 4) == f.size() - 8) { for (auto &e : L) want.push_back(expectOf(e)); all += f; }
			L.clear(); room = 0;
		};
		std::vector<size_t> ns; for (size_t n = 1 + (size_t)u; n < 1600; n += 96) ns.push_back(n);
		for (int k = 0; k < 4; k++) ns.push_back(k == 0 ? 7800 - r.below(200) : k == 1 ? 1600 + r.below(6000) : k == 2 ? 4096 - 8 + r.below(16) : 1 + dictInt(r, 7500));
		for (size_t n : ns) for (int how = 0; how < (n < 1600 ? 3 : 1); how++) {
			Bytes t = r.bytes(n); size_t plain = how == 0 ? (r.one(2) ? n : r.below(n + 1)) : how == 1 ? n : 0; for (size_t i = 0; i < plain; i++) t[i] = (char)(0x21 + r.below(0x5a));
			if (room + n + 40 > 7950) flush();
			L.push_back(List({Oct(Bytes("\x01\x00\x00\x00\x09\xff", 6)), Abs(), Abs(), Abs(), Abs(), Oct(t), Abs()})); room += n + 40; c.note("string lengths printed");
		}
		flush();
		c.eval(all); Result res = runServer(all, false, false, FILE_STDIN); ended(res);
		std::vector<Bytes> ls = lines(res.out);
		for (size_t i = 0; i < want.size(); i++) {
			if (i >= ls.size()) c.fail("missing", "a reading was not printed");
			Bytes d = lineDiffers(want[i], ls[i]); if (!d.empty()) c.fail("line", "printed \"" + ls[i].substr(0, 300) + "\", expected " + d);
		}
		if (ls.size() != want.size()) c.fail("extra", "unexpected lines");
	});
	c.mode = m0;
}
void m_c15(Ctx &c) {
	Bytes m0 = c.mode;
	c.units(c.cases, [&](long u) {
		Rng &r = c.rng; Stream s; std::vector<SFile> fs; uint64_t uq = 1 + r.below(1000); int n = r.range(1, 12);
		bool sf = u % 4 == 1, vf = u % 4 == 2 || u % 8 == 5;
		for (int i = 0; i < n; i++) { fs.push_back(goodFrame(r, uq, false)); addFrame(r, s, fs.back().frame, r.one(4)); }
		if (r.one(4)) { Bytes t = noiseOf(r); if (t.find(START) == Bytes::npos) s.b += t; }
		c.eval(s.b); c.note("frames", n);
		int src = r.one(6) ? PIPE_STDIN : r.one(6) ? FILE_PATH : FILE_STDIN; if (src == FILE_PATH) c.note("files given by name");
		Result res = runServer(s.b, sf, vf, src);
		ended(res);
		judgePrint(c, fs, res, sf, vf);
	});
	c.mode = m0 + "/live"; // a terminal line or a pipe that stays open: what has arrived is printed without waiting for more
	c.units(std::max(24L, c.cases / 12), [&](long u) {
		Rng &r = c.rng; Stream s; std::vector<SFile> fs; uint64_t uq = 1 + r.below(1000); int n = r.range(0, 5); bool tty = u & 1, vf = r.one(4), ran;
		for (int i = 0; i < n; i++) { fs.push_back(goodFrame(r, uq, false)); addFrame(r, s, fs.back().frame, r.one(3)); }
		{ // the last frame ends with a number, whose line is the sign that everything has been printed
			Node e = List({Oct(Bytes("\x01\x00\x63\x63\x63\xff", 6)), Abs(), Abs(), Abs(), Abs(), Uns(987654321000ull + (uint64_t)u, 8), Abs()});
			Msg m; m.tid = Oct("t"); m.gid = Uns(0, 1); m.abort = Uns(0, 1); m.body = List({Uns(0x701, 2), List({Abs(), Abs(), Abs(), Abs(), List({e}), Abs(), Abs()})});
			SFile f; f.rd.push_back(expectOf(e)); f.tags = {0x701}; f.perList = {1}; f.frame = frame(encMsg(m)); if (f.frame.find(ESC, 4) != f.frame.size() - 8) return; fs.push_back(f); addFrame(r, s, f.frame, r.one(3));
		}
		c.eval(s.b); Result res = runLive(s.b, vf, tty, "#" + std::to_string(987654321000ull + (uint64_t)u) + "#", ran);
		if (!ran) { c.note("no terminal to be had"); return; }
		ended(res); judgePrint(c, fs, res, false, vf); c.note(tty ? "terminal lines" : "open pipes");
	});
	c.mode = m0; stringLengths(c);
	c.mode = m0 + "/args"; // what cannot be opened or understood is reported by the exit status, and nothing is printed as a reading
	c.units(8, [&](long u) {
		static const char *bad[8][3] = {{"/nonexistent/device"}, {"-s", "/nonexistent/device"}, {"-x", "-"}, {nullptr}, {"-", "-"}, {"-v", "/"}, {"-h"}, {"-s", "-h"}};
		const char *exe = getenv("VF_SERVER"); int fo = memfd_create("o", MFD_CLOEXEC), in = memfile(START), nul = open("/dev/null", O_RDWR | O_CLOEXEC);
		posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_adddup2(&fa, in, 0); posix_spawn_file_actions_adddup2(&fa, fo, 1); posix_spawn_file_actions_adddup2(&fa, nul, 2);
		const char *av[6]; int n = 0; av[n++] = exe; for (auto *a : bad[u]) if (a) av[n++] = a; av[n] = nullptr;
		pid_t pid; int st = 0; if (posix_spawn(&pid, exe, &fa, nullptr, (char **)av, environ)) _exit(7);
		posix_spawn_file_actions_destroy(&fa); waitpid(pid, &st, 0); Bytes o((size_t)lseek(fo, 0, SEEK_END), 0); if (pread(fo, &o[0], o.size(), 0) < 0) _exit(7); close(fo); close(in); close(nul);
		c.eval(Bytes("arguments ") + std::to_string(u)); c.note("arguments");
		if (!WIFEXITED(st)) c.fail("crash", "sml_server was ended by a signal");
		if ((WEXITSTATUS(st) == 0) != (u >= 6)) c.fail("exit", "sml_server ended with status " + std::to_string(WEXITSTATUS(st)) + (u >= 6 ? " when asked for help" : " although there is nothing it could read"));
		if (o.find('#') != Bytes::npos) c.fail("extra", "a reading was printed without input");
	});
	c.mode = m0 + "/table"; // every unit code and every scaler
	c.units(8, [&](long u) {
		Rng &r = c.rng; Bytes all; std::vector<Reading> want;
		for (int k = (int)u; k < 256; k += 8) {
			Node L = List();
			for (int q = 0; q < 12; q++) {
				uint64_t v = q == 0 ? 0 : q == 1 ? 1 : q < 4 ? r.below(1000) : q < 8 ? r.below(10000000000ull) : r.next(); bool sig = q & 1; if (sig && r.one(2)) v = 0 - v;
				L.c.push_back(List({Oct(r.bytes(6)), Abs(), Abs(), Uns((uint64_t)(q & 2 ? k : (int)r.below(256)), 1), Int(q & 2 ? (int64_t)r.range(-4, 3) : (int64_t)(int8_t)k, 1), sig ? Int((int64_t)v, 8) : Uns(v, 8), Abs()}));
				want.push_back(expectOf(L.c.back()));
			}
			Msg m; m.tid = Oct("t"); m.gid = Uns(0, 1); m.abort = Uns(0, 1); m.body = List({Uns(0x701, 2), List({Abs(), Abs(), Abs(), Abs(), L, Abs(), Abs()})});
			Bytes p = encMsg(m); Bytes f = frame(p); if (f.find(ESC, 4) != f.size() - 8) { want.resize(want.size() - 12); continue; }
			all += f;
		}
		c.eval(all); Result res = runServer(all, false, false, FILE_STDIN); ended(res);
		std::vector<Bytes> ls = lines(res.out);
		for (size_t i = 0; i < want.size(); i++) {
			if (i >= ls.size()) c.fail("missing", "a reading was not printed");
			Bytes d = lineDiffers(want[i], ls[i]); if (!d.empty()) c.fail("line", "printed \"" + ls[i].substr(0, 300) + "\", expected " + d);
			c.note("units and scalers");
		}
		if (ls.size() != want.size()) c.fail("extra", "unexpected lines");
	});
	c.mode = m0;
}
// does any frame that could be found in the stream hold a list entry sml_server is known not to survive?
static void triggers(const Bytes &b, bool &name, bool &empty) {
	name = empty = false;
	for (size_t p = b.find(START); p != Bytes::npos; p = b.find(START, p + 1)) {
		RefFile f = refFile(b.substr(p + 8, 8200)); name |= f.srvName; empty |= f.srvEmpty;
	}
}
// frames whose messages are intact but unusual
static Bytes oddFrameAny(Rng &r) {
	for (;;) {
		Bytes pay; int n = r.range(1, 3);
		for (int i = 0; i < n; i++) {
			Prof p = randProf(r); p.budget = 400; Gen g(r, p);
			Msg m = genMsg(g, r.one(4) ? -1 : 12);
			if (m.body.c[0].v == 0x701) {
				Node L = List(); int k = r.range(0, 5);
				for (int j = 0; j < k; j++) {
					Node e = r.one(2) ? reading(r, r.next(), false) : g.listEntry();
					switch (r.below(12)) {
					case 0: case 1: e.c[0] = Abs(); break;
					case 2: case 3: e.c[0] = Oct(r.bytes(1 + r.below(5))); break;
					case 4: e.c[0] = Oct(r.bytes(7 + r.below(30))); break;
					case 5: e.c[5] = Raw(Bytes("\x80\x02", 2)); break;     // an empty string in long form
					case 6: e.c[0] = Raw(Bytes("\x80\x02", 2)); break;
					case 7: e.c[5] = Abs(); break;
					case 8: e.c[5] = Oct(r.bytes(r.range(200, 700))); break;
					case 9: e.c[5] = Raw(Bytes(1, (char)(0x51 + r.below(2) * 16))); break; // a number without bytes
					case 10: e.c[5] = Bool((uint8_t)r.next()); e.c[0] = r.one(2) ? Abs() : e.c[0]; break;
					default: e.c[4] = Int(r.one(2) ? -128 : 127, 1); e.c[5] = Int(r.one(2) ? INT64_MIN : INT64_MAX, 8);
					}
					L.c.push_back(e);
				}
				m.body.c[1].c[4] = r.one(10) ? Abs() : L;
			}
			std::vector<Elem> el; Bytes h = encMsgHead(m, &el);
			if (r.one(3)) h = mutateHead(r, h, el);
			pay += sealMsg(h, r.one(8) ? 2 : r.one(4) ? 1 : 0);
		}
		if (r.one(6)) pay = havoc(r, pay, r.range(1, 5));
		if (r.one(20)) pay = r.bytes(r.below(200));
		Bytes f = frame(pay);
		if (f.size() < 8096 && f.find(ESC, 4) == f.size() - 8) return f;
	}
}
static Bytes oddFrame(Rng &r) { for (;;) { Bytes f = oddFrameAny(r); bool n, e; triggers(f, n, e); if (!n && !e) return f; } }
// the two recorded findings, each provoked alone: any other way to fail is reported under its own name
static void knownCrashes(Ctx &c) {
	c.units(c.cases / 8, [&](long u) {
		Rng &r = c.rng; uint64_t uq = 1; Bytes b = goodFrame(r, uq, true).frame;
		Node e = reading(r, 7, true); bool empty = u % 3 == 2;
		if (empty) { e.c[0] = Oct(r.bytes(6)); e.c[5] = Raw(Bytes("\x80\x02", 2)); }
		else if (u % 3 == 0) e.c[0] = Abs(); else e.c[0] = Oct(r.bytes(1 + r.below(5)));
		if (!empty && r.one(2)) e.c[5] = r.one(2) ? Bool(1) : Oct(r.bytes(4));
		Msg m; m.tid = Oct("t"); m.gid = Uns(0, 1); m.abort = Uns(0, 1); m.body = List({Uns(0x701, 2), List({Abs(), Abs(), Abs(), Abs(), List({e}), Abs(), Abs()})});
		b += frame(encMsg(m)); b += goodFrame(r, uq, true).frame;
		bool n, em; triggers(b, n, em); if (n == empty || em != empty) C->fail("harness", "the reference does not see the provoked entry");
		c.eval(b);
		Result res = runServer(b, false, r.one(3), FILE_STDIN);
		bool bad = res.timeout || !WIFEXITED(res.status) || WEXITSTATUS(res.status) != 0;
		if (empty) bad |= res.out.find("#(null)#") != Bytes::npos;
		if (res.timeout) ended(res);
		if (bad && empty) c.known("server-empty-string", "sml_server frees an uninitialised pointer when the value of a reading is an empty octet string");
		else if (bad) c.known("server-obis-name", "sml_server reads beyond an OBIS number that is absent or shorter than six bytes");
		c.note(bad ? "known: entries not survived" : "entries survived");
	});
}
void m_c20(Ctx &c) {
	Bytes m00 = c.mode; c.mode += "/known"; knownCrashes(c); c.mode = m00; stringLengths(c);
	c.units(c.cases, [&](long) {
		Rng &r = c.rng; Stream s; uint64_t uq = 1000000000000ull * (1 + r.below(1000)); int n = r.range(3, 14);
		std::vector<SFile> fs; std::vector<size_t> frOf; bool damage = r.one(2);
		for (int i = 0; i < n; i++) switch (r.below(6)) {
			case 0: case 1: { Bytes f = oddFrame(r); addFrame(r, s, f, r.one(3)); c.note("odd frames"); break; }
			case 2: if (damage) { for (int q = r.one(4) ? r.range(2, 150) : 1; q > 0 && s.b.size() < 300000; q--) { addDamaged(r, s, 8096); c.note("damaged frames"); } } else s.b += Bytes((size_t)r.range(1, 9), '\x1b'); break;
			case 3: if (damage) { Bytes q = r.bytes(r.below(300)); s.b += r.one(2) ? q : havoc(r, oddFrame(r), 4); } else { Bytes t = noiseOf(r); if ((t + ESC + "\x01\x01\x01\x01").find(START) == t.size()) s.b += t; } break;
			default: fs.push_back(goodFrame(r, uq, true)); addFrame(r, s, fs.back().frame, r.one(3)); frOf.push_back(s.fr.size() - 1);
		}
		if (damage) { size_t end = s.b.size(); while (s.b.size() < end + 9000) { SFile f = goodFrame(r, uq, true); fs.push_back(f); addFrame(r, s, f.frame, r.one(4)); frOf.push_back(s.fr.size() - 1); } }
		else { fs.push_back(goodFrame(r, uq, true)); addFrame(r, s, fs.back().frame, r.one(2)); frOf.push_back(s.fr.size() - 1); }
		if (r.one(3)) { Bytes f = oddFrame(r); f.resize(r.below(f.size())); s.b += f; }
		// a start sequence may have formed anywhere
		settle(s, 8096);
		bool kn, ke; triggers(s.b, kn, ke); if (kn || ke) { c.note("streams skipped for a recorded finding"); return; }
		c.eval(s.b);
		Result res = runServer(s.b, false, r.one(3), r.one(5) ? PIPE_STDIN : FILE_STDIN);
		ended(res);
		std::vector<Bytes> ls = lines(res.out); size_t at = 0; long need = 0;
		for (size_t i = 0; i < fs.size(); i++) {
			if (!s.fr[frOf[i]].must) continue;
			for (auto &rd : fs[i].rd) {
				size_t q = at; while (q < ls.size() && !lineDiffers(rd, ls[q]).empty()) q++;
				if (q >= ls.size()) c.fail("lost", "reading " + rd.obis + " value " + std::to_string(rd.v) + " of the intact frame at offset " + std::to_string(s.fr[frOf[i]].at) + " was not printed");
				at = q + 1; need++;
			}
		}
		c.note("readings that had to be printed", need); c.note(damage ? "damaged streams" : "undamaged streams");
	});
	Bytes m0 = c.mode; c.mode += "/noise";
	c.units(c.cases / 4, [&](long u) {
		Rng &r = c.rng; Bytes b;
		switch (u % 5) {
		case 0: b = r.bytes(r.below(20000)); break;
		case 1: for (int i = 0; i < 400; i++) b += "\x1b\x01\x1a\x00\x76\x72"[r.below(6)]; break;
		case 2: for (int i = 0; i < 20; i++) b += frame(r.bytes(r.below(60))); break;
		case 3: for (int i = 0; i < 12; i++) b += frame(genHostile(r).substr(0, 7000)); break;
		default: for (int i = 0; i < 60; i++) b += START + ESC + "\x1a" + r.bytes(3); break; // frames without content
		}
		bool kn, ke; triggers(b, kn, ke); if (kn || ke) { c.note("streams skipped for a recorded finding"); return; }
		c.eval(b); Result res = runServer(b, r.one(8), r.one(2), FILE_STDIN); ended(res); c.note("noise streams");
	});
	c.mode = m0;
}
