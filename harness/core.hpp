#pragma once
#include "build.hpp"
#include "model.hpp"
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>

struct Ctx {
	Bytes mode; uint64_t seed = 1; long cases = 1000, only = -1; int shard = 0, nshards = 1; Bytes out; bool thorough = false;
	std::map<Bytes, long> cnt;
	std::unordered_set<uint64_t> distinct;
	std::vector<Bytes> samples;
	long evals = 0;
	long unit = -1;
	Bytes input;   // what the current evaluation was fed
	Rng rng{1};
	// run f for every unit of this shard
	void units(long n, const std::function<void(long)> &f);
	void eval(const Bytes &in, bool nontrivial = true); // one evaluation about to happen
	void note(const Bytes &what, long n = 1) { cnt[what] += n; }
	void maxi(const Bytes &what, long n) { if (n > cnt["max:" + what]) cnt["max:" + what] = n; }
	[[noreturn]] void fail(const Bytes &key, const Bytes &msg);
	void known(const Bytes &key, const Bytes &msg);
	std::map<Bytes, Bytes> knowns;
	void finish();
};
extern Ctx *C;
extern long unitSeconds; // processor time a unit may use; 0: unlimited
extern Bytes rawInput; // what the coverage-guided driver was fed, for replay
#define LIB(x) (vf_enter(), (x), vf_leave())
template <class F> auto lib(F f) -> decltype(f()) {
	struct G { G() { vf_enter(); } ~G() { vf_leave(); } } g;
	return f();
}
Bytes clipHex(const Bytes &b, size_t n = 300);

// a heap copy of exactly the given size: reads beyond it are caught
struct Exact {
	unsigned char *p; size_t n;
	explicit Exact(const Bytes &b) : p((unsigned char *)malloc(b.size() ? b.size() : 1)), n(b.size()) { memcpy(p, b.data(), n); }
	~Exact() { free(p); }
	Exact(const Exact &) = delete;
};
struct Dumped { std::vector<Bytes> msgs; };
std::vector<Bytes> dumpFile(const sml_file *f, int opt = 0);
Bytes dumpMsg(const sml_message *m, int opt = 0);
void touchValues(const sml_file *f); // run every converter / comparison on the delivered content
long liveBlocks();

enum { P_PRINT = 1, P_TOUCH = 2, P_REWRITE = 4, P_NOCMP = 8, P_NOMEM = 16 };
// parse, compare with the reference, optionally print / convert / write again, free, and balance the books
RefFile checkFile(const Bytes &in, int flags = 0);

// ---- element parsers ----
struct ElP {
	const char *name; T t; uint32_t tag; // tag: message data of that type (t == tMessage then unused)
	void *(*parse)(sml_buffer *);
	void (*dump)(vf_out *, const void *, int);
	void (*fre)(void *);
	void (*write)(void *, sml_buffer *);
	void *(*build)(const Node &);
};
const std::vector<ElP> &elps();
Node genFor(Gen &g, const ElP &e);
bool refFor(Ref &r, const ElP &e);
sml_buffer *mkbuf(const Bytes &content, size_t cursor = 0);

// ---- byte generators ----
void likePrevious(Rng &r, Msg &m, const Msg *prev);
Bytes genFile(Rng &r, const Prof &p, int maxMsgs = 3);
Bytes mutateHead(Rng &r, const Bytes &head, const std::vector<Elem> &el, Bytes *what = nullptr);
Bytes havoc(Rng &r, const Bytes &in, int n);
Prof randProf(Rng &r);
const std::vector<Bytes> &strangers();
Bytes retype(const Bytes &b, const Elem &e, int type, int by);
Bytes changeEntries(const Bytes &b, const std::vector<Elem> &el, size_t k, int how);
Bytes genHostile(Rng &r, Bytes *kind = nullptr);
Bytes loosen(Rng &r, const Bytes &head, const std::vector<Elem> &el, int pct, int emptyPct);
Msg vendorMsg(Rng &r, Gen &g, const std::vector<uint64_t> &edges);
// a message with n elements of one kind (for tOct: a string of n bytes)
extern const T lenKinds[9];
Msg lenMsg(Rng &r, T t, int n, bool writable);
Msg depthMsg(Rng &r, int depth);
Bytes deepMsg(Rng &r, size_t levels);
const std::vector<int> &countSweep();
// files with every number of elements of every kind, and of messages
// the entries (or bytes) of the list or string el[k] repeated until there are n; "" if that makes no well-formed message
Bytes stretch(const Bytes &head, const std::vector<Elem> &el, size_t k, size_t n);
void countCases(Ctx &c, const std::function<void(const Bytes &)> &f);

typedef void (*ModeFn)(Ctx &);
// one element parser against the reference; shared with the coverage-guided driver
void elemCheck(const ElP &e, const Bytes &content, size_t start, bool oracle, bool extra);
void writeAgain(const Bytes &file); // parse, write, judge what was written
struct Mode { const char *name; ModeFn fn; };
extern const Mode modes_parse[], modes_write[], modes_misc[], modes_transport[], modes_threads[], modes_gen[], modes_objects[];
