// Independent model of SML: element trees, a reference encoder, a reference
// decoder and a schema-driven generator.  Shares no code with the library.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

typedef std::string Bytes;

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) {}
	uint64_t next() {
		uint64_t x = (s += 0x9E3779B97F4A7C15ull);
		x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
		x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
		return x ^ (x >> 31);
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
	bool one(int n) { return below((uint64_t)n) == 0; }
	bool pct(int p) { return (int)below(100) < p; }
	Bytes bytes(size_t n) { Bytes b(n, 0); for (auto &c : b) c = (char)next(); return b; }
	template <class V> const typename V::value_type &pick(const V &v) { return v[below(v.size())]; }
};
uint64_t mix(uint64_t a, uint64_t b);
uint64_t hashBytes(const Bytes &b, uint64_t h = 1469598103934665603ull);
Bytes hex(const Bytes &b);
Bytes unhex(const Bytes &h);

// ---- element tree ----
struct Node {
	char k = 'a'; // a absent, o octets, b boolean, i signed, u unsigned, l list, r raw bytes
	Bytes s;      // o, r
	uint64_t v = 0; // i (two's complement), u, b (transmitted byte)
	int nb = 1;   // bytes transmitted (i, u)
	std::vector<Node> c;
};
Node Abs();
Node Oct(const Bytes &s);
Node Bool(uint8_t b);
Node Int(int64_t v, int nb);
Node Uns(uint64_t v, int nb);
Node List(std::vector<Node> c = {});
Node Raw(const Bytes &s);

struct Elem { size_t off; int tl; size_t end; char k; int depth; };
void encTL(Bytes &out, int type, uint64_t len);      // canonical TL for `len` data bytes / entries
Bytes enc(const Node &n, std::vector<Elem> *el = nullptr);
void enc(const Node &n, Bytes &out, std::vector<Elem> *el, int depth);

uint16_t crcX25(const Bytes &b, size_t from = 0, size_t to = (size_t)-1);     // byte order as SML transmits it
uint16_t crcKermit(const Bytes &b, size_t from = 0, size_t to = (size_t)-1);
uint16_t crcX25slow(const unsigned char *p, size_t n);    // bit by bit
uint16_t crcKermitslow(const unsigned char *p, size_t n);

// ---- schema ----
enum T { tOct, tU8, tU16, tU32, tU64, tI8, tI16, tI32, tI64, tBool, tValue, tStatus, tTime, tPath, tTree, tList, tHdrSeq, tPopeSeq, tPerSeq, tObjList,
	tPpv, tTupel, tPeriod, tHdr, tPope, tVEntry, tVSeq, tBody, tMessage, T_COUNT };
struct MsgSpec { uint32_t tag; const char *name; std::vector<T> f; };
const std::vector<MsgSpec> &specs();
const MsgSpec *specFor(uint32_t tag);
// fixed-arity lists
std::vector<T> fieldsOf(T t);

// ---- generator ----
struct Prof {
	int absent = 25;      // % of optional-capable fields left out
	int maxList = 4;
	int bigList = 2;      // % of lists with a boundary length
	int maxStr = 12;
	int bigStr = 2;       // % of strings with a boundary length
	size_t hugeStr = 0;   // if nonzero, lengths up to this may occur (rarely)
	int depth = 3;        // tree depth
	int bareTime = 10;    // % of times sent as a bare number
	int zg22 = 5;         // % of times sent in three parts
	int oddTag = 0;       // % of times with no or an unknown choice
	bool stdWidth = false; // only 1,2,4,8 byte numbers
	bool alwaysMandatory = false;
	long budget = 20000;  // bytes, roughly
	bool boundStrings = true;
};
struct Dict { std::vector<uint64_t> ints; std::vector<Bytes> strs; };
const Dict &dict();
uint64_t dictInt(Rng &r, uint64_t most);
Bytes patterned(Rng &r, size_t n);
size_t somewhere(Rng &r, size_t near);               // a position in a buffer: mostly below `near`, sometimes far from the beginning
struct Gen {
	Rng &r; Prof p; long used = 0; std::vector<Bytes> strs; std::vector<uint64_t> nums;
	Bytes str1();
	Gen(Rng &r_, Prof p_) : r(r_), p(p_) {}
	Bytes str();
	int len();
	Node num(char k, int maxb, bool exact = false);
	Node el(T t, int depth = 0);
	Node optional(T t, int depth = 0);
	Node listEntry();
	Node body(const MsgSpec &m);
	Node bodyRandom();
};
struct Msg { Node tid, gid, abort, body; int crcMode = 0; };   // crcMode 0 X25, 1 Kermit, 2 wrong, 3 explicit
Msg genMsg(Gen &g, int spec = -1);
Bytes encMsgHead(const Msg &m, std::vector<Elem> *el = nullptr); // 76 tid gid abort body
Bytes encMsg(const Msg &m, std::vector<Elem> *el = nullptr);     // with crc and end mark
Bytes sealMsg(const Bytes &head, int crcMode = 0, uint16_t explicitCrc = 0, int crcBytes = 2, int eom = 0);

// ---- reference decoder ----
struct RefMsg { Bytes dump; bool maybe; size_t begin, end; bool kermit; };
struct Ref {
	const Bytes &b; size_t pos; size_t end;
	bool maybe = false;  // outcome left open by the properties
	bool strictCrc = false; // do not accept Kermit
	bool srvName = false, srvEmpty = false; // a list entry sml_server is known not to survive
	bool sawNoncanon = false, dzg = false, zg22 = false, bare = false;
	Bytes out;
	explicit Ref(const Bytes &b_, size_t from = 0) : b(b_), pos(from), end(b_.size()) {}
	bool tl(int &type, int64_t &len);
	int peekType();
	bool skip(bool &skipped);
	bool oct(Bytes *raw = nullptr);
	bool num(int type, int max, uint64_t *v = nullptr, int *nb = nullptr, bool *abs = nullptr);
	bool boolean();
	struct Val { bool abs = true; char k = 0; int nb = 0; uint64_t v = 0; Bytes s; };
	bool value(Val &v);
	void putValue(const Val &v);
	bool status();
	bool time();
	bool path();
	bool tree(int depth = 0);
	bool ppv(int depth = 0);
	bool list();
	bool fixed(T t, const char *pre, int depth = 0);
	bool seq(T t, int depth = 0);
	bool objlist();
	bool el(T t, int depth = 0);
	bool body();
	bool listHead(int n);
	bool message();      // 1 delivered, appends dump; see msgState
	int msgState = 0;    // 0 structural failure, 1 delivered, 2 dropped (checksum)
	bool kermit = false;
	void u(const char *pre, uint64_t v);
	void i(const char *pre, int64_t v);
};
struct RefFile { std::vector<RefMsg> msgs; bool srvName = false, srvEmpty = false; bool stopped = false; size_t stopPos = 0; int droppedCrc = 0; };
RefFile refFile(const Bytes &b, bool strictCrc = false);
// does `got` (the library's dumps) agree with the reference?  empty string: yes
Bytes compareDelivered(const RefFile &rf, const std::vector<Bytes> &got);

// ---- transport ----
Bytes frame(const Bytes &payload);
