// Records inputs for drivers that cannot be linked with this harness (MSan, valgrind).
#include "stream.hpp"
static FILE *F;
static void rec(const char *name, const Bytes &b, size_t cur = 0) {
	uint32_t l = (uint32_t)strlen(name), c = (uint32_t)cur, n = (uint32_t)b.size();
	fwrite(&l, 4, 1, F); fwrite(name, 1, l, F); fwrite(&c, 4, 1, F); fwrite(&n, 4, 1, F); fwrite(b.data(), 1, n, F);
}
static void m_gen(Ctx &c) {
	F = fopen((c.out + ".inputs").c_str(), "wb"); if (!F) _exit(9);
	c.units(c.cases, [&](long u) {
		Rng &r = c.rng;
		switch (u % 5) {
		case 0: case 1: { Bytes k, b = genHostile(r, &k); if (b.size() > 60000) b.resize(60000); c.eval(b, b.size() > 4); rec("file", b); c.note("files: " + k); break; }
		case 2: { Bytes b = genFile(r, randProf(r)); c.eval(b); rec("file", b); c.note("files: well-formed"); break; }
		case 3: { Stream s; int n = r.range(1, 4); for (int k = 0; k < n; k++) { if (r.one(3)) addDamaged(r, s, 200); else if (r.one(2)) addFrame(r, s, frame(genFile(r, randProf(r), 1)), r.one(2)); else addFrame(r, s, okFrame(r, 200), r.one(2)); } c.eval(s.b); rec("stream", s.b, (size_t)r.range(8, 400)); c.note("streams"); break; }
		default: { for (int q = 0; q < 6; q++) { const ElP &e = elps()[r.below(elps().size())]; Prof p = randProf(r); p.budget = 300; Gen g(r, p); std::vector<Elem> el; Bytes b = enc(genFor(g, e), &el); if (r.one(2)) b = r.one(2) ? havoc(r, b, r.range(1, 3)) : mutateHead(r, b, el); if (r.one(4) && !b.empty()) b.resize(r.below(b.size())); size_t cur = r.one(2) ? 0 : r.below(8); Bytes full = r.bytes(cur) + b + (r.one(2) ? "" : r.bytes(r.below(4))); c.eval(Bytes(e.name) + full); rec(e.name, full, cur); c.note("elements"); } }
		}
	});
	fclose(F);
}
const Mode modes_gen[] = {{"gen", m_gen}, {nullptr, nullptr}};
