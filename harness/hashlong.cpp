// Hashes of messages whose length in bits or bytes exceeds 32 bits.
#include "hash.cpp"
template <class A> static void long_messages()
{
	static const uint64_t G = (uint64_t)1 << 29, T = (uint64_t)1 << 32;
	static const uint64_t quick[] = { G - 1, G + 65 }, more[] = { G - 1, G, G + 65, 2 * G - 9, 2 * G + 3, T - 1, T, T + 100, T + G + 3 };
	size_t k = mc::choose(mc::thorough() ? 9 : 2); uint64_t n = mc::thorough() ? more[k] : quick[k];
	size_t cut = mc::thorough() ? mc::choose(3) : mc::choose(2) * 2;
	mc::job();
	uint8_t* p = (uint8_t*)mmap(nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	MC_CHECK(p != MAP_FAILED, "env", "no memory to map");
	madvise(p, n, MADV_HUGEPAGE);
	bytes r = A::ref(p, n);
	typename A::H h;
	if (cut == 0) h.hash(p, n);
	else if (cut == 1) { h.hash(p, 37); h.hash(p + 37, n - 37); }
	else { size_t half = n / 2; h.hash(p, half); h.hash(p + half, n - half); }
	munmap(p, n);
	expect<A>(h, r, "(long message)", n);
	mc::transition(1); mc::state(mc::hmix(n, cut)); mc::outcome(mc::hash(r.data(), r.size())); mc::nontrivial();
}
MC_HARNESS(md5_long) { long_messages<Md5>(); }
MC_HARNESS(sha1_long) { long_messages<Sha1>(); }
