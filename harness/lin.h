// Brute-force linearizability of a short concurrent history against a sequential model.
#pragma once
#include <functional>
#include <vector>
#include <stdint.h>

// Model: copyable, bool apply(const Op&) returns whether the recorded result is possible in this state.
template <class Op> struct event { Op op; uint64_t inv, res; };
template <class Op, class Model> bool linearizable(const std::vector<event<Op>>& h, uint64_t done, const Model& m)
{
	if (done == (1ull << h.size()) - 1) return true;
	for (size_t i = 0; i < h.size(); i++) {
		if (done >> i & 1) continue;
		bool first = true;
		for (size_t k = 0; k < h.size() && first; k++)
			if (k != i && !(done >> k & 1) && h[k].res < h[i].inv) first = false;
		if (!first) continue;
		Model n = m;
		if (n.apply(h[i].op) && linearizable(h, done | 1ull << i, n)) return true;
	}
	return false;
}
