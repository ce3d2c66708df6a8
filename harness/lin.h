// Wing-Gong-Lowe style linearizability checker with memoisation over (linearized set, state).
#ifndef LIN_H
#define LIN_H
#include <unordered_set>
#include <vector>
#include <string>
#include <stdint.h>

// Model requirements: copyable; uint64_t key() const; bool step(const Op&) -> result matches.
// Op requirements: uint64_t inv, ret.
template<class Model, class Op> struct LinChecker {
	const std::vector<Op> &ops; uint64_t limit, nodes=0; bool exhausted=false;
	std::unordered_set<std::string> seen; std::vector<int> order, best;
	LinChecker(const std::vector<Op> &o, uint64_t lim=400000) : ops(o), limit(lim) {}
	bool dfs(uint64_t mask, const Model &m, const Model **finalOut, Model &finalStore)
	{
		size_t n=ops.size();
		if (mask == (n==64 ? ~0ULL : ((1ULL<<n)-1))) { finalStore=m; return true; }
		if (++nodes > limit) { exhausted=true; return false; }
		std::string k((char*)&mask,8); k += m.key();
		if (!seen.insert(k).second) return false;
		uint64_t minRet=~0ULL;
		for (size_t i=0;i<n;i++) if (!(mask>>i&1) && ops[i].ret<minRet) minRet=ops[i].ret;
		for (size_t i=0;i<n;i++) {
			if (mask>>i&1) continue;
			if (ops[i].inv > minRet) continue;		// some other pending op returned before this was invoked
			Model m2=m;
			if (!m2.step(ops[i])) continue;
			order.push_back(i); if (order.size()>best.size()) best=order;
			if (dfs(mask|1ULL<<i,m2,finalOut,finalStore)) return true;
			order.pop_back();
			if (exhausted) return false;
		}
		return false;
	}
	// 1 linearizable, 0 not, -1 inconclusive
	int run(const Model &init, Model &finalStore) {
		const Model *d=0;
		if (ops.size()>64) return -1;
		bool ok=dfs(0,init,&d,finalStore);
		return ok ? 1 : exhausted ? -1 : 0;
	}
};
#endif
