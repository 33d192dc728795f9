// Linearizability of a recorded history against a sequential model (Wing & Gong, with memoisation).
#pragma once
#include <functional>
#include <set>
#include <string>
#include <vector>
#include "sim.h"

template <class State, class Rec> struct Lin {
    struct Item { sim::u64 t0, t1; Rec r; };
    std::vector<Item> h;
    std::function<bool(State&, const Rec&)> apply;       // false: not legal in this state
    std::function<std::string(const State&)> key;
    size_t visited = 0, limit = 400000;
    bool gave_up = false;
    std::set<std::string> seen;

    bool dfs(std::vector<char>& done, size_t left, const State& s) {
        if (!left) return true;
        if (++visited > limit) { gave_up = true; return true; }
        std::string k(done.begin(), done.end());
        k += key(s);
        if (!seen.insert(k).second) return false;
        sim::u64 first_end = ~0ull;
        for (size_t i = 0; i < h.size(); i++) if (!done[i] && h[i].t1 < first_end) first_end = h[i].t1;
        for (size_t i = 0; i < h.size(); i++) {
            if (done[i] || h[i].t0 > first_end) continue;
            State n = s;
            if (!apply(n, h[i].r)) continue;
            done[i] = 1;
            if (dfs(done, left - 1, n)) return true;
            done[i] = 0;
        }
        return false;
    }
    bool check(const State& init) {
        std::vector<char> done(h.size(), 0);
        return dfs(done, h.size(), init);
    }
};
