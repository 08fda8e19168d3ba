// Exhaustive enumeration inside one execution: do { ... o.pick(n) ... } while (o.next());
#ifndef ENUMERATE_H
#define ENUMERATE_H
#include "mc.h"
#include <algorithm>
#include <string>
#include <vector>
// one of n, as an explored choice
inline int chooseOf(int n, const char *label = "choose")
{
    int r = 0, base = 20;
    if (n <= base)
        return mc::choose(n, label);
    int high = chooseOf((n + base - 1) / base, label);
    r = high * base;
    return r + mc::choose(std::min(base, n - r), label);
}
struct Odo
{
    std::vector<int> v, n;
    size_t pos = 0;
    int pick(int k)
    {
        if (pos == v.size()) {
            v.push_back(0);
            n.push_back(k);
        } else if (n[pos] != k)
            mc::fail("harness: the same choices led to a different choice point (the code under test keeps state between sequences)");
        return v[pos++];
    }
    // the choices of a run that ended before using all of the previous run's
    bool next()
    {
        v.resize(pos);
        n.resize(pos);
        pos = 0;
        while (!v.empty() && v.back() + 1 == n.back()) {
            v.pop_back();
            n.pop_back();
        }
        if (v.empty())
            return false;
        v.back()++;
        return !mc::mc_expired(); // reported as capped
    }
};
#endif
