// Choice-sequence source: a test case is the finite list of choices drawn from
// it.  Fresh choices come from a PRNG seeded per case; a replayed or shrunk
// case supplies them explicitly (exhausted lists yield 0, the simplest choice).
#pragma once
#include <cstdint>
#include <vector>
#include <cstddef>

struct ChoiceSink { uint32_t n; uint32_t cap; uint32_t *v; };

class Src
{
  public:
    Src(uint64_t seed, ChoiceSink s) : state(seed), fresh(true), sink(s) { sink_reset(); }
    Src(const std::vector<uint32_t> &c, ChoiceSink s) : state(0), fresh(false), given(c), sink(s) { sink_reset(); }
    // uniform in [0,n); n>=1
    uint32_t u(uint32_t n)
    {
        uint32_t raw;
        if (fresh) raw = (uint32_t) (next() >> 32);
        else raw = pos < given.size() ? given[pos] : 0;
        // fresh choices are stored already reduced, so that shrinking the
        // stored number shrinks the drawn value
        uint32_t val = fresh ? (uint32_t) (((uint64_t) raw * n) >> 32) : (n ? raw % n : 0);
        pos++;
        if (sink.n < sink.cap) sink.v[sink.n] = val;
        sink.n++;
        if (publish) *publish = sink.n;
        return val;
    }
    int range(int a, int b) { return a + (int) u((uint32_t) (b - a + 1)); }
    // true with probability num/den; false is the simple choice
    bool chance(uint32_t num, uint32_t den) { return u(den) >= den - num; }
    bool coin() { return chance(1, 2); }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + u((uint32_t) l.size())); }
    template <class T> const T &pick(const std::vector<T> &l) { return l[u((uint32_t) l.size())]; }
    // loop control for step lists: stop is the simple choice, so that deleting
    // one step's choices shortens the list
    bool more(uint32_t mean) { return u(mean + 1) != 0; }
    double unit() { return u(1u << 24) / (double) (1u << 24); }
    uint32_t used() const { return sink.n; }
    struct Mark { uint64_t state; size_t pos; uint32_t n; };
    Mark mark() const { return { state, pos, sink.n }; }
    void rewind(const Mark &m) { state = m.state; pos = m.pos; sink.n = m.n; }   // draw the same choices again
    uint32_t *publish = nullptr;
  private:
    uint64_t next()
    {
        uint64_t z = (state += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    void sink_reset() { sink.n = 0; }
    uint64_t state;
    bool fresh;
    std::vector<uint32_t> given;
    size_t pos = 0;
    ChoiceSink sink;
};

inline uint64_t mix64(uint64_t a, uint64_t b)
{
    uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x7f4a7c15;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
