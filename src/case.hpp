// Case context: what a property function sees.
#pragma once
#include "bmlx.hpp"
#include <string.h>
#include <sys/types.h>

struct Shared   // one per worker, in shared memory; written by the child
{
    static const int MAXC = 60000;
    volatile int status;          // 0 running, 1 passed, 2 failed check, 3 skipped
    volatile uint32_t nchoices;
    volatile int nontrivial;
    char msg[6000];
    char desc[6000];
    char labels[2000];            // ';'-separated
    uint32_t choices[MAXC];
};

struct Fail {};
struct Skip {};

class Case
{
  public:
    Case(Src &s, Shared *sh_, int tier_) : src(s), sh(sh_), thorough(tier_) {}
    Src &src;
    Shared *sh;
    int thorough;
    bool quiet = false;           // no notes or labels (repeated execution)
    bool insub = false;           // drawing from a nested source (large matrices)
    void nontrivial() { sh->nontrivial = 1; }
    void label(const std::string &l)
    {
        if (quiet) return;
        size_t n = strlen(sh->labels);
        if (n + l.size() + 2 < sizeof(sh->labels)) { memcpy(sh->labels + n, l.c_str(), l.size()); sh->labels[n + l.size()] = ';'; sh->labels[n + l.size() + 1] = 0; }
    }
    // append to the human-readable description of the case
    void note(const char *fmt, ...) __attribute__ ((format(printf, 2, 3)))
    {
        size_t n = strlen(sh->desc);
        if (quiet) return;
        if (n + 2 >= sizeof(sh->desc)) return;
        va_list ap; va_start(ap, fmt); vsnprintf(sh->desc + n, sizeof(sh->desc) - n, fmt, ap); va_end(ap);
    }
    [[noreturn]] void fail(const char *fmt, ...) __attribute__ ((format(printf, 2, 3)))
    {
        va_list ap; va_start(ap, fmt); vsnprintf(sh->msg, sizeof(sh->msg), fmt, ap); va_end(ap);
        throw Fail();
    }
    void skip() { throw Skip(); }
};
#define CHECK(c, cond, ...) do { if (!(cond)) (c).fail(__VA_ARGS__); } while (0)

typedef std::function<void(Case &)> PropFn;
struct Prop { std::string id, sub; PropFn fn; int weight; };
struct Finding { std::string prop, name; PropFn fn; };   // fn fails while the defect is there
std::vector<Prop> &props();
std::vector<Finding> &findings();
#if defined(RUN_POOL) || defined(RUN_ALT)
// the builds with other implementations switched on: the cases of the format properties all decide C36
struct RegProp { RegProp(const char *id, const char *sub, int weight, PropFn f)
{
#ifdef RUN_ALT
    static const char *ids = " C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C23 C24 C26 C32 C35 ";
#else
    static const char *ids = " C01 C02 C03 C04 C05 C06 C07 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C21 C23 C24 C26 C32 ";
#endif
    if (strstr(ids, (std::string(" ") + id + " ").c_str())) props().push_back({"C36", std::string(id) + "-" + sub, f, weight});
} };
#else
struct RegProp { RegProp(const char *id, const char *sub, int weight, PropFn f) { props().push_back({id, sub, f, weight}); } };
#endif
struct RegFinding { RegFinding(const char *p, const char *n, PropFn f) { findings().push_back({p, n, f}); } };
#define CAT2(a,b) a##b
#define CAT(a,b) CAT2(a,b)
#define PROP(id, sub, weight) \
  static void CAT(prop_, __LINE__)(Case &c); \
  static RegProp CAT(regp_, __LINE__)(#id, #sub, weight, CAT(prop_, __LINE__)); \
  static void CAT(prop_, __LINE__)(Case &c)
#define FINDING(id, name) \
  static void CAT(find_, __LINE__)(Case &c); \
  static RegFinding CAT(regf_, __LINE__)(#id, name, CAT(find_, __LINE__)); \
  static void CAT(find_, __LINE__)(Case &c)

// Run f in a forked child with captured stdout+stderr; how did it end?
struct Probe { bool exited; int code; int signal; std::string out; bool timed_out; };
Probe probe(const std::function<void()> &f, bool small_out = true);
