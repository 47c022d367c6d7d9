// Driver for the MPI properties.  Started under mpirun by mpidrive.py: every
// rank draws the same choices and so knows the whole model; each rank publishes
// its progress in a shared file so that the case survives a crash.
#include "mpi_case.hpp"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

std::vector<Prop> &props() { static std::vector<Prop> p; return p; }
std::vector<Finding> &findings() { static std::vector<Finding> p; return p; }
extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=1000000000:malloc_fill_byte=255:allocator_may_return_null=1:handle_abort=0:quarantine_size_mb=8:detect_stack_use_after_return=0:print_legend=0:symbolize=1"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1"; }

int R, me, P; Ell EB; std::string DIR;
// ---- live heap blocks of the library (its calls are linked to these) and live communicators and data types
static long g_blocks = 0, g_comms = 0;
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
int __real_posix_memalign(void **, size_t, size_t);
int __wrap_posix_memalign(void **p, size_t a, size_t n) { int r = __real_posix_memalign(p, a, n); if (!r) g_blocks++; return r; }
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) g_blocks++; return p; }
void *__wrap_calloc(size_t n, size_t m) { void *p = __real_calloc(n, m); if (p) g_blocks++; return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); if (!q && p) g_blocks++; return p; }
void __wrap_free(void *p) { if (p) g_blocks--; __real_free(p); }
int MPI_Comm_split(MPI_Comm a, int b, int c, MPI_Comm *d) { int r = PMPI_Comm_split(a, b, c, d); if (*d != MPI_COMM_NULL) g_comms++; return r; }
int MPI_Comm_dup(MPI_Comm a, MPI_Comm *d) { int r = PMPI_Comm_dup(a, d); g_comms++; return r; }
int MPI_Comm_create(MPI_Comm a, MPI_Group g, MPI_Comm *d) { int r = PMPI_Comm_create(a, g, d); if (*d != MPI_COMM_NULL) g_comms++; return r; }
int MPI_Cart_sub(MPI_Comm a, const int *b, MPI_Comm *d) { int r = PMPI_Cart_sub(a, b, d); if (*d != MPI_COMM_NULL) g_comms++; return r; }
int MPI_Cart_create(MPI_Comm a, int n, const int *b, const int *e, int f, MPI_Comm *d) { int r = PMPI_Cart_create(a, n, b, e, f, d); if (*d != MPI_COMM_NULL) g_comms++; return r; }
int MPI_Type_create_struct(int n, const int *b, const MPI_Aint *o, const MPI_Datatype *t, MPI_Datatype *d) { g_comms++; return PMPI_Type_create_struct(n, b, o, t, d); }
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *d) { g_comms++; return PMPI_Type_contiguous(n, t, d); }
int MPI_Type_vector(int n, int b, int s, MPI_Datatype t, MPI_Datatype *d) { g_comms++; return PMPI_Type_vector(n, b, s, t, d); }
int MPI_Type_indexed(int n, const int *b, const int *o, MPI_Datatype t, MPI_Datatype *d) { g_comms++; return PMPI_Type_indexed(n, b, o, t, d); }
int MPI_Type_free(MPI_Datatype *d) { g_comms--; return PMPI_Type_free(d); }
int MPI_Comm_free(MPI_Comm *d) { g_comms--; return PMPI_Comm_free(d); }
}

struct Pub { volatile long caseno; char sub[64]; Shared s; };
static Pub *pub;
static void expired(int) { static const char m[] = "case does not finish (deadlock?)"; memcpy(pub->s.msg, m, sizeof m); pub->s.status = 2; _exit(98); }
static void timer(int cpu, int wall) { itimerval t{}; t.it_value.tv_sec = cpu; setitimer(ITIMER_PROF, &t, 0); alarm(wall); }

// one case; false: skipped
static bool once(const Prop &pr, Src &s, int tier, bool quiet)
{
    Case c(s, &pub->s, tier); c.quiet = quiet;
    try { pr.fn(c); return true; }
    catch (Fail &)
    {
        std::string m = "rank " + std::to_string(me) + " of " + std::to_string(R) + ": " + pub->s.msg; snprintf(pub->s.msg, sizeof pub->s.msg, "%s", m.c_str());
        pub->s.status = 2; MPI_Abort(MPI_COMM_WORLD, 10); _exit(10);
    }
    catch (Skip &) { pub->s.status = 3; return false; }
}

int main(int argc, char **argv)
{
    std::string prop, list, only, finding; uint64_t seed = 1; long first = 0, cases = 1; int tier = 0;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i]; auto nx = [&]() { if (i + 1 >= argc) exit(3); return std::string(argv[++i]); };
        if (a == "--prop") prop = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--first") first = atol(nx().c_str());
        else if (a == "--cases") cases = atol(nx().c_str()); else if (a == "--tier") tier = nx() == "thorough"; else if (a == "--dir") DIR = nx();
        else if (a == "--list") list = nx(); else if (a == "--only") only = nx(); else if (a == "--finding") finding = nx(); else if (a == "--ebn") EB.n = atoi(nx().c_str());
        else if (a == "--ebs") { std::string x = nx(); for (char *q = &x[0]; *q;) { EB.bs.push_back((int) strtol(q, &q, 10)); if (*q == ',') q++; } }
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    MPI_Init(&argc, &argv);
    MPI_Comm_size(MPI_COMM_WORLD, &R); MPI_Comm_rank(MPI_COMM_WORLD, &me); P = 1; while (P * P < R) P++;
    std::string f = DIR + "/r" + std::to_string(me);
    int fd = open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd < 0 || ftruncate(fd, sizeof(Pub))) return 3;
    pub = (Pub *) mmap(0, sizeof(Pub), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (pub == MAP_FAILED) return 3;
    pub->caseno = -1; close(fd);
    struct rlimit cl = { 0, 0 }; setrlimit(RLIMIT_CORE, &cl);
    signal(SIGPROF, expired); signal(SIGALRM, expired);
    bml_initParallel(MPI_COMM_WORLD);
    if (!EB.bs.empty()) bml_set_block_sizes(EB.bs.data(), (int) EB.bs.size(), (int) EB.bs.size());
    std::vector<const Prop *> mine;
    for (auto &p : props()) if (p.id == prop && (only.empty() || p.sub == only)) for (int k = 0; k < p.weight; k++) mine.push_back(&p);
    Prop fp; if (!finding.empty()) { mine.clear(); cases = 1; for (auto &f : findings()) if (f.name == finding) { fp = Prop{ f.prop, f.name, f.fn, 1 }; mine.push_back(&fp); } }
    if (mine.empty()) { fprintf(stderr, "no property %s\n", prop.c_str()); return 3; }
    struct Given { std::string sub; std::vector<uint32_t> ch; }; std::vector<Given> given;
    if (!list.empty())
    {
        FILE *q = fopen(list.c_str(), "r"); if (!q) return 3; char *line = 0; size_t cap = 0;
        while (getline(&line, &cap, q) > 0) { Given g; char *e = strchr(line, ' '); if (!e) continue; g.sub.assign(line, e - line); while (*e) { char *z; unsigned long v = strtoul(e, &z, 10); if (z == e) break; g.ch.push_back((uint32_t) v); e = z; } given.push_back(g); }
        fclose(q); __real_free(line); first = 0; cases = (long) given.size();
    }
    int out = -1; if (me == 0) { out = open((DIR + "/out").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (out < 0) return 3; }
    bool leak = prop == "C26"; int cpu = tier ? 40 : 20;
    MPI_Barrier(MPI_COMM_WORLD);
    for (long k = first; k < first + cases; k++)
    {
        const Prop *pr = mine[k % mine.size()];
        if (!given.empty()) { pr = nullptr; for (auto &p : props()) if (p.id == prop && p.sub == given[k].sub) pr = &p; if (!pr) return 3; }
        Shared *sh = &pub->s;
        sh->status = 0; sh->nchoices = 0; sh->nontrivial = 0; sh->msg[0] = sh->desc[0] = sh->labels[0] = 0; pub->caseno = k; snprintf(pub->sub, sizeof pub->sub, "%s", pr->sub.c_str());
        ChoiceSink sink = { 0, Shared::MAXC, sh->choices };
        timer(cpu, 200);
        Src s = given.empty() ? Src(mix64(mix64(seed, std::hash<std::string>()(prop)), k), sink) : Src(given[k].ch, sink); s.publish = (uint32_t *) &sh->nchoices;
        long b0 = g_blocks, c0 = g_comms; bool ran = once(*pr, s, tier, false);
        uint32_t nch = s.used();
        timer(cpu, 200);
        long v[2] = { (long) nch, -(long) nch }, w[2]; MPI_Allreduce(v, w, 2, MPI_LONG, MPI_MAX, MPI_COMM_WORLD);
        if (w[0] != -w[1]) { fprintf(stderr, "HARNESS: ranks drew different numbers of choices (%s)\n", sh->desc); MPI_Abort(MPI_COMM_WORLD, 97); }
        if (leak && ran)
        {   // a call may keep something from its first use on, but not more every time
            std::vector<uint32_t> ch(sh->choices, sh->choices + std::min<uint32_t>(nch, Shared::MAXC));
            for (int rep = 0; rep < 3; rep++)
            {
                long d[2] = { g_blocks - b0, g_comms - c0 }, q[2]; MPI_Allreduce(d, q, 2, MPI_LONG, MPI_MAX, MPI_COMM_WORLD);
                if (q[0] <= 0 && q[1] <= 0) break;
                if (rep == 2)
                {
                    snprintf(sh->msg, sizeof sh->msg, "rank %d of %d: every repetition leaves %ld heap blocks and %ld communicators or data types behind", me, R, d[0], d[1]);
                    if (d[0] > 0 || d[1] > 0) { sh->status = 2; MPI_Abort(MPI_COMM_WORLD, 10); }
                    MPI_Barrier(MPI_COMM_WORLD);
                }
                b0 = g_blocks; c0 = g_comms; sh->nchoices = 0; Src s2(ch, sink); s2.publish = (uint32_t *) &sh->nchoices; once(*pr, s2, tier, true);
            }
        }
        if (ran) sh->status = 1;
        if (me == 0)
        {
            uint64_t h = mix64(k % mine.size(), 77); for (uint32_t q = 0; q < nch && q < Shared::MAXC; q++) h = mix64(h, sh->choices[q]);
            std::string l = std::to_string(k) + "\t" + (ran ? "1" : "3") + "\t" + std::to_string(sh->nontrivial) + "\t" + std::to_string(h) + "\t" + pr->sub + "\t" + sh->labels + "\t" + ((k - first) % 25 == 0 ? sh->desc : "") + "\n";
            if (write(out, l.data(), l.size()) != (ssize_t) l.size()) return 3;
        }
    }
    timer(0, 0);
    MPI_Barrier(MPI_COMM_WORLD);
    if (me == 0 && write(out, "done\n", 5) != 5) return 3;
    bml_shutdownParallel();
    MPI_Finalize();
    return 0;
}
