// Driver: generates cases, runs each in a forked child, shrinks failures.
#include "case.hpp"
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

std::vector<Prop> &props() { static std::vector<Prop> p; return p; }
std::vector<Finding> &findings() { static std::vector<Finding> p; return p; }

#ifdef RUN_ASAN
extern "C" const char *__asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=1000000000:malloc_fill_byte=255:"
        "allocator_may_return_null=1:handle_abort=0:quarantine_size_mb=8:detect_stack_use_after_return=0:print_legend=0:print_full_thread_history=0:symbolize=1";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1"; }
#endif

#ifdef RUN_TSAN
extern "C" const char *__tsan_default_options() { return "exitcode=99:halt_on_error=1:report_signal_unsafe=0:die_after_fork=0:history_size=4:report_thread_leaks=0:symbolize=1:atexit_sleep_ms=0:report_destroy_locked=0"; }
#endif

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static int g_tier = 0;
static int g_cpu_limit = 20;
static int g_devnull = -1;

Probe probe(const std::function<void()> &f, bool)
{
    Probe r{};
    char path[] = "/tmp/bmlprobeXXXXXX";
    int fd = mkstemp(path);
    unlink(path);
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0)
    {
        dup2(fd, 1); dup2(fd, 2);
        struct rlimit rl = { 10, 10 }; setrlimit(RLIMIT_CPU, &rl);
        f();
        fflush(stdout); fflush(stderr);
        _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    r.exited = WIFEXITED(st); r.code = r.exited ? WEXITSTATUS(st) : -1; r.signal = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
    r.timed_out = r.signal == SIGXCPU || r.signal == SIGKILL;
    off_t n = lseek(fd, 0, SEEK_END); if (n > 60000) n = 60000;
    r.out.resize(n); lseek(fd, 0, SEEK_SET); if (n) { ssize_t k = read(fd, &r.out[0], n); r.out.resize(k < 0 ? 0 : k); }
    close(fd);
    return r;
}

static void child_main(const Prop &pr, Shared *sh, Src &s, int errfd)
{
    struct rlimit rl = { (rlim_t) g_cpu_limit, (rlim_t) g_cpu_limit + 5 }; setrlimit(RLIMIT_CPU, &rl);
    struct rlimit cl = { 0, 0 }; setrlimit(RLIMIT_CORE, &cl);
    dup2(errfd, 1);
    dup2(errfd, 2);
    Case c(s, sh, g_tier);
    try { pr.fn(c); sh->status = 1; }
    catch (Fail &) { sh->status = 2; }
    catch (Skip &) { sh->status = 3; }
    _exit(0);
}

enum Outcome { PASS = 1, FAILED = 2, SKIPPED = 3 };
// run one case; outcome + message in sh
static Outcome run_case(const Prop &pr, Shared *sh, uint64_t seed, const std::vector<uint32_t> *given, int errfd)
{
    sh->status = 0; sh->nchoices = 0; sh->nontrivial = 0; sh->msg[0] = sh->desc[0] = sh->labels[0] = 0;
    if (ftruncate(errfd, 0)) {}
    lseek(errfd, 0, SEEK_SET);
    pid_t p = fork();
    if (p == 0)
    {
        ChoiceSink sink = { 0, Shared::MAXC, sh->choices };
        if (given) { Src s(*given, sink); s.publish = (uint32_t *) &sh->nchoices; child_main(pr, sh, s, errfd); }
        else { Src s(seed, sink); s.publish = (uint32_t *) &sh->nchoices; child_main(pr, sh, s, errfd); }
        _exit(0);
    }
    if (p < 0) { perror("fork"); _exit(3); }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (sh->status == 1 || sh->status == 3) return (Outcome) (int) sh->status;
    if (sh->status == 2) return FAILED;
    // died without an answer
    char err[3000]; ssize_t k = pread(errfd, err, sizeof err - 1, 0); if (k < 0) k = 0; err[k] = 0;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { snprintf(sh->msg, sizeof sh->msg, "killed"); return SKIPPED; }   // e.g. out of memory: no verdict
    std::string how = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGXCPU ? "operation does not terminate (CPU limit)" : "signal " + std::to_string(WTERMSIG(st)))
        : "process exit " + std::to_string(WEXITSTATUS(st)) + " inside a valid call";
    snprintf(sh->msg, sizeof sh->msg, "%s; output: %.2500s", how.c_str(), err);
    return FAILED;
}

static std::string jesc(const std::string &s)
{
    std::string o;
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o;
}

static uint32_t nch(Shared *m) { uint32_t n = m->nchoices; return n < (uint32_t) Shared::MAXC ? n : (uint32_t) Shared::MAXC; }
static Shared *mapshared()
{
    void *m = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Shared *) m;
}
static int tmpfd() { char path[] = "/tmp/bmlerrXXXXXX"; int fd = mkstemp(path); unlink(path); return fd; }

static const Prop *find_prop(const std::string &id, const std::string &sub)
{
    for (auto &p : props()) if (p.id == id && p.sub == sub) return &p;
    return nullptr;
}

int main(int argc, char **argv)
{
    std::string prop, out, replay, finding, replay_dir = ".", only;
    uint64_t seed = 1; long cases = 1000; int workers = 8; double budget = 60; bool list = false;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i]; auto nx = [&]() { if (i + 1 >= argc) exit(3); return std::string(argv[++i]); };
        if (a == "--prop") prop = nx(); else if (a == "--out") out = nx(); else if (a == "--replay") replay = nx();
        else if (a == "--finding") finding = nx(); else if (a == "--replay-dir") replay_dir = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--cases") cases = atol(nx().c_str()); else if (a == "--workers") workers = atoi(nx().c_str());
        else if (a == "--budget") budget = atof(nx().c_str()); else if (a == "--tier") g_tier = nx() == "thorough"; else if (a == "--list") list = true;
        else if (a == "--only") only = nx(); else if (a == "--cpu") g_cpu_limit = atoi(nx().c_str());
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    g_devnull = open("/dev/null", O_WRONLY);
    if (list) { for (auto &p : props()) printf("%s %s\n", p.id.c_str(), p.sub.c_str()); for (auto &f : findings()) printf("finding %s %s\n", f.prop.c_str(), f.name.c_str()); return 0; }
    int errfd = tmpfd();
    Shared *ms = mapshared();

    if (!finding.empty())
    {   // exit 10: still present, 0: not reproduced
        for (auto &f : findings()) if (f.name == finding)
        {
            Prop p{ f.prop, f.name, f.fn, 1 };
            std::vector<uint32_t> none;
            Outcome o = run_case(p, ms, 0, &none, errfd);
            printf("%s: %s\n", o == FAILED ? "present" : "absent", ms->msg);
            return o == FAILED ? 10 : 0;
        }
        fprintf(stderr, "no such finding\n"); return 3;
    }
    if (!replay.empty())
    {
        FILE *f = fopen(replay.c_str(), "r"); if (!f) { perror(replay.c_str()); return 3; }
        char id[64], sub[128]; if (fscanf(f, " property %63s sub %127s choices", id, sub) != 2) return 3;
        std::vector<uint32_t> ch; unsigned v; while (fscanf(f, "%u", &v) == 1) ch.push_back(v);
        fclose(f);
        const Prop *p = find_prop(id, sub); if (!p) { fprintf(stderr, "no such property\n"); return 3; }
        Outcome o = run_case(*p, ms, 0, &ch, errfd);
        printf("%s\ncase: %s\nlabels: %s\nmessage: %s\n", o == PASS ? "PASS" : o == FAILED ? "FAIL" : "SKIP", ms->desc, ms->labels, ms->msg);
        return o == FAILED ? 10 : 0;
    }

    std::vector<const Prop *> mine;
    for (auto &p : props()) if (p.id == prop && (only.empty() || p.sub == only)) for (int k = 0; k < p.weight; k++) mine.push_back(&p);
    if (mine.empty()) { fprintf(stderr, "no property %s\n", prop.c_str()); return 3; }

    double t0 = now();
    struct Msg { uint32_t caseno; uint64_t hash; int outcome, nontrivial; uint32_t nlab, ndesc; };
    volatile int *stop = (volatile int *) mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<int> fds; std::vector<pid_t> pids;
    for (int w = 0; w < workers; w++)
    {
        int pp[2]; if (pipe(pp)) return 3;
        pid_t p = fork();
        if (p == 0)
        {
            close(pp[0]); for (int fd : fds) close(fd);
            Shared *sh = mapshared(); int ef = tmpfd();
            for (long i = w; i < cases && !*stop; i += workers)
            {
                if (now() - t0 > budget) break;
                const Prop &pr = *mine[i % mine.size()];
                Outcome o = run_case(pr, sh, mix64(mix64(seed, std::hash<std::string>()(prop)), i), nullptr, ef);
                uint64_t h = mix64(i % mine.size(), 77); for (uint32_t k = 0; k < sh->nchoices && k < Shared::MAXC; k++) h = mix64(h, sh->choices[k]);
                Msg m = { (uint32_t) i, h, o, sh->nontrivial, (uint32_t) strlen(sh->labels), (uint32_t) (((i / workers) % 50 == 0 || o == FAILED) ? strlen(sh->desc) : 0) };
                std::string b((char *) &m, sizeof m); b += sh->labels; b.append(sh->desc, m.ndesc);
                size_t off = 0; while (off < b.size()) { ssize_t k = write(pp[1], b.data() + off, b.size() - off); if (k <= 0) _exit(4); off += k; }
                if (o == FAILED) { *stop = 1; break; }
            }
            _exit(0);
        }
        close(pp[1]); fds.push_back(pp[0]); pids.push_back(p);
    }
    std::map<std::string, long> labels; std::unordered_set<uint64_t> distinct; std::unordered_set<uint64_t> all;
    long evals = 0, skipped = 0; std::vector<std::string> samples; std::vector<long> failed;
    std::vector<std::string> inbuf(workers); std::vector<bool> openf(workers, true); int nopen = workers;
    while (nopen)
    {
        std::vector<pollfd> pf; std::vector<int> ix;
        for (int w = 0; w < workers; w++) if (openf[w]) { pf.push_back({ fds[w], POLLIN, 0 }); ix.push_back(w); }
        poll(pf.data(), pf.size(), -1);
        for (size_t q = 0; q < pf.size(); q++) if (pf[q].revents)
        {
            int w = ix[q]; char b[65536]; ssize_t k = read(fds[w], b, sizeof b);
            if (k <= 0) { openf[w] = false; nopen--; continue; }
            inbuf[w].append(b, k);
            while (inbuf[w].size() >= sizeof(Msg))
            {
                Msg m; memcpy(&m, inbuf[w].data(), sizeof m);
                size_t tot = sizeof m + m.nlab + m.ndesc; if (inbuf[w].size() < tot) break;
                std::string lab = inbuf[w].substr(sizeof m, m.nlab), desc = inbuf[w].substr(sizeof m + m.nlab, m.ndesc);
                inbuf[w].erase(0, tot);
                if (m.outcome == SKIPPED) skipped++; else evals++;
                labels["sub:" + mine[m.caseno % mine.size()]->sub]++;
                size_t a = 0; std::set<std::string> seen; while (a < lab.size()) { size_t e = lab.find(';', a); seen.insert(lab.substr(a, e - a)); a = e + 1; }
                for (auto &l : seen) labels[l]++;
                if (m.nontrivial && m.outcome == PASS) { distinct.insert(m.hash); if (samples.size() < 12 && m.ndesc) samples.push_back(mine[m.caseno % mine.size()]->sub + ": " + desc); }
                if (m.outcome == FAILED) failed.push_back(m.caseno);
            }
        }
    }
    for (pid_t p : pids) { int st; waitpid(p, &st, 0); }
    std::string vjson;
    int nviol = 0; long unrepro = 0;
    std::sort(failed.begin(), failed.end());
    for (long i : failed)
    {
        if (nviol >= 1) break;
        const Prop &pr = *mine[i % mine.size()];
        Outcome o = run_case(pr, ms, mix64(mix64(seed, std::hash<std::string>()(prop)), i), nullptr, errfd);
        bool flaky = false;
        if (o != FAILED)
        {   // schedule dependent?
            int again = 0; for (int k = 0; k < 30; k++) if (run_case(pr, ms, mix64(mix64(seed, std::hash<std::string>()(prop)), i), nullptr, errfd) == FAILED) { again++; break; }
            if (!again) { unrepro++; continue; }
            flaky = true;
        }
        std::vector<uint32_t> cur(ms->choices, ms->choices + nch(ms));
        int tries = flaky ? 8 : 1;
        long execs = 0; double ts = now(), lim = 40; std::string msg = ms->msg, desc = ms->desc;
        auto fails = [&](const std::vector<uint32_t> &c) {
            for (int t = 0; t < tries; t++) { execs++; if (run_case(pr, ms, 0, &c, errfd) == FAILED) return true; }
            return false; };
        auto accept = [&](const std::vector<uint32_t> &c) {
            if (now() - ts > lim || execs > 6000) return false;
            if (!fails(c)) return false;
            cur.assign(ms->choices, ms->choices + nch(ms)); msg = ms->msg; desc = ms->desc;
            return true; };
        if (msg.find("CPU limit") != std::string::npos) lim = 0;   // too slow to shrink
        bool progress = true;
        while (progress && now() - ts < lim && execs < 6000)
        {
            progress = false;
            for (size_t len = std::max<size_t>(1, cur.size() / 2); len >= 1; len = len / 2)
            {
                for (size_t a = 0; a + len <= cur.size() && now() - ts < lim;)
                {
                    std::vector<uint32_t> c(cur); c.erase(c.begin() + a, c.begin() + a + len);
                    if (c.size() < cur.size() && accept(c)) { progress = true; continue; }
                    bool nz = false; c = cur; for (size_t k = a; k < a + len; k++) { nz |= c[k] != 0; c[k] = 0; }
                    if (nz && accept(c)) { progress = true; }
                    a += len;
                }
                if (len == 1) break;
            }
            for (size_t a = 0; a < cur.size() && now() - ts < lim; a++)
            {
                uint32_t lo = 0;
                while (a < cur.size() && lo < cur[a] && now() - ts < lim)
                {
                    uint32_t mid = lo + (cur[a] - lo) / 2; std::vector<uint32_t> c(cur); c[a] = mid; uint32_t before = cur[a];
                    if (accept(c)) { progress = true; if (a < cur.size() && cur[a] >= before) break; } else lo = mid + 1;
                }
            }
        }
        int again = 0; int rep = flaky ? 20 : 3; for (int k = 0; k < rep; k++) again += run_case(pr, ms, 0, &cur, errfd) == FAILED;
        if (again == 0 || (!flaky && again < 3))
        {   // shrunk case unstable: go back to the original
            int ok = 0; for (int k = 0; k < 12; k++) ok += run_case(pr, ms, mix64(mix64(seed, std::hash<std::string>()(prop)), i), nullptr, errfd) == FAILED;
            if (ok < 2) { unrepro++; continue; }
            cur.assign(ms->choices, ms->choices + nch(ms));
        }
        char path[512]; snprintf(path, sizeof path, "%s/%s-%s-%llu-%ld.replay", replay_dir.c_str(), prop.c_str(), pr.sub.c_str(), (unsigned long long) seed, i);
        FILE *f = fopen(path, "w");
        if (f) { fprintf(f, "property %s sub %s choices", prop.c_str(), pr.sub.c_str()); for (auto v : cur) fprintf(f, " %u", v); fprintf(f, "\n# case: %s\n# message: %s\n", desc.c_str(), msg.c_str()); fclose(f); }
        if (nviol) vjson += ",";
        vjson += "{\"replay\":\"" + jesc(path) + "\",\"sub\":\"" + pr.sub + "\",\"message\":\"" + jesc(msg) + "\",\"case\":\"" + jesc(desc) + "\",\"shrink_execs\":" + std::to_string(execs) + "}";
        nviol++;
    }
    FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(f, "{\"evaluations\":%ld,\"skipped\":%ld,\"distinct_nontrivial\":%zu,\"unreproduced\":%ld,\"wall\":%.2f,\"violations\":[%s],\"samples\":[", evals, skipped, distinct.size(), unrepro, now() - t0, vjson.c_str());
    for (size_t k = 0; k < samples.size(); k++) fprintf(f, "%s\"%s\"", k ? "," : "", jesc(samples[k]).c_str());
    fprintf(f, "],\"labels\":{"); bool first = true; for (auto &l : labels) { fprintf(f, "%s\"%s\":%ld", first ? "" : ",", jesc(l.first).c_str(), l.second); first = false; }
    fprintf(f, "}}\n"); if (f != stdout) fclose(f);
    return nviol ? 10 : 0;
}
