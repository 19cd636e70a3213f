#include "core.hpp"
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <cerrno>
#include <csignal>
#include <dlfcn.h>
#include <execinfo.h>
#include <cstdlib>
#include <fcntl.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace sim
{
Run* cur = nullptr;
int g_tier = 0, g_sim_depth = 0;
uint64_t g_defbuf = 1024, g_bufcap = 0;
void (*g_io_point)() = nullptr;
bool g_fresh_thread = false;
static unsigned g_worker = 0;
static void* run_thread(void* p) { (*(std::function<void()>*)p)(); return nullptr; }
std::function<std::string()> g_export_sched;
static std::vector<World*>& worlds() { static std::vector<World*> w; return w; }
void add_world(World* w) { worlds().push_back(w); }
static World* find_world(const std::string& n)
{
    for (auto w : worlds()) if (w->name == n) return w;
    fprintf(stderr, "no such world: %s\n", n.c_str());
    _exit(3);
}

void Run::ev(const char* fmt, ...)
{
    char buf[512];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n < 0) n = 0;
    if (n >= (int)sizeof buf) n = sizeof buf - 1;
    for (int i = 0; i < n; ++i) hash = (hash ^ (unsigned char)buf[i]) * 1099511628211ULL;
    hash = (hash ^ '\n') * 1099511628211ULL;
    ++events;
    if (verbose && log.size() < (8u << 20)) { log.append(buf, n); log.push_back('\n'); }
}
void fail(const std::string& cls, const char* fmt, ...)
{
    char buf[2048];
    va_list ap; va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    throw Violation{cls, buf};
}

std::string Plan::text() const
{
    std::ostringstream o;
    o << "world " << world << "\n";
    for (auto& c : cfg) o << "cfg " << c.first << " " << c.second << "\n";
    for (auto& p : ops) {
        o << "op " << p.name;
        for (auto x : p.a) o << " " << x;
        o << "\n";
    }
    for (auto& f : faults) o << "fault " << f.kind << " " << f.at << " " << f.arg << "\n";
    if (sched_fixed) o << "schedfixed\n";
    for (auto& s : sched) o << "sw " << s.step << " " << s.to << "\n";
    return o.str();
}
Plan Plan::parse(const std::string& text)
{
    Plan p;
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string k;
        if (!(l >> k) || k[0] == '#') continue;
        if (k == "world") l >> p.world;
        else if (k == "cfg") { std::string n; int64_t v; l >> n >> v; p.cfg[n] = v; }
        else if (k == "op") { Op o; l >> o.name; int64_t v; while (l >> v) o.a.push_back(v); p.ops.push_back(o); }
        else if (k == "fault") { Fault f; l >> f.kind >> f.at >> f.arg; p.faults.push_back(f); }
        else if (k == "schedfixed") p.sched_fixed = true;
        else if (k == "sw") { Switch s; l >> s.step >> s.to; p.sched.push_back(s); }
    }
    return p;
}

// ---------------------------------------------------------------- running one plan in a child
static uint64_t run_seed(uint64_t seed, uint64_t idx) { return mix2(seed, idx); }

static std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o.push_back('\\'); o.push_back(c); }
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o.push_back(c);
    }
    return o + "\"";
}
static std::string result_json(const Run& r, const char* outcome, const std::string& cls, const std::string& msg, bool full)
{
    std::ostringstream o;
    o << "{\"outcome\":\"" << outcome << "\",\"cls\":" << jstr(cls) << ",\"msg\":" << jstr(msg)
      << ",\"hash\":\"" << std::hex << r.hash << std::dec << "\",\"events\":" << r.events
      << ",\"nontrivial\":" << (r.nontrivial ? "true" : "false") << ",\"counters\":{";
    bool first = true;
    for (auto& c : r.counters) { o << (first ? "" : ",") << jstr(c.first) << ":" << c.second; first = false; }
    o << "},\"cover\":[";
    first = true;
    for (auto c : r.cover) { o << (first ? "" : ",") << "\"" << std::hex << c << std::dec << "\""; first = false; }
    o << "]";
    if (full && g_export_sched) o << ",\"sched\":" << jstr(g_export_sched());
    o << "}";
    return o.str();
}

// Executes a plan in this process and returns its JSON.
static std::string exec_here(World* w, const Plan& p, Run& r, bool full)
{
    cur = &r;
    g_defbuf = p.get("defbuf", 1024);
    g_bufcap = p.get("bufcap", 0);
    try {
        w->exec(p, r);
        return result_json(r, "ok", "", "", full);
    } catch (Violation& v) {
        r.ev("VIOLATION %s", v.cls.c_str());
        return result_json(r, "violation", v.cls, v.msg, full);
    } catch (Discard& d) {
        return result_json(r, "discard", "discard", d.why, full);
    } catch (std::exception& e) {
        return result_json(r, "violation", "uncaught-exception", std::string("an exception escaped: ") + e.what(), full);
    } catch (...) {
        return result_json(r, "violation", "uncaught-exception", "an exception of unknown type escaped", full);
    }
}

static int g_cpu_limit = 20;
static void on_cpu(int)
{
    static const char m[] = "SIM-CPU-LIMIT\n";
    (void)!syscall(SYS_write, 2, m, sizeof m - 1);
    void* st[24];
    int n = backtrace(st, 24);
    for (int i = 0; i < n; ++i) {            // in the form of the sanitizer's traces
        Dl_info di;
        char b[128];
        int l = snprintf(b, sizeof b, "    #%d (+%#zx)\n", i, dladdr(st[i], &di) ? (size_t)((char*)st[i] - (char*)di.dli_fbase) : (size_t)0);
        (void)!syscall(SYS_write, 2, b, l);
    }
    _exit(78);
}

static Plan make_plan(World* w, uint64_t seed, uint64_t idx, int outfd)
{
    Rng rng(run_seed(seed, idx));
    Plan p = w->gen(rng);
    p.world = w->name;
    if (w->wants_dry()) {
        if (outfd >= 0) { std::string t = p.text() + "---\n"; (void)!::write(outfd, t.data(), t.size()); }
        Run dry;
        Run* save = cur;
        cur = &dry;
        g_defbuf = p.get("defbuf", 1024);
        g_bufcap = p.get("bufcap", 0);
        try { w->exec(p, dry); }
        catch (Violation& v) { cur = save; throw; }
        cur = save;
        w->place(p, rng, dry);
    }
    return p;
}

struct ChildResult { bool crashed; int code; std::string out, err; };

static ChildResult in_child(const std::function<std::string(int)>& body)
{
    int pfd[2];
    if (pipe(pfd)) { perror("pipe"); _exit(3); }
    static int errfd = -1;
    if (errfd < 0) errfd = memfd_create("err", 0);
    (void)!ftruncate(errfd, 0);
    lseek(errfd, 0, SEEK_SET);
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(3); }
    if (pid == 0) {
        close(pfd[0]);
        dup2(errfd, 2);
        signal(SIGVTALRM, on_cpu);
        itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = g_cpu_limit;
        setitimer(ITIMER_VIRTUAL, &it, nullptr);
        alarm(g_cpu_limit * 20);
        std::string s;
        if (g_fresh_thread) {
            // a thread of its own allocates from an arena of its own: addresses do not depend on earlier runs;
            // all threads of a run share one processor, as only one of them runs at a time
            cpu_set_t all, one; CPU_ZERO(&one);
            if (sched_getaffinity(0, sizeof all, &all) == 0 && CPU_COUNT(&all)) {
                unsigned k = g_worker % CPU_COUNT(&all);
                for (int c = 0; c < CPU_SETSIZE; ++c) if (CPU_ISSET(c, &all) && k-- == 0) { CPU_SET(c, &one); break; }
                (void)!sched_setaffinity(0, sizeof one, &one);
            }
            std::function<void()> f = [&]() { s = body(pfd[1]); };
            pthread_t t;
            if (pthread_create(&t, nullptr, run_thread, &f) || pthread_join(t, nullptr)) _exit(3);
        } else s = body(pfd[1]);
        size_t o = 0;
        while (o < s.size()) {
            ssize_t n = syscall(SYS_write, pfd[1], s.data() + o, s.size() - o);
            if (n <= 0) break;
            o += n;
        }
        _exit(0);
    }
    close(pfd[1]);
    ChildResult r; r.crashed = false; r.code = 0;
    char buf[65536];
    for (;;) {
        ssize_t n = read(pfd[0], buf, sizeof buf);
        if (n > 0) r.out.append(buf, n);
        else if (n == 0 || errno != EINTR) break;
    }
    close(pfd[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st)) { r.crashed = true; r.code = 1000 + WTERMSIG(st); }
    else if (WEXITSTATUS(st) != 0) { r.crashed = true; r.code = WEXITSTATUS(st); }
    if (r.crashed) {
        off_t len = lseek(errfd, 0, SEEK_END);
        if (len > 16384) len = 16384;
        r.err.resize(len);
        (void)!pread(errfd, &r.err[0], len, 0);
    }
    return r;
}
static std::string crash_class(const ChildResult& c)
{
    if (c.code == 77) return "hang";
    if (c.code == 78) return "hang";
    if (c.code == 79) return "deadlock";
    if (c.code == 3) return "harness-error";
    auto p = c.err.find("ERROR: AddressSanitizer: ");
    if (p != std::string::npos) {
        p += strlen("ERROR: AddressSanitizer: ");
        auto e = c.err.find_first_of(" \n", p);
        return "crash:" + c.err.substr(p, e - p);
    }
    if (c.code >= 1000) return std::string("crash:signal-") + std::to_string(c.code - 1000);
    return "crash:exit-" + std::to_string(c.code);
}
static std::string crash_json(const ChildResult& c)
{
    Run r;
    for (unsigned char ch : crash_class(c)) r.hash = (r.hash ^ ch) * 1099511628211ULL;
    std::string cls = crash_class(c);
    return result_json(r, cls == "harness-error" ? "error" : "violation", cls, c.err.substr(0, 3000), false);
}

// The plan of run `idx`.  If the dry run needed to place faults already fails, the plan without faults
// is returned: executing it shows that failure.
static std::string gen_text(World* w, uint64_t seed, uint64_t idx)
{
    auto r = in_child([&](int fd) {
        Run run; cur = &run;
        try { return make_plan(w, seed, idx, fd).text() + "---\n"; }
        catch (Violation&) { return std::string(); }
        catch (Discard&) { return std::string(); }
    });
    std::string last;
    size_t p = 0;
    for (;;) {
        auto q = r.out.find("---\n", p);
        if (q == std::string::npos) break;
        last = r.out.substr(p, q - p);
        p = q + 4;
    }
    if (last.empty()) { fprintf(stderr, "no plan: %s\n", r.err.c_str()); _exit(3); }
    return last;
}

static double now_s() { timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

int sim_main(int argc, char** argv)
{
    std::string mode, world, file;
    uint64_t seed = 1, first = 0, stride = 1, count = 1;
    double secs = 1e9;
    bool verbose = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nxt = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--batch" || a == "--gen") { mode = a; world = nxt(); }
        else if (a == "--replay") { mode = a; file = nxt(); }
        else if (a == "--seed") seed = strtoull(nxt().c_str(), 0, 10);
        else if (a == "--first") first = strtoull(nxt().c_str(), 0, 10);
        else if (a == "--stride") stride = strtoull(nxt().c_str(), 0, 10);
        else if (a == "--count") count = strtoull(nxt().c_str(), 0, 10);
        else if (a == "--secs") secs = atof(nxt().c_str());
        else if (a == "--cpu") g_cpu_limit = atoi(nxt().c_str());
        else if (a == "--tier") g_tier = nxt() == "thorough";
        else if (a == "-v") verbose = true;
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 3; }
    }
    g_worker = (unsigned)first;
    mallopt(M_MMAP_THRESHOLD, 1 << 20);
    if (mode == "--batch") {
        World* w = find_world(world);
        double t0 = now_s();
        for (uint64_t k = 0; k < count; ++k) {
            if (now_s() - t0 > secs) break;
            uint64_t idx = first + k * stride;
            ChildResult r;
            if (!w->wants_dry()) {
                r = in_child([&](int) {
                    Run run;
                    cur = &run;
                    return exec_here(w, make_plan(w, seed, idx, -1), run, false);
                });
            } else {
                Plan p = Plan::parse(gen_text(w, seed, idx));
                r = in_child([&](int) { Run run; return exec_here(w, p, run, false); });
            }
            std::string js = r.crashed ? crash_json(r) : r.out;
            printf("R %llu %s\n", (unsigned long long)idx, js.c_str());
            fflush(stdout);
        }
        printf("END\n");
        return 0;
    }
    if (mode == "--gen") {
        World* w = find_world(world);
        printf("%s", gen_text(w, seed, first).c_str());
        return 0;
    }
    if (mode == "--replay") {
        FILE* f = fopen(file.c_str(), "rb");
        if (!f) { perror(file.c_str()); return 3; }
        std::string t; char buf[4096]; size_t n;
        while ((n = fread(buf, 1, sizeof buf, f)) > 0) t.append(buf, n);
        fclose(f);
        Plan p = Plan::parse(t);
        World* w = find_world(p.world);
        auto r = in_child([&](int) {
            Run run; run.verbose = verbose;
            std::string js = exec_here(w, p, run, true);
            if (verbose) { (void)!syscall(SYS_write, 1, run.log.data(), run.log.size()); }
            return js;
        });
        if (verbose && r.crashed) fprintf(stderr, "%s\n", r.err.c_str());
        printf("%s\n", (r.crashed ? crash_json(r) : r.out).c_str());
        return 0;
    }
    fprintf(stderr, "usage\n");
    return 3;
}
}
// hook in int_vector_buffer.hpp (SDSL_SIM)
uint64_t sdsl_sim_buffer_size() { return sim::g_defbuf; }
uint64_t sdsl_sim_buffer_limit(uint64_t b) { return sim::g_bufcap && b > sim::g_bufcap ? sim::g_bufcap : b; }
int main(int argc, char** argv)
{
    // the same addresses in every process, where the system lets us choose
    int old = personality(0xffffffff);
    if (old != -1 && !(old & ADDR_NO_RANDOMIZE) && !getenv("SIM_ASLR")) {
        if (personality(old | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_ASLR", "1", 1); execv("/proc/self/exe", argv); }
    }
    return sim::sim_main(argc, argv);
}
