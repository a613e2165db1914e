#include "mc.hpp"

#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <map>
#include <set>

namespace mc {

int  tier = 0;
bool replaying = false;

static const int MAX_TRACE = 1 << 14;
static const int MAX_WORKERS = 64;
static const size_t TABLE = 1 << 23;

struct WorkerShm {
    std::atomic<uint64_t> execs, steps, choices, validated, nontrivial, maxdepth;
    std::atomic<int> status;  // 0 running, 1 done, 2 fail, 3 broken
    std::atomic<int> len;
    uint16_t trace[MAX_TRACE];
    uint16_t arity[MAX_TRACE];
    char msg[8192];
    char notes[1 << 16];
    std::atomic<int> noteslen;
    char sample[4][4096];
};
struct Shm {
    std::atomic<uint64_t> distinct;
    std::atomic<uint64_t> table_full;
    std::atomic<uint64_t> knownhits[32];
    WorkerShm w[MAX_WORKERS];
    std::atomic<uint64_t> table[TABLE];
};
static Shm* shm;
static WorkerShm* me;
static int  my_index, n_workers;
static size_t pos;
static std::vector<uint16_t> path, arities;
static std::vector<std::string> whats;
static size_t replay_fixed;
static int split_depth;
static std::vector<std::string> known_keys;
static std::string replay_notes;

static void vnote(const char* pre, const char* fmt, va_list ap) {
    char line[2048];
    int k = snprintf(line, sizeof(line), "%s", pre);
    vsnprintf(line + k, sizeof(line) - k, fmt, ap);
    size_t n = strlen(line);
    if (replaying) { fprintf(stderr, "%s\n", line); }
    int at = me->noteslen.load(std::memory_order_relaxed);
    if (at + (int) n + 2 < (int) sizeof(me->notes)) {
        memcpy(me->notes + at, line, n);
        me->notes[at + n] = '\n';
        me->notes[at + n + 1] = 0;
        me->noteslen.store(at + n + 1, std::memory_order_relaxed);
    }
}

static bool want_notes;
void note(const char* fmt, ...) {
    if (!want_notes) return;
    va_list ap; va_start(ap, fmt); vnote("", fmt, ap); va_end(ap);
}

int choose(int n, const char* what) {
    if (n <= 0) broken("choose(%d) at %s", n, what);
    if (n == 1) return 0;
    size_t i = pos++;
    if (i >= (size_t) MAX_TRACE) broken("trace too long at %s", what);
    if (i < path.size()) {
        if (arities[i] != n && arities[i] != 0)
            broken("nondeterministic replay: choice %zu (%s) had %d alternatives, now %d", i, what, arities[i], n);
        arities[i] = n;
        if (path[i] >= n) broken("replay choice %zu out of range", i);
    } else {
        path.push_back(0);
        arities.push_back(n);
    }
    me->trace[i] = path[i];
    me->arity[i] = n;
    me->len.store((int) i + 1, std::memory_order_relaxed);
    me->choices.fetch_add(1, std::memory_order_relaxed);
    if (replaying) fprintf(stderr, "  [choice %zu] %s -> %d of %d\n", i, what, path[i], n);
    return path[i];
}

void fail(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vsnprintf(me->msg, sizeof(me->msg), fmt, ap);
    va_end(ap);
    me->status = 2;
    if (replaying) fprintf(stderr, "VIOLATED: %s\n", me->msg);
    _exit(42);
}
void broken(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vsnprintf(me->msg, sizeof(me->msg), fmt, ap);
    va_end(ap);
    me->status = 3;
    if (replaying) fprintf(stderr, "HARNESS BROKEN: %s\n", me->msg);
    _exit(43);
}
void step(uint64_t n) { me->steps.fetch_add(n, std::memory_order_relaxed); }
void validated(uint64_t n) { me->validated.fetch_add(n, std::memory_order_relaxed); }
static bool nt_flag;
void nontrivial() { nt_flag = true; }

uint64_t hash_bytes(const void* p, size_t n, uint64_t h) {
    const unsigned char* c = (const unsigned char*) p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
    h ^= n; h *= 1099511628211ULL;
    return h;
}
static uint64_t state_salt;
void state(uint64_t h) {
    h += state_salt;
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 32;
    if (!h) h = 1;
    size_t i = h & (TABLE - 1);
    for (int probe = 0; probe < 64; ++probe, i = (i + 1) & (TABLE - 1)) {
        uint64_t v = shm->table[i].load(std::memory_order_relaxed);
        if (v == h) return;
        if (v == 0) {
            if (shm->table[i].compare_exchange_strong(v, h)) { shm->distinct++; return; }
            if (v == h) return;
        }
    }
    shm->table_full++;
}

std::string hex(const void* p, size_t n) {
    static const char* d = "0123456789abcdef";
    std::string s;
    for (size_t i = 0; i < n; ++i) { s += d[((const uint8_t*) p)[i] >> 4]; s += d[((const uint8_t*) p)[i] & 15]; }
    return s;
}
std::string quote(const std::string& in) {
    std::string s = "\"";
    for (unsigned char c : in) {
        char t[8];
        if (c == '\n') s += "\\n";
        else if (c == '\r') s += "\\r";
        else if (c == '"' || c == '\\') { s += '\\'; s += c; }
        else if (c < 32 || c > 126) { snprintf(t, sizeof t, "\\x%02x", c); s += t; }
        else s += c;
    }
    return s + "\"";
}

bool known(const char* key) {
    for (size_t i = 0; i < known_keys.size() && i < 32; ++i)
        if (known_keys[i] == key) { shm->knownhits[i]++; return true; }
    return false;
}

static std::string json_str(const std::string& in) {
    std::string s = "\"";
    for (unsigned char c : in) {
        char t[8];
        if (c == '"' || c == '\\') { s += '\\'; s += c; }
        else if (c == '\n') s += "\\n";
        else if (c < 32 || c > 126) { snprintf(t, sizeof t, "\\u%04x", c); s += t; }
        else s += c;
    }
    return s + "\"";
}

static bool mine() {
    // ownership decided by the first split_depth choices
    uint64_t h = 88172645463325252ULL;
    size_t d = std::min((size_t) split_depth, path.size());
    for (size_t i = 0; i < d; ++i) { h = h * 6364136223846793005ULL + path[i] + 1442695040888963407ULL; }
    h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33;
    return (int) (h % n_workers) == my_index;
}

static void begin_exec() {
    pos = 0;
    nt_flag = false;
    me->len = 0;
    me->noteslen = 0;
    me->notes[0] = 0;
}

// What is still allocated after an execution must not grow when the same
// execution happens again and again in the same process.
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" void __sanitizer_symbolize_pc(void*, const char*, char*, size_t);
struct Kept { const volatile void* p; size_t n; void* pc[14]; int k; };
static Kept kept_mem[1 << 14]; static int n_kept; static bool track_new, track_busy;
static void on_malloc(const volatile void* p, size_t n) {
    if (!track_new || track_busy || n_kept >= (1 << 14)) return;
    track_busy = true; Kept& e = kept_mem[n_kept++]; e.p = p; e.n = n; e.k = backtrace(e.pc, 14); track_busy = false;
}
static void on_free(const volatile void* p) { for (int i = n_kept - 1; i >= 0; --i) if (kept_mem[i].p == p) { kept_mem[i] = kept_mem[--n_kept]; return; } }
// who allocated what one more execution leaves behind
static void report_kept(const std::function<void()>& once) {
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    track_new = true; once(); track_new = false;
    for (int i = 0; i < 4; ++i) once();
    want_notes = true;
    for (int i = 0; i < n_kept && i < 8; ++i) {
        note("%zu bytes allocated at", kept_mem[i].n);
        for (int j = 1; j < kept_mem[i].k; ++j) { char b[512]; __sanitizer_symbolize_pc((char*) kept_mem[i].pc[j] - 1, "%f %S", b, sizeof b); b[160] = 0; if (!strstr(b, "sanitizer") && !strstr(b, "__asan") && !strstr(b, "mc.cpp")) note("    %s", b); }
    }
}
static void again(const Scenario& sc) {
    int kept = want_notes; want_notes = replaying;
    auto once = [&] {
        size_t len = path.size();
        pos = 0; bool nt = nt_flag; sc.body(); nt_flag = nt;
        if (pos != len || path.size() != len) broken("repeating an execution took %zu instead of %zu choices", pos, len);
        return __sanitizer_get_current_allocated_bytes();
    };
    size_t first = once(), last = first; int n = 0, growing = 0;
    for (; n < 12; ++n) {
        size_t b = once();
        if (b <= last) break;
        growing++; last = b;
    }
    if (growing == 12) report_kept([&] { once(); });
    if (growing == 12) fail("%zu bytes stay behind every time this happens", (last - first) / 12);
    validated(); want_notes = kept;
}

static void worker(const Scenario& sc) {
    path.clear(); arities.clear();
    if (sc.init) sc.init();
    split_depth = sc.split;
    for (;;) {
        begin_exec();
        {
            uint64_t e = me->execs.load(std::memory_order_relaxed);
            want_notes = e == 0 || e == 37 || e == 1501 || e == 40009;
        }
        // Is the prefix known to be somebody else's? (only once it is complete)
        bool skip_known = path.size() >= (size_t) split_depth && !mine();
        if (!skip_known) {
            sc.body();
            if (pos < path.size()) broken("nondeterministic replay: execution ended after %zu of %zu choices", pos, path.size());
            if (mine()) {
                uint64_t e = me->execs.fetch_add(1, std::memory_order_relaxed);
                if (want_notes) {
                    int k = e == 0 ? 0 : e == 37 ? 1 : e == 1501 ? 2 : 3;
                    snprintf(me->sample[k], sizeof me->sample[k], "%s", me->notes);
                }
                if (sc.repeat || getenv("MC_REPEAT")) again(sc);
                if (nt_flag) me->nontrivial.fetch_add(1, std::memory_order_relaxed);
                if (pos > me->maxdepth) me->maxdepth = pos;
            } else if (path.size() > (size_t) split_depth) {
                path.resize(split_depth); arities.resize(split_depth);
            }
        }
        while (!path.empty() && path.back() + 1 >= arities.back()) { path.pop_back(); arities.pop_back(); }
        if (path.empty()) break;
        path.back()++;
    }
    me->status = 1;
    _exit(0);
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

static double cpu_of(pid_t p) {
    char f[64]; snprintf(f, sizeof f, "/proc/%d/stat", p);
    FILE* h = fopen(f, "r"); if (!h) return -1;
    char buf[1024]; size_t n = fread(buf, 1, sizeof buf - 1, h); buf[n] = 0; fclose(h);
    char* q = strrchr(buf, ')'); if (!q) return -1;
    unsigned long u = 0, s = 0;
    sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &u, &s);
    return (double) (u + s) / sysconf(_SC_CLK_TCK);
}

static std::string slurp(const std::string& f) {
    FILE* h = fopen(f.c_str(), "r"); if (!h) return "";
    std::string s; char b[4096]; size_t n;
    while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n);
    fclose(h); return s;
}

int run(int argc, char** argv, const char* property, std::vector<Scenario> scs) {
    std::string out, replay_out, replay_scn, tmpdir = "/tmp";
    std::vector<uint16_t> replay_trace;
    std::string only;
    int workers = 8;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--tier") tier = next() == "thorough";
        else if (a == "--out") out = next();
        else if (a == "--replay-out") replay_out = next();
        else if (a == "--tmp") tmpdir = next();
        else if (a == "--workers") workers = atoi(next().c_str());
        else if (a == "--only") only = next();
        else if (a == "--known") known_keys.push_back(next());
        else if (a == "--replay") {
            replay_scn = next();
            std::string t = next();
            for (char* p = &t[0]; *p;) { replay_trace.push_back(strtol(p, &p, 10)); while (*p == ',') ++p; }
            replaying = true;
        }
    }
    if (workers > MAX_WORKERS) workers = MAX_WORKERS;
    shm = (Shm*) mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    me = &shm->w[0];
    if (replaying) {
        want_notes = true;
        for (auto& sc : scs) if (sc.name == replay_scn) {
            path = replay_trace; arities.assign(path.size(), 0);
            begin_exec();
            if (sc.init) sc.init();
            sc.body();
            if (sc.repeat || getenv("MC_REPEAT")) again(sc);
            fprintf(stderr, "execution finished without violation\n");
            return 0;
        }
        fprintf(stderr, "no scenario %s\n", replay_scn.c_str());
        return 2;
    }
    struct Res { std::string name, bound; uint64_t execs, steps, choices, validated, nontrivial, maxdepth, distinct; double wall; std::vector<std::string> samples; };
    std::vector<Res> results;
    std::string viol, vscn, vtrace, vnotes, vkind;
    bool bad = false;
    double t0 = now();
    for (auto& sc : scs) {
        if (sc.thorough_only && !tier) continue;
        if (!only.empty() && sc.name != only) continue;
        double s0 = now();
        uint64_t d0 = shm->distinct;
        state_salt = hash_bytes(sc.name.data(), sc.name.size());
        n_workers = workers;
        std::vector<pid_t> pids(workers, 0);
        std::vector<double> last_cpu(workers, 0);
        std::vector<uint64_t> last_exec(workers, 0);
        fflush(stdout); fflush(stderr);
        for (int w = 0; w < workers; ++w) {
            memset((void*) &shm->w[w], 0, offsetof(WorkerShm, trace));
            memset(shm->w[w].sample, 0, sizeof shm->w[w].sample);
            shm->w[w].msg[0] = 0; shm->w[w].notes[0] = 0; shm->w[w].noteslen = 0;
            pid_t p = fork();
            if (p == 0) {
                me = &shm->w[w]; my_index = w;
                std::string ef = tmpdir + "/w" + std::to_string(w) + ".err";
                int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
                if (fd >= 0) { dup2(fd, 2); close(fd); }
                fd = open("/dev/null", O_RDWR);
                dup2(fd, 1); dup2(fd, 0); close(fd);
                rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
                worker(sc);
            }
            pids[w] = p;
        }
        int left = workers;
        while (left > 0) {
            int st = 0;
            pid_t p = waitpid(-1, &st, WNOHANG);
            if (p == 0) {
                usleep(20000);
                static int tick; if (++tick % 100) continue;
                for (int w = 0; w < workers; ++w) if (pids[w] > 0) {
                    double c = cpu_of(pids[w]);
                    uint64_t e = shm->w[w].execs + shm->w[w].choices + shm->w[w].steps;
                    if (e != last_exec[w]) { last_exec[w] = e; last_cpu[w] = c; }
                    else if (c - last_cpu[w] > 60 && viol.empty()) {
                        viol = "execution does not terminate (60 CPU seconds without progress)"; vkind = "hang";
                        vscn = sc.name;
                        for (int i = 0; i < shm->w[w].len; ++i) vtrace += (i ? "," : "") + std::to_string(shm->w[w].trace[i]);
                        vnotes = shm->w[w].notes;
                        for (pid_t q : pids) if (q > 0) kill(q, SIGKILL);
                    }
                }
                continue;
            }
            if (p < 0) break;
            int w = -1;
            for (int k = 0; k < workers; ++k) if (pids[k] == p) w = k;
            if (w < 0) continue;
            pids[w] = -1; --left;
            WorkerShm& ws = shm->w[w];
            if (ws.status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            if (!viol.empty() || bad) continue;
            std::string err = slurp(tmpdir + "/w" + std::to_string(w) + ".err");
            if (err.size() > 6000) err = err.substr(0, 6000);
            vscn = sc.name;
            for (int i = 0; i < ws.len; ++i) vtrace += (i ? "," : "") + std::to_string(ws.trace[i]);
            vnotes = ws.notes;
            if (ws.status == 2) { viol = ws.msg; vkind = "check"; }
            else if (ws.status == 3) { bad = true; viol = std::string("harness: ") + ws.msg; vkind = "broken"; }
            else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { bad = true; viol = "worker was killed (memory?)"; vkind = "broken"; }
            else {
                vkind = "crash";
                viol = "the code under test crashed (";
                viol += WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st));
                viol += ")";
                size_t at = err.find("ERROR: AddressSanitizer");
                size_t ub = err.find("runtime error:");
                if (at == std::string::npos) at = ub;
                if (at != std::string::npos) viol += " " + err.substr(at, err.find('\n', at) - at);
                else { size_t as = err.find("Assertion"); if (as != std::string::npos) viol += " " + err.substr(as, err.find('\n', as) - as); }
                vnotes += "\n--- stderr ---\n" + err;
            }
            for (pid_t q : pids) if (q > 0) kill(q, SIGKILL);
        }
        Res r{sc.name, sc.bound, 0, 0, 0, 0, 0, 0, shm->distinct - d0, now() - s0, {}};
        for (int k = 0; k < 4; ++k)
            for (int w = (k + 1) % workers, j = 0; j < workers; ++j, w = (w + 1) % workers)
                if (shm->w[w].sample[k][0]) { r.samples.push_back(shm->w[w].sample[k]); break; }
        for (int w = 0; w < workers; ++w) {
            r.execs += shm->w[w].execs; r.steps += shm->w[w].steps; r.choices += shm->w[w].choices;
            r.validated += shm->w[w].validated; r.nontrivial += shm->w[w].nontrivial;
            r.maxdepth = std::max<uint64_t>(r.maxdepth, shm->w[w].maxdepth);
        }
        results.push_back(r);
        fprintf(stderr, "  %-28s executions=%lu transitions=%lu validated=%lu distinct=%lu depth<=%lu %.1fs\n", sc.name.c_str(),
                r.execs, r.steps + r.choices, r.validated, r.distinct, r.maxdepth, r.wall);
        for (int w = 0; w < workers; ++w) unlink((tmpdir + "/w" + std::to_string(w) + ".err").c_str());
        if (!viol.empty()) break;
    }
    std::string js = "{\"property\":" + json_str(property) + ",\"wall_s\":" + std::to_string(now() - t0) + ",\"scenarios\":[";
    for (size_t i = 0; i < results.size(); ++i) {
        auto& r = results[i];
        js += (i ? "," : "") + std::string("{\"name\":") + json_str(r.name) + ",\"bound\":" + json_str(r.bound) +
              ",\"executions\":" + std::to_string(r.execs) + ",\"transitions\":" + std::to_string(r.steps + r.choices) +
              ",\"validated\":" + std::to_string(r.validated) + ",\"nontrivial\":" + std::to_string(r.nontrivial) +
              ",\"distinct\":" + std::to_string(r.distinct) + ",\"max_choice_depth\":" + std::to_string(r.maxdepth) +
              ",\"wall_s\":" + std::to_string(r.wall) + ",\"samples\":[";
        for (size_t k = 0; k < r.samples.size(); ++k) js += (k ? "," : "") + json_str(r.samples[k]);
        js += "]}";
    }
    js += "],\"known\":{";
    for (size_t i = 0; i < known_keys.size() && i < 32; ++i)
        js += (i ? "," : "") + json_str(known_keys[i]) + ":" + std::to_string(shm->knownhits[i]);
    js += "},\"table_full\":" + std::to_string(shm->table_full);
    if (!viol.empty())
        js += ",\"violation\":{\"kind\":" + json_str(vkind) + ",\"message\":" + json_str(viol) + ",\"scenario\":" + json_str(vscn) +
              ",\"trace\":" + json_str(vtrace) + ",\"notes\":" + json_str(vnotes) + "}";
    js += "}\n";
    if (!out.empty()) { FILE* f = fopen(out.c_str(), "w"); if (f) { fputs(js.c_str(), f); fclose(f); } }
    else fputs(js.c_str(), stdout);
    if (bad) return 3;
    return viol.empty() ? 0 : 1;
}

}  // namespace mc
