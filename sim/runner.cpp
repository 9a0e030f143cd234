// Search, replay, minimisation and evidence.
#include "core.hpp"
#include "shm.hpp"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:exitcode=66:abort_on_error=0:handle_abort=0:allocator_may_return_null=1:"
           "detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=4:"
           "detect_odr_violation=0:print_legend=0:symbolize=1:allocator_release_to_os_interval_ms=-1";
}

namespace sim { void on_memory_error(); }
extern "C" void __asan_on_error() { sim::on_memory_error(); }

namespace sim {
Channel* shm_chan = nullptr;
ShmFacade* shm = nullptr;
Shared* shared = nullptr;
uint32_t num_guards = 0;

using Clock = std::chrono::steady_clock;
static double secs(Clock::time_point a) { return std::chrono::duration<double>(Clock::now() - a).count(); }

static void* map_shared(size_t n)
{
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return p;
}
static void attach(Channel* c)
{
    alignas(ShmFacade) static char buf[sizeof(ShmFacade)];
    shm_chan = c;
    shm = new (buf) ShmFacade{shared->cov, c->tape_len, c->final_hash};
}
std::atomic<uint64_t>* shm_stat(const char* name)
{
    uint64_t h = 1469598103934665603ull;
    for (const char* p = name; *p; ++p) { h ^= (unsigned char)*p; h *= 1099511628211ull; }
    if (!h) h = 1;
    for (uint32_t i = (uint32_t)(h % max_stats), k = 0; k < max_stats; ++k, i = (i + 1) % max_stats) {
        uint64_t e = shared->stats[i].key.load();
        if (e == 0) {
            if (shared->stats[i].key.compare_exchange_strong(e, h)) {
                snprintf(shared->stats[i].name, sizeof shared->stats[i].name, "%s", name);
                return &shared->stats[i].val;
            }
        }
        if (e == h) return &shared->stats[i].val;
    }
    fprintf(stderr, "too many statistics\n"); abort();
}
void shm_distinct(int s, uint64_t h)
{
    if (!h) h = 1;
    constexpr uint64_t mask = (1ull << set_bits) - 1;
    if (shared->set_count[s].load(std::memory_order_relaxed) > mask - mask / 8) return; // full: lower bound
    for (uint64_t i = h & mask;; i = (i + 1) & mask) {
        uint64_t e = shared->sets[s][i].load(std::memory_order_relaxed);
        if (e == h) return;
        if (e == 0 && shared->sets[s][i].compare_exchange_strong(e, h)) { shared->set_count[s]++; return; }
        if (e == h) return;
    }
}
void shm_set_violation(const char* cls, const char* msg)
{
    shm_chan->violated = 1;
    snprintf(shm_chan->vclass, sizeof shm_chan->vclass, "%s", cls);
    snprintf(shm_chan->vmsg, sizeof shm_chan->vmsg, "%s", msg);
}
void shm_set_trace(const std::string& t)
{
    uint32_t n = (uint32_t)std::min<size_t>(t.size(), trace_cap);
    memcpy(shm_chan->trace, t.data(), n);
    shm_chan->trace_len = n;
}

static uint64_t g_seed = 1;
static bool g_quiet = false;   // memory errors are recorded without a report

extern "C" const char* __asan_get_report_description();
void on_memory_error()
{
    in_sim = 1;
    if (cur && shm) shm->final_hash = cur->hash;
    if (!g_quiet || !shm_chan) return;
    char cls[64];
    snprintf(cls, sizeof cls, "memory_error:%s", __asan_get_report_description());
    if (!shm_chan->violated) shm_set_violation(cls, "");
    _exit(exit_violation);
}

// ------------------------------------------------------------ one run -----
struct Source { bool fresh; uint64_t index; const std::vector<uint32_t>* tape; };

// Executes one run in this process. Returns true if a violation was recorded.
static bool execute(const Source& s, bool verbose, bool sample, std::string* sample_out,
                    uint32_t* store, uint32_t cap)
{
    Run r;
    r.verbose = verbose; r.want_sample = sample;
    if (s.fresh) r.tape.start_fresh(mix(mix(g_seed, 0x5745u), s.index), store, cap);
    else r.tape.start_replay(s.tape->data(), (uint32_t)s.tape->size(), store, cap);
    cur = &r;
    shm->tape_len.store(0);
    r.steps_at_start = steps;
    step_limit = steps + 400'000'000ull; step_limit_what = "whole run";
    in_sim = 0;
    try { property.run(r); }
    catch (const std::exception& e) { violate("exception_escaped", "a std::exception escaped from the run: %s", e.what()); }
    catch (...) { violate("exception_escaped", "an exception escaped from the run"); }
    step_limit = ~0ull;
    AllocWatch::end();
    in_sim = 1;
    for (auto it = r.cleanups.rbegin(); it != r.cleanups.rend(); ++it) it->first(it->second);
    for (void* p : r.arena) free(p);
    in_sim = 0;
    shm->final_hash = r.hash;
    shared->runs_done++;
    shared->steps_done += steps - r.steps_at_start;
    if (r.nontrivial) { shared->nontrivial++; shm_distinct(set_runs, r.hash); if (r.shape) shm_distinct(set_shapes, r.shape); }
    if (sample_out) *sample_out = r.trace;
    bool v = r.violated;
    cur = nullptr;
    return v;
}

static void child_limits()
{
    struct rlimit rl{120, 130};
    setrlimit(RLIMIT_CPU, &rl);
    rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
}
static void redirect_stderr(const char* path)
{
    int fd = open(path, O_CREAT | O_WRONLY | O_TRUNC, 0644);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
}
static std::string status_class(int st, const std::string& err)
{
    auto has = [&](const char* s) { return err.find(s) != std::string::npos; };
    if (WIFEXITED(st)) {
        int c = WEXITSTATUS(st);
        if (c == 0) return "";
        if (c == exit_violation) return "violation";
        if (c == 66) {
            size_t p = err.find("AddressSanitizer: ");
            if (p != std::string::npos) {
                p += 18; size_t e = err.find_first_of(" \n", p);
                return "memory_error:" + err.substr(p, e - p);
            }
            return "memory_error";
        }
        return "exit:" + std::to_string(c);
    }
    if (WIFSIGNALED(st)) {
        int s = WTERMSIG(st);
        if (s == SIGABRT && has("Assertion")) return "assertion_failed";
        if (s == SIGABRT && has("terminate called")) return "std_terminate";
        if (s == SIGXCPU || s == SIGKILL) return "hang";
        return std::string("signal:") + std::to_string(s);
    }
    return "unknown";
}
static std::string slurp(const std::string& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }

static std::string g_scratch;

struct Outcome { std::string cls, msg, trace, err; uint64_t hash = 0; std::vector<std::vector<uint32_t>> tapes; bool bad() const { return !cls.empty(); } };

// Executes a history (list of runs) in a fresh process; the violation, if any,
// must occur in the last run of the history for the outcome to be bad.
static Outcome exec_history(const std::vector<Source>& h, bool verbose, Channel* ch, bool any_position = false)
{
    Outcome o;
    ch->violated = 0; ch->vclass[0] = ch->vmsg[0] = 0; ch->trace_len = 0; ch->final_hash = 0; ch->run_index = 0;
    std::string errf = g_scratch + "/x" + std::to_string(getpid()) + ".err";
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        child_limits(); redirect_stderr(errf.c_str());
        attach(ch);
        g_quiet = !verbose;
        for (size_t i = 0; i < h.size(); ++i) {
            ch->run_index = i;
            ch->tape_len = 0;
            bool last = i + 1 == h.size();
            bool v = execute(h[i], verbose && last, false, nullptr, ch->tape, max_tape);
            if (v) _exit(last || any_position ? exit_violation : 78);
        }
        _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    std::string err = slurp(errf);
    unlink(errf.c_str());
    bool in_last = ch->run_index == h.size() - 1;
    std::string c = status_class(st, err);
    if (c.empty() || c == "exit:78" || (!in_last && !any_position)) return o;
    if (ch->violated) { o.cls = ch->vclass; o.msg = ch->vmsg; }
    else { o.cls = c; o.msg = err.substr(0, 1500); }
    o.err = err; o.hash = ch->final_hash;
    o.trace.assign(ch->trace, ch->trace_len);
    o.tapes.push_back(std::vector<uint32_t>(ch->tape, ch->tape + ch->tape_len.load()));
    return o;
}

// ------------------------------------------------------------- shrink -----
static std::vector<Source> as_sources(const std::vector<std::vector<uint32_t>>& ts)
{
    std::vector<Source> v;
    for (auto& t : ts) v.push_back({false, 0, &t});
    return v;
}
static size_t shrink(std::vector<std::vector<uint32_t>>& hist, const std::string& cls, Channel* ch, double budget)
{
    auto t0 = Clock::now();
    size_t tries = 0;
    auto still = [&](const std::vector<std::vector<uint32_t>>& h) {
        ++tries;
        Outcome o = exec_history(as_sources(h), false, ch);
        return o.cls == cls;
    };
    auto left = [&] { return secs(t0) < budget; };
    // drop whole runs first
    for (size_t step = hist.size() / 2; step >= 1 && hist.size() > 1 && left(); step /= 2)
        for (size_t i = 0; i + step < hist.size() && left();) {
            auto h = hist; h.erase(h.begin() + i, h.begin() + i + step);
            if (still(h)) hist = h; else i += step;
        }
    for (size_t k = hist.size(); k-- > 0 && left();) {
        bool progress = true;
        while (progress && left()) {
            progress = false;
            auto& T = hist[k];
            for (size_t n : {T.size() / 2, T.size() / 4, T.size() / 8, (size_t)1}) {       // cut the tail
                while (n && T.size() >= n && left()) {
                    auto h = hist; h[k].resize(T.size() - n);
                    if (still(h)) { hist = h; progress = true; } else break;
                }
            }
            for (size_t n : {(size_t)16, (size_t)8, (size_t)4, (size_t)2, (size_t)1})      // delete blocks
                for (size_t i = hist[k].size(); i-- > 0 && left();) {
                    if (i + n > hist[k].size()) continue;
                    auto h = hist; h[k].erase(h[k].begin() + i, h[k].begin() + i + n);
                    if (still(h)) { hist = h; progress = true; }
                }
            for (size_t i = 0; i < hist[k].size() && left(); ++i) {                        // lower values
                if (!hist[k][i]) continue;
                auto h = hist; h[k][i] = 0;
                if (still(h)) { hist = h; progress = true; continue; }
                uint32_t lo = 0, hi = hist[k][i];
                while (hi - lo > 1 && left()) {
                    uint32_t mid = lo + (hi - lo) / 2;
                    h[k][i] = mid;
                    if (still(h)) { hi = mid; } else lo = mid;
                }
                if (hi != hist[k][i]) { hist[k][i] = hi; progress = true; }
            }
        }
    }
    return tries;
}

// ------------------------------------------------------------- replay -----
static void write_replay(const std::string& path, const Outcome& o, uint64_t index,
                         const std::vector<std::vector<uint32_t>>& hist, bool minimised)
{
    std::ofstream f(path);
    f << "strf-sim-replay 1\nproperty " << property.id << "\nseed " << g_seed << "\nrun " << index
      << "\nminimised " << (minimised ? 1 : 0)
      << "\nclass " << o.cls << "\nhash " << o.hash << "\nruns " << hist.size() << "\n";
    for (auto& t : hist) { f << "tape " << t.size(); for (auto v : t) f << ' ' << v; f << "\n"; }
    f << "message " << o.msg << "\ntrace of the last run (events in simulated order):\n" << o.trace;
    if (!o.err.empty()) f << "stderr of the process:\n" << o.err.substr(0, 6000) << "\n";
}
static bool read_replay(const std::string& path, std::vector<std::vector<uint32_t>>& hist, std::string& cls, uint64_t& hash)
{
    std::ifstream f(path);
    std::string line, prop;
    while (std::getline(f, line)) {
        std::istringstream s(line); std::string k; s >> k;
        if (k == "property") s >> prop;
        else if (k == "seed") s >> g_seed;
        else if (k == "class") s >> cls;
        else if (k == "hash") s >> hash;
        else if (k == "tape") { size_t n; s >> n; std::vector<uint32_t> t(n); for (auto& v : t) s >> v; hist.push_back(t); }
        else if (k == "message") break;
    }
    return prop == property.id && !hist.empty();
}

// ------------------------------------------------------------ evidence ----
static std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}

struct Known { std::string cls, needle, text; };

int main_impl(int argc, char** argv)
{
    std::string tier = "quick", evidence, replay_in, replay_dir = ".", known_file;
    uint64_t runs = 0; int jobs = 0; double limit = 0; bool keep_going = false, hashes = false;
    uint64_t one = ~0ull;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") g_seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--tier") tier = val();
        else if (a == "--evidence") evidence = val();
        else if (a == "--replay") replay_in = val();
        else if (a == "--replay-dir") replay_dir = val();
        else if (a == "--known") known_file = val();
        else if (a == "--runs") runs = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--jobs") jobs = atoi(val().c_str());
        else if (a == "--time-limit") limit = atof(val().c_str());
        else if (a == "--run") one = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--keep-going") keep_going = true;
        else if (a == "--hashes") hashes = true;   // determinism self-test: one hash per run on stdout
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    auto absolute = [](std::string& p) {
        if (p.empty() || p[0] == '/') return;
        char b[4096]; if (getcwd(b, sizeof b)) p = std::string(b) + "/" + p;
    };
    absolute(evidence); absolute(replay_in); absolute(replay_dir); absolute(known_file);
    char tmpl[] = "/tmp/strf-sim-XXXXXX";
    if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
    g_scratch = tmpl;
    struct Clean { ~Clean() { if (g_scratch.size() > 10) { std::string c = "rm -rf -- '" + g_scratch + "'"; if (system(c.c_str())) {} } } } clean;
    if (chdir(tmpl) != 0) return 2;   // anything the code under test writes by a relative name stays here

    shared = static_cast<Shared*>(map_shared(sizeof(Shared)));
    shared->first_bad = ~0ull;
    Channel* ch = static_cast<Channel*>(map_shared(sizeof(Channel)));
    attach(ch);

    if (!replay_in.empty()) {
        std::vector<std::vector<uint32_t>> hist; std::string cls; uint64_t hash = 0;
        if (!read_replay(replay_in, hist, cls, hash)) { fprintf(stderr, "not a replay file of %s\n", property.id); return 2; }
        Outcome o = exec_history(as_sources(hist), true, ch);
        printf("%s", o.trace.c_str());
        if (!o.err.empty()) printf("stderr of the process:\n%s\n", o.err.substr(0, 4000).c_str());
        if (!o.bad()) { printf("replay: no violation\n"); return 0; }
        printf("replay: class=%s (recorded %s) hash=%llu (recorded %llu)%s\n%s\n", o.cls.c_str(), cls.c_str(),
               (unsigned long long)o.hash, (unsigned long long)hash,
               o.hash == hash && o.cls == cls ? " exact" : " DIFFERS", o.msg.c_str());
        printf("VIOLATION property=%s replay=%s\n", property.id, replay_in.c_str());
        return 1;
    }
    if (one != ~0ull) {
        std::vector<Source> h{{true, one, nullptr}};
        Outcome o = exec_history(h, true, ch);
        printf("%.*s", (int)ch->trace_len, ch->trace);
        printf("class=%s hash=%llu msg=%s\n", o.cls.c_str(), (unsigned long long)ch->final_hash, o.msg.c_str());
        return o.bad() ? 1 : 0;
    }

    // known findings: lines "KNOWN property=<id> class=<class> contains=<text> :: <description>"
    std::vector<Known> known; std::set<std::string> known_hit;
    if (!known_file.empty()) {
        std::ifstream f(known_file); std::string l;
        while (std::getline(f, l)) {
            std::string pre = std::string("KNOWN property=") + property.id + " class=";
            if (l.rfind(pre, 0) != 0) continue;
            Known k; size_t p = pre.size(), q = l.find(" contains=", p), r = l.find(" :: ", p);
            if (q == std::string::npos || r == std::string::npos) continue;
            k.cls = l.substr(p, q - p); k.needle = l.substr(q + 10, r - q - 10); k.text = l.substr(r + 4);
            known.push_back(k);
        }
    }
    auto is_known = [&](const std::string& cls, const std::string& msg) -> const Known* {
        for (auto& k : known) if (k.cls == cls && msg.find(k.needle) != std::string::npos) return &k;
        return nullptr;
    };

    if (!runs) runs = tier == "thorough" ? property.thorough_runs : property.quick_runs;
    if (!jobs) { jobs = (int)sysconf(_SC_NPROCESSORS_ONLN); if (jobs < 1) jobs = 1; if (jobs > 16) jobs = 16; }
    if (limit <= 0) limit = tier == "thorough" ? 3000 : 420;
    const uint32_t B = property.batch;
    const uint64_t batches = (runs + B - 1) / B;
    auto t0 = Clock::now();

    // per-batch hashes (determinism self-test)
    std::atomic<uint64_t>* bh = hashes ? static_cast<std::atomic<uint64_t>*>(map_shared(sizeof(uint64_t) * (runs + B))) : nullptr;
    struct Samples { std::atomic<uint32_t> n; char text[max_samples][3000]; };
    Samples* samples = static_cast<Samples*>(map_shared(sizeof(Samples)));
    constexpr uint32_t max_bad = 64;
    struct Bad { std::atomic<uint32_t> n; struct { uint64_t run; char cls[64]; char msg[1024]; } e[max_bad]; };
    Bad* bad = static_cast<Bad*>(map_shared(sizeof(Bad)));

    auto* known_seen = static_cast<std::atomic<uint64_t>*>(map_shared(sizeof(uint64_t) * (known.size() + 1)));

    auto one_batch = [&](uint64_t b, Channel* c, const std::string& errf) {
        c->violated = 0; c->run_index = b * B;
        pid_t p = fork();
        if (p == 0) {
            child_limits(); redirect_stderr(errf.c_str()); attach(c); g_quiet = known.empty();
            for (uint64_t i = b * B; i < (b + 1) * B && i < runs; ++i) {
                c->run_index = i;
                bool smp = i % 97 == 5 && samples->n.load() < max_samples;
                std::string text;
                bool v = execute({true, i, nullptr}, false, smp, smp ? &text : nullptr, c->tape, max_tape);
                if (bh) bh[i] = c->final_hash;
                if (smp && !text.empty()) { uint32_t k = samples->n.fetch_add(1); if (k < max_samples) snprintf(samples->text[k], 3000, "run %llu:\n%s", (unsigned long long)i, text.c_str()); }
                if (v) {
                    auto* k = is_known(c->vclass, c->vmsg);
                    if (!k) _exit(exit_violation);
                    known_seen[k - known.data()].fetch_add(1);   // a listed finding does not end the search
                    c->violated = 0;
                }
            }
            _exit(0);
        }
        int st = 0;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
        std::string err = slurp(errf), cls, msg;
        if (c->violated) { cls = c->vclass; msg = c->vmsg; } else { cls = status_class(st, err); msg = err.substr(0, 1000); }
        uint32_t k = bad->n.fetch_add(1);
        if (k < max_bad) {
            bad->e[k].run = c->run_index.load();
            snprintf(bad->e[k].cls, 64, "%s", cls.c_str());
            snprintf(bad->e[k].msg, 1024, "%s", msg.c_str());
        }
        if (!is_known(cls, msg) && !keep_going) shared->stop = 1;
    };

    std::vector<pid_t> ws;
    for (int w = 0; w < jobs; ++w) {
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            Channel* c = static_cast<Channel*>(map_shared(sizeof(Channel)));
            std::string errf = g_scratch + "/w" + std::to_string(w) + ".err";
            for (;;) {
                if (shared->stop.load() || secs(t0) > limit) break;
                uint64_t b = shared->next_batch.fetch_add(1);
                if (b >= batches) break;
                one_batch(b, c, errf);
            }
            _exit(0);
        }
        ws.push_back(p);
    }
    for (pid_t p : ws) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "a worker process died (status %d)\n", st); return 2; } }
    double search_s = secs(t0);
    if (hashes) for (uint64_t i = 0; i < runs; ++i) printf("%llu %llu\n", (unsigned long long)i, (unsigned long long)bh[i].load());

    // ------------------------------------------------------- violations ---
    int rc = 0; uint32_t n_viol = 0; size_t shrink_tries = 0;
    std::vector<uint32_t> order;
    for (uint32_t k = 0; k < std::min(bad->n.load(), max_bad); ++k) order.push_back(k);
    std::sort(order.begin(), order.end(), [&](uint32_t a, uint32_t b) { return bad->e[a].run < bad->e[b].run; });
    std::map<std::string, int> seen_cls;
    for (uint32_t k : order) {
        std::string cls = bad->e[k].cls, msg = bad->e[k].msg; uint64_t idx = bad->e[k].run;
        if (auto* kf = is_known(cls, msg)) { known_hit.insert(kf->text); continue; }
        if (keep_going) { printf("run %llu class %s: %.300s\n", (unsigned long long)idx, cls.c_str(), msg.c_str()); }
        if (rc == 1 && (!keep_going)) { ++n_viol; continue; }
        if (seen_cls[cls]++ && keep_going) { ++n_viol; continue; }
        // reproduce alone, else with the history of its process
        std::vector<Source> h{{true, idx, nullptr}};
        Outcome o = exec_history(h, false, ch);
        std::vector<std::vector<uint32_t>> hist;
        if (o.bad()) hist = o.tapes;
        else {
            std::vector<Source> hh;
            for (uint64_t i = idx / B * B; i <= idx; ++i) hh.push_back({true, i, nullptr});
            o = exec_history(hh, false, ch);
            if (!o.bad()) { fprintf(stderr, "run %llu: violation %s is not reproducible: %s\n", (unsigned long long)idx, cls.c_str(), msg.c_str()); if (rc == 0) rc = 2; continue; }
            for (uint64_t i = idx / B * B; i < idx; ++i) {   // record the tapes of the history
                std::vector<Source> s1{{true, i, nullptr}};
                exec_history(s1, false, ch);
                hist.push_back(std::vector<uint32_t>(ch->tape, ch->tape + ch->tape_len.load()));
            }
            hist.push_back(o.tapes[0]);
            if (!exec_history(as_sources(hist), false, ch).bad()) { fprintf(stderr, "run %llu: history does not replay\n", (unsigned long long)idx); if (rc == 0) rc = 2; continue; }
        }
        std::string rcls = o.cls;
        auto full = hist;
        if (!keep_going) shrink_tries += shrink(hist, rcls, ch, tier == "thorough" ? 90 : 45);
        Outcome a = exec_history(as_sources(hist), true, ch);
        Outcome b = exec_history(as_sources(hist), true, ch);
        bool minimised = true;
        if (!a.bad() || a.cls != b.cls || a.hash != b.hash) {
            hist = full; minimised = false;
            a = exec_history(as_sources(hist), true, ch);
            b = exec_history(as_sources(hist), true, ch);
            if (!a.bad() || a.cls != b.cls || a.hash != b.hash) { fprintf(stderr, "run %llu: replay is not exact\n", (unsigned long long)idx); if (rc == 0) rc = 2; continue; }
        }
        mkdir(replay_dir.c_str(), 0755);
        std::string path = replay_dir + "/" + property.id + "-seed" + std::to_string(g_seed) + "-run" + std::to_string(idx) + ".replay";
        write_replay(path, a, idx, hist, minimised);
        ++n_viol; rc = 1;
        printf("violation class=%s run=%llu: %s\n%s", a.cls.c_str(), (unsigned long long)idx, a.msg.substr(0, 1500).c_str(), a.trace.substr(0, 3000).c_str());
        printf("\nVIOLATION property=%s replay=%s\n", property.id, path.c_str());
        fflush(stdout);
    }
    for (size_t i = 0; i < known.size(); ++i) if (known_seen[i]) known_hit.insert(known[i].text);
    for (auto& k : known) if (known_hit.count(k.text)) printf("KNOWN-FINDING: property=%s %s\n", property.id, k.text.c_str());

    // --------------------------------------------------------- evidence ---
    double wall = secs(t0);
    uint64_t done = shared->runs_done.load(), covered = 0;
    for (uint32_t i = 0; i < cov_size; ++i) covered += shared->cov[i];
    if (rc == 0 && done < runs && search_s < limit * 0.9) { fprintf(stderr, "only %llu of %llu runs were executed\n", (unsigned long long)done, (unsigned long long)runs); if (known_hit.empty()) rc = 2; }
    if (!evidence.empty()) {
        std::ofstream f(evidence);
        f << "{\n \"property\": \"" << property.id << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << g_seed
          << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << done
          << ",\n  \"distinct_nontrivial\": " << shared->set_count[set_runs].load()
          << ",\n  \"rule\": " << jstr(property.rule)
          << ",\n  \"planned_runs\": " << runs
          << ",\n  \"simulated_runs_per_hour\": " << (uint64_t)(search_s > 0 ? (double)done / search_s * 3600 : 0)
          << ",\n  \"seeds_per_hour\": " << (uint64_t)(search_s > 0 ? (double)done / search_s * 3600 : 0)
          << ",\n  \"seed_rule\": \"run i uses the PRNG seeded by mix(VERIF_SEED, i); one run is one seed\""
          << ",\n  \"simulated_time_steps\": " << shared->steps_done.load()
          << ",\n  \"simulated_time_unit\": \"basic blocks of the instrumented library executed\""
          << ",\n  \"distinct_states\": " << shared->set_count[set_shapes].load()
          << ",\n  \"distinct_states_measure\": " << jstr(property.shape_name)
          << ",\n  \"distinct_suspension_sites\": " << shared->set_count[set_sites].load()
          << ",\n  \"distinct_suspension_sites_measure\": \"code locations of the library at which it was suspended by a buffer refresh, callback or preemption\""
          << ",\n  \"edges_reached\": " << covered << ",\n  \"edges_instrumented\": " << num_guards
          << ",\n  \"minimisation_executions\": " << shrink_tries
          << ",\n  \"worker_processes\": " << jobs << ",\n  \"runs_per_process_history\": " << B;
        for (int faults = 1; faults >= 0; --faults) {
            f << ",\n  \"" << (faults ? "faults_injected" : "events") << "\": {";
            std::map<std::string, uint64_t> m;
            for (auto& s : shared->stats) if (s.key.load()) { std::string n = s.name; bool isf = n.rfind("fault.", 0) == 0; if (isf == (faults == 1)) m[isf ? n.substr(6) : n] = s.val.load(); }
            bool first = true;
            for (auto& [n, v] : m) { f << (first ? "" : ", ") << jstr(n) << ": " << v; first = false; }
            f << "}";
        }
        f << ",\n  \"real_components\": " << jstr(property.real_components)
          << ",\n  \"stub_components\": " << jstr(property.stub_components)
          << ",\n  \"samples\": [";
        uint32_t ns = std::min(samples->n.load(), max_samples);
        for (uint32_t i = 0; i < ns; ++i) f << (i ? "," : "") << "\n   " << jstr(samples->text[i]);
        f << "]\n },\n \"assumptions\": [\"the compiler's instrumentation and AddressSanitizer are correct\", \"the uncut reference execution of the same build is the expected text unless a separate model is named in the rule\"],\n \"wall_s\": "
          << wall << ",\n \"violations\": " << n_viol << "\n}\n";
    }
    printf("%s %s seed=%llu: %llu runs, %llu distinct non-trivial, %llu distinct states, %llu sites, %llu/%u edges, %.1fs -> %s\n",
           property.id, tier.c_str(), (unsigned long long)g_seed, (unsigned long long)done,
           (unsigned long long)shared->set_count[set_runs].load(), (unsigned long long)shared->set_count[set_shapes].load(),
           (unsigned long long)shared->set_count[set_sites].load(), (unsigned long long)covered, num_guards, wall,
           rc == 0 ? "held" : rc == 1 ? "VIOLATED" : "error");
    return rc;
}
} // namespace sim

int main(int argc, char** argv) { return sim::main_impl(argc, argv); }
