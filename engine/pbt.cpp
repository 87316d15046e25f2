#include "pbt.hpp"
#include <cstdarg>
#include <cstring>
#include <cstdlib>
#include <algorithm>
#include <fstream>
#include <set>
#include <unordered_set>
#include <chrono>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define HAVE_ASAN 1
#endif
#endif

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:detect_odr_violation=0:allocator_may_return_null=0:max_allocation_size_mb=2048:"
           "exitcode=99:handle_abort=0:print_summary=1:color=never:symbolize=0:detect_stack_use_after_return=0:"
           "quarantine_size_mb=16:max_malloc_fill_size=65536:malloc_fill_byte=190";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:color=never"; }

namespace pbt {

std::vector<Prop>& registry() { static std::vector<Prop> r; return r; }

std::string fmt(const char* f, ...)
{
    va_list a; va_start(a, f);
    char buf[4096];
    int n = vsnprintf(buf, sizeof buf, f, a);
    va_end(a);
    std::string r(buf);
    if (n >= (int)sizeof buf) r += "...";
    return r;
}

size_t live_bytes()
{
#ifdef HAVE_ASAN
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}

uint64_t hash_bytes(const void* p, size_t n, uint64_t h)
{
    const unsigned char* q = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= q[i]; h *= 1099511628211ull; }
    return h;
}

static uint64_t splitmix(uint64_t& x)
{
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

uint64_t Source::choice(uint64_t n)
{
    uint64_t v = 0;
    if (n == 1) return 0; // not recorded: nothing to decide
    if (_mode == 0) {
        v = splitmix(_state);
        if (n) v = (uint64_t)(((unsigned __int128)v * n) >> 64);
    } else if (_mode == 1) {
        v = _pos < _seq.size() ? _seq[_pos] : 0;
        _pos++;
        if (n && v >= n) v = n - 1;
    } else {
        int nb = (n == 0) ? 8 : n <= 0x100ull ? 1 : n <= 0x10000ull ? 2 : n <= 0x100000000ull ? 4 : 8;
        for (int i = 0; i < nb; i++) { v = (v << 8) | (_pos < _n ? _d[_pos] : 0); _pos++; }
        if (n) v %= n;
    }
    _rec.push_back(v);
    return v;
}

int Source::weighted(std::initializer_list<int> w)
{
    int tot = 0; for (int x : w) tot += x;
    uint64_t v = choice(tot);
    int i = 0;
    for (int x : w) { if (v < (uint64_t)x) return i; v -= x; i++; }
    return 0;
}

int Source::sized(int lo, int hi)
{
    if (hi <= lo) return lo;
    uint64_t span = (uint64_t)(hi - lo) + 1;
    switch (choice(4)) {
    case 0: return lo + (int)choice(std::min<uint64_t>(span, 3));
    case 1: return lo + (int)choice(std::min<uint64_t>(span, 8));
    case 2: return lo + (int)choice(std::max<uint64_t>(1, span / 4));
    default: return lo + (int)choice(span);
    }
}

double Source::real(double lo, double hi)
{
    switch (choice(4)) {
    case 0: { // an integer near the simplest value of the range
        double base = (lo <= 0. && hi >= 0.) ? 0. : (lo > 0. ? std::ceil(lo) : std::floor(hi));
        if (base < lo || base > hi) base = lo;
        uint64_t k = choice(9);
        double v = base + ((k & 1) ? (double)((k + 1) / 2) : -(double)(k / 2));
        if (v < lo || v > hi) v = base;
        return v;
    }
    case 1: { // a simple fraction of the range
        uint64_t den = 1 + choice(16), num = choice(den + 1);
        return lo + (hi - lo) * ((double)num / (double)den);
    }
    default: return lo + (hi - lo) * unit_closed();
    }
}

// ---------------------------------------------------------------------------------------------
// Runner
// ---------------------------------------------------------------------------------------------
static double now_s()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

static const int CPU_LIMIT_S = 20; // per case, CPU time of the child

struct Slot { volatile int64_t caseIdx; volatile int32_t inCase; volatile int32_t hang; };

struct Options {
    std::string property, tier = "quick", evidence, replayDir, known, replayFile, commandTail;
    uint64_t seed = 1; int jobs = 8; double scale = 1.0; std::string only; int64_t oneCase = -1;
    std::string fuzzInfo, mergeFuzz;
};
static Options O;
static std::string g_scratch;

static volatile Slot* g_slot = nullptr;
static void on_prof(int)
{
    if (g_slot) { ((Slot*)g_slot)->hang = 1; }
    const char m[] = "\nPBT: case exceeded its CPU limit\n";
    ssize_t r = write(2, m, sizeof m - 1); (void)r;
    _exit(98);
}
static bool g_armed = false;
static void arm_timer(int seconds)
{
    g_armed = seconds > 0;
    struct itimerval it; memset(&it, 0, sizeof it);
    it.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &it, nullptr);
}

void slow_case(int seconds) { if (g_armed) arm_timer(seconds); }
static uint64_t case_seed(const Prop& p, int64_t idx)
{
    uint64_t x = O.seed * 0x9e3779b97f4a7c15ull;
    x = hash_bytes(p.name, strlen(p.name), x ^ 1469598103934665603ull);
    x = hash_bytes(&idx, sizeof idx, x);
    return splitmix(x);
}

struct Found { // a failing case
    int prop = -1; int64_t idx = -1; std::string key, msg; std::vector<uint64_t> choices; bool crash = false;
    int64_t blockStart = 0; bool history = false;
};

struct BlockResult {
    uint64_t evals = 0, nontriv = 0;
    std::map<std::string, uint64_t> labels;
    std::vector<uint64_t> hashes;
    std::vector<Found> fails;
    std::map<std::string, uint64_t> failCount;
    std::vector<std::string> samples;
};

static std::string esc(const std::string& s)
{
    std::string r; for (char ch : s) { if (ch == '\n' || ch == '\r') r += ' '; else r += ch; } return r;
}
static std::string jesc(const std::string& s)
{
    std::string r;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; }
        else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
        else r += (char)ch;
    }
    return r;
}

static void wipe_dir(const std::string& d)
{
    DIR* dir = opendir(d.c_str());
    if (!dir) return;
    while (dirent* e = readdir(dir)) {
        std::string n = e->d_name; if (n == "." || n == "..") continue;
        std::string p = d + "/" + n;
        struct stat st; if (lstat(p.c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) { wipe_dir(p); rmdir(p.c_str()); } else unlink(p.c_str());
    }
    closedir(dir);
}

// run one case in this process
static bool run_case(const Prop& p, Source& src, Ctx& c, Failure& f)
{
    try { p.fn(src, c); return true; }
    catch (const Failure& e) { f = e; return false; }
    catch (const std::exception& e) { f = Failure{"exception", std::string("unexpected C++ exception: ") + e.what()}; return false; }
    catch (...) { f = Failure{"exception", "unexpected C++ exception"}; return false; }
}

static void child_io(const std::string& errFile)
{
    int fd = open(errFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
    int nul = open("/dev/null", O_RDONLY);
    if (nul >= 0) { dup2(nul, 0); close(nul); }
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    signal(SIGPROF, on_prof);
}

static void child_block(int pi, int64_t start, int64_t end, const std::string& base, Slot* slot)
{
    child_io(base + ".err");
    g_slot = slot;
    const Prop& p = registry()[pi];
    std::string scratch = base + ".d";
    mkdir(scratch.c_str(), 0700);
    std::map<std::string, uint64_t> labels;
    std::map<std::string, uint64_t> failCount;
    uint64_t evals = 0;
    FILE* out = fopen((base + ".out").c_str(), "w");
    if (!out) _exit(97);
    for (int64_t i = start; i < end; i++) {
        slot->caseIdx = i; slot->inCase = 1;
        arm_timer(CPU_LIMIT_S);
        Source src = Source::random(case_seed(p, i));
        Ctx c; c.labels = &labels; c.scratch = scratch + "/";
        c.verbose = (i < 3);
        Failure f;
        bool ok = run_case(p, src, c, f);
        slot->inCase = 0;
        evals++;
        if (c.nontrivial)
            fprintf(out, "H %016llx\n", (unsigned long long)hash_bytes(src.record().data(), src.record().size() * 8));
        if (c.nontrivial && c.verbose && !c.notes.empty()) {
            std::string t; for (auto& n : c.notes) { if (!t.empty()) t += "; "; t += n; }
            if (t.size() > 900) t = t.substr(0, 900) + "...";
            fprintf(out, "S %s\n", esc(t).c_str());
        }
        if (!ok) {
            if (failCount[f.key]++ == 0) {
                fprintf(out, "F %lld %zu", (long long)i, src.record().size());
                for (uint64_t v : src.record()) fprintf(out, " %llx", (unsigned long long)v);
                fprintf(out, "\nK %s\nM %s\n", esc(f.key).c_str(), esc(f.msg).c_str());
            }
        }
        if ((i & 15) == 15) fflush(out);
        wipe_dir(scratch);
    }
    arm_timer(0);
    for (auto& l : labels) fprintf(out, "L %llu %s\n", (unsigned long long)l.second, esc(l.first).c_str());
    for (auto& l : failCount) fprintf(out, "C %llu %s\n", (unsigned long long)l.second, esc(l.first).c_str());
    fprintf(out, "E %llu\n", (unsigned long long)evals);
    fclose(out);
    rmdir(scratch.c_str());
    _exit(0);
}

static std::string crash_desc(const std::string& errFile, int status, std::string& key)
{
    std::ifstream f(errFile.c_str());
    std::string line, pick; 
    while (std::getline(f, line)) {
        size_t a;
        if (pick.empty()) {
            if ((a = line.find("Assertion `")) != std::string::npos) {
                pick = line.substr(a); size_t b = pick.find('\''); 
                key = "crash:assert " + pick.substr(11, b == std::string::npos ? std::string::npos : b - 11);
            }
            else if ((a = line.find("runtime error: ")) != std::string::npos) { pick = line; std::string t = line.substr(a + 15); 
                std::string u; for (char ch : t) { if (isdigit((unsigned char)ch) || ch == '-') { if (u.empty() || u.back() != '#') u += '#'; } else u += ch; }
                key = "crash:ubsan " + u.substr(0, 60); }
            else if ((a = line.find("ERROR: AddressSanitizer: ")) != std::string::npos) { pick = line.substr(a); std::string t = line.substr(a + 25);
                key = "crash:asan " + t.substr(0, t.find_first_of(" :")); }
            else if (line.find("PBT: case exceeded") != std::string::npos) { pick = line; key = "hang"; }
            else if (line.find("terminate called") != std::string::npos) { pick = line; key = "crash:terminate"; }
        }
    }
    if (key.empty()) key = WIFSIGNALED(status) ? fmt("crash:signal %d", WTERMSIG(status)) : fmt("crash:exit %d", WEXITSTATUS(status));
    if (pick.empty()) pick = key;
    return pick;
}

void Ctx::note(const std::string& s) { notes.push_back(s); if (live) { fprintf(live, "S %s\n", esc(s).c_str()); fflush(live); } }

struct Worker { pid_t pid = -1; int pi = 0; int64_t start = 0, end = 0; std::string base; int slot = 0; };

static void parse_out(const std::string& file, int pi, int64_t blockStart, BlockResult& r)
{
    std::ifstream f(file.c_str());
    std::string line; Found cur; bool have = false;
    while (std::getline(f, line)) {
        if (line.size() < 2) continue;
        if (line[0] == 'H') { r.hashes.push_back(strtoull(line.c_str() + 2, 0, 16)); r.nontriv++; }
        else if (line[0] == 'S') r.samples.push_back(line.substr(2));
        else if (line[0] == 'F') {
            cur = Found(); cur.prop = pi; cur.blockStart = blockStart;
            std::istringstream is(line.substr(2)); long long idx; size_t n; is >> idx >> n; cur.idx = idx;
            std::string t; while (is >> t) cur.choices.push_back(strtoull(t.c_str(), 0, 16));
            have = true;
        }
        else if (line[0] == 'K' && have) cur.key = line.substr(2);
        else if (line[0] == 'M' && have) { cur.msg = line.substr(2); r.fails.push_back(cur); have = false; }
        else if (line[0] == 'L') { char* e; uint64_t n = strtoull(line.c_str() + 2, &e, 10); r.labels[e + 1] += n; }
        else if (line[0] == 'C') { char* e; uint64_t n = strtoull(line.c_str() + 2, &e, 10); r.failCount[e + 1] += n; }
        else if (line[0] == 'E') r.evals += strtoull(line.c_str() + 2, 0, 10);
    }
}

// run one choice sequence in a fresh child. Returns true when it failed; key/msg/record filled.
static int g_runId = 0;
static bool run_isolated(int pi, const std::vector<uint64_t>& choices, Found& out, std::vector<std::string>* notes = nullptr)
{
    std::string base = g_scratch + fmt("/iso%d", g_runId++);
    pid_t pid = fork();
    if (pid == 0) {
        child_io(base + ".err");
        g_slot = nullptr;
        std::string scratch = base + ".d"; mkdir(scratch.c_str(), 0700);
        arm_timer(CPU_LIMIT_S);
        Source src = Source::replay(choices);
        Ctx c; c.scratch = scratch + "/"; c.verbose = notes != nullptr;
        Failure f;
        FILE* o = fopen((base + ".out").c_str(), "w");
        c.live = o;
        bool ok = run_case(registry()[pi], src, c, f);
        if (!ok) {
            fprintf(o, "F 0 %zu", src.record().size());
            for (uint64_t v : src.record()) fprintf(o, " %llx", (unsigned long long)v);
            fprintf(o, "\nK %s\nM %s\n", esc(f.key).c_str(), esc(f.msg).c_str());
        }
        fclose(o);
        wipe_dir(scratch); rmdir(scratch.c_str());
        _exit(0);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    bool failed = false;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        BlockResult r; parse_out(base + ".out", pi, 0, r);
        if (!r.fails.empty()) { out = r.fails[0]; failed = true; }
        if (notes) *notes = r.samples;
    } else {
        if (notes) { BlockResult r; parse_out(base + ".out", pi, 0, r); *notes = r.samples; }
        out = Found(); out.prop = pi; out.crash = true; out.choices = choices;
        out.msg = crash_desc(base + ".err", st, out.key); failed = true;
        wipe_dir(base + ".d"); rmdir((base + ".d").c_str());
    }
    unlink((base + ".out").c_str()); unlink((base + ".err").c_str());
    return failed;
}

static bool better(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b)
{
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}

static Found shrink(const Found& f0, double budget)
{
    Found best = f0; double t0 = now_s(); int tries = 0;
    auto attempt = [&](std::vector<uint64_t> cand) -> bool {
        while (!cand.empty() && cand.back() == 0) cand.pop_back();
        if (!better(cand, best.choices)) return false;
        if (now_s() - t0 > budget || tries > 4000) return false;
        tries++;
        Found r;
        if (!run_isolated(f0.prop, cand, r) || r.key != f0.key) return false;
        if (!r.crash) { while (!r.choices.empty() && r.choices.back() == 0) r.choices.pop_back(); }
        std::vector<uint64_t> rec = r.crash ? cand : (better(r.choices, cand) ? r.choices : cand);
        best.choices = rec; best.msg = r.msg; best.crash = r.crash; return true;
    };
    bool progress = true;
    while (progress && now_s() - t0 < budget && tries < 4000) {
        progress = false;
        for (size_t len = std::max<size_t>(1, best.choices.size() / 2); len >= 1; len /= 2) { // truncate / delete chunks
            for (size_t i = 0; i + len <= best.choices.size();) {
                std::vector<uint64_t> c(best.choices); c.erase(c.begin() + i, c.begin() + i + len);
                if (attempt(c)) progress = true; else i += len;
                if (now_s() - t0 > budget) break;
            }
            if (len == 1) break;
        }
        for (size_t len = 8; len >= 1; len /= 2)
            for (size_t i = 0; i + len <= best.choices.size(); i += len) { // zero chunks
                std::vector<uint64_t> c(best.choices); bool any = false;
                for (size_t k = i; k < i + len; k++) { if (c[k]) any = true; c[k] = 0; }
                if (any && attempt(c)) progress = true;
                if (now_s() - t0 > budget) break;
            }
        for (size_t i = 0; i < best.choices.size(); i++) { // reduce single values
            uint64_t lo = 0;
            for (int k = 0; k < 40 && i < best.choices.size() && lo < best.choices[i]; k++) {
                uint64_t mid = lo + (best.choices[i] - lo) / 2;
                std::vector<uint64_t> c(best.choices); c[i] = mid;
                if (attempt(c)) progress = true; else lo = mid + 1;
                if (now_s() - t0 > budget) break;
            }
        }
    }
    return best;
}

// re-run cases [blockStart, idx] of a prop in one fresh process; true if case idx fails again
static bool run_history(const Found& f, Slot* slot)
{
    std::string base = g_scratch + fmt("/hist%d", g_runId++);
    pid_t pid = fork();
    if (pid == 0) child_block(f.prop, f.blockStart, f.idx + 1, base, slot);
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    bool failed = false;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        BlockResult r; parse_out(base + ".out", f.prop, f.blockStart, r);
        for (auto& x : r.fails) if (x.key == f.key) failed = true;
    } else failed = slot->caseIdx == f.idx;
    unlink((base + ".out").c_str()); unlink((base + ".err").c_str());
    wipe_dir(base + ".d"); rmdir((base + ".d").c_str());
    return failed;
}

// choices made by a case up to its end or its death
void pbt_dump_on_death(Source*, int);
void pbt_dump_now();
static std::vector<uint64_t> record_choices(int pi, Source src)
{
    std::vector<uint64_t> r; std::string path = g_scratch + "/rec"; unlink(path.c_str());
    pid_t pid = fork();
    if (pid == 0) {
        child_io(g_scratch + "/rec.err"); arm_timer(CPU_LIMIT_S);
        std::string sd = g_scratch + "/rec.d"; mkdir(sd.c_str(), 0700);
        int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
        pbt_dump_on_death(&src, fd);
        Ctx c; c.scratch = sd + "/"; Failure ff; run_case(registry()[pi], src, c, ff);
        pbt_dump_now();
        _exit(0);
    }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    wipe_dir(g_scratch + "/rec.d"); rmdir((g_scratch + "/rec.d").c_str());
    FILE* rf = fopen(path.c_str(), "rb");
    if (rf) { uint64_t v; while (fread(&v, 8, 1, rf) == 1) r.push_back(v); fclose(rf); unlink(path.c_str()); }
    unlink((g_scratch + "/rec.err").c_str());
    return r;
}

static void write_replay(const std::string& path, const Found& f, const std::vector<std::string>& notes)
{
    std::ofstream o(path.c_str());
    o << "# replay: ./run " << O.property << " --replay " << path << "\n";
    o << "property " << O.property << "\n";
    o << "subproperty " << registry()[f.prop].name << "\n";
    o << "key " << f.key << "\n";
    o << "message " << esc(f.msg) << "\n";
    o << "origin seed=" << O.seed << " case=" << f.idx << " block_start=" << f.blockStart << "\n";
    o << "mode " << (f.history ? "history" : "choices") << "\n";
    o << "choices";
    for (uint64_t v : f.choices) o << " " << std::hex << v << std::dec;
    o << "\n";
    for (auto& n : notes) o << "note " << n << "\n";
}

static bool read_replay(const std::string& path, Found& f)
{
    std::ifstream i(path.c_str()); if (!i) return false;
    std::string line;
    while (std::getline(i, line)) {
        std::istringstream is(line); std::string k; is >> k;
        if (k == "subproperty") { std::string n; is >> n; for (size_t p = 0; p < registry().size(); p++) if (n == registry()[p].name) f.prop = (int)p; }
        else if (k == "key") f.key = line.size() > 4 ? line.substr(4) : "";
        else if (k == "mode") { std::string m; is >> m; f.history = m == "history"; }
        else if (k == "origin") {
            std::string t; while (is >> t) {
                if (t.compare(0, 5, "seed=") == 0) O.seed = strtoull(t.c_str() + 5, 0, 10);
                if (t.compare(0, 5, "case=") == 0) f.idx = strtoll(t.c_str() + 5, 0, 10);
                if (t.compare(0, 12, "block_start=") == 0) f.blockStart = strtoll(t.c_str() + 12, 0, 10);
            }
        }
        else if (k == "choices") { std::string t; while (is >> t) f.choices.push_back(strtoull(t.c_str(), 0, 16)); }
    }
    return f.prop >= 0;
}

static int main_replay(Slot* slot)
{
    Found f; if (!read_replay(O.replayFile, f)) { fprintf(stderr, "cannot read replay file %s\n", O.replayFile.c_str()); return 2; }
    if (f.history) {
        bool b = run_history(f, slot);
        printf("%s history replay of %s case %lld: %s\n", O.property.c_str(), registry()[f.prop].name, (long long)f.idx, b ? "FAILS" : "passes");
        if (b) printf("VIOLATION property=%s replay=%s\n", O.property.c_str(), O.replayFile.c_str());
        return b ? 1 : 0;
    }
    Found r; std::vector<std::string> notes;
    bool b = run_isolated(f.prop, f.choices, r, &notes);
    for (auto& n : notes) printf("  %s\n", n.c_str());
    if (b) { printf("fails: key=%s\n  %s\n", r.key.c_str(), r.msg.c_str()); printf("VIOLATION property=%s replay=%s\n", O.property.c_str(), O.replayFile.c_str()); return 1; }
    printf("passes\n");
    return 0;
}

int main_run(int argc, char** argv)
{
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nxt = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--property") O.property = nxt();
        else if (a == "--tier") O.tier = nxt();
        else if (a == "--seed") O.seed = strtoull(nxt().c_str(), 0, 10);
        else if (a == "--jobs") O.jobs = atoi(nxt().c_str());
        else if (a == "--evidence") O.evidence = nxt();
        else if (a == "--replay-dir") O.replayDir = nxt();
        else if (a == "--known") O.known = nxt();
        else if (a == "--replay") O.replayFile = nxt();
        else if (a == "--scale") O.scale = atof(nxt().c_str());
        else if (a == "--only") O.only = nxt();
        else if (a == "--scratch") g_scratch = nxt();
        else if (a == "--fuzz-info") O.fuzzInfo = nxt();   // JSON object text describing the coverage-guided part
        else if (a == "--merge-fuzz") O.mergeFuzz = nxt(); // file listing replay candidates found by fuzzing
    }
    if (O.jobs < 1) O.jobs = 1;
    double t0 = now_s();
    if (g_scratch.empty()) { fprintf(stderr, "no --scratch\n"); return 2; }
    Slot* slots = (Slot*)mmap(0, sizeof(Slot) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (!O.replayFile.empty()) return main_replay(slots);

    std::set<std::string> known; std::map<std::string, std::string> knownText;
    { std::ifstream kf(O.known.c_str()); std::string line;
      while (std::getline(kf, line)) { // known: property=C12 key=[...] text
          if (line.compare(0, 7, "known: ") != 0) continue;
          std::string tag = "property=" + O.property + " key=[";
          size_t a = line.find(tag); if (a == std::string::npos) continue;
          size_t b = line.find("] ", a); if (b == std::string::npos) continue;
          std::string key = line.substr(a + tag.size(), b - a - tag.size());
          known.insert(key); knownText[key] = line.substr(b + 2);
      } }

    struct Task { int pi; int64_t s, e; };
    std::vector<Task> tasks;
    auto& R = registry();
    bool thorough = O.tier == "thorough";
    { // round-robin between sub-properties so that an early stop still touched all of them
        std::vector<int64_t> pos(R.size(), 0); std::vector<int64_t> tot(R.size());
        for (size_t i = 0; i < R.size(); i++) { tot[i] = (int64_t)std::ceil((thorough ? R[i].thorough : R[i].quick) * O.scale); if (!O.only.empty() && O.only != R[i].name) tot[i] = 0; }
        bool any = true;
        while (any) { any = false;
            for (size_t i = 0; i < R.size(); i++) if (pos[i] < tot[i]) {
                int64_t e = std::min<int64_t>(tot[i], pos[i] + R[i].block);
                tasks.push_back(Task{(int)i, pos[i], e}); pos[i] = e; any = true; } }
    }
    std::vector<BlockResult> total(R.size());
    std::vector<std::unordered_set<uint64_t>> distinct(R.size());
    std::vector<Found> fails; std::map<std::string, uint64_t> knownSeen; std::map<std::string, Found> knownFirst;
    uint64_t crashes = 0; bool stop = false;
    std::vector<Worker> W(O.jobs); for (int i = 0; i < O.jobs; i++) W[i].slot = i;
    size_t nextTask = 0; std::vector<Task> requeue; int seq = 0;
    std::vector<double> cpu(R.size(), 0);
    auto classify = [&](const Found& f) {
        if (known.count(f.key)) { knownSeen[f.key]++; if (!knownFirst.count(f.key)) knownFirst[f.key] = f; }
        else { fails.push_back(f); stop = true; }
    };
    while (true) {
        bool running = false;
        for (auto& w : W) {
            if (w.pid < 0 && !stop) {
                Task t; bool have = false;
                if (!requeue.empty()) { t = requeue.back(); requeue.pop_back(); have = true; }
                else if (nextTask < tasks.size()) { t = tasks[nextTask++]; have = true; }
                if (have) {
                    w.pi = t.pi; w.start = t.s; w.end = t.e; w.base = g_scratch + fmt("/b%d", seq++);
                    Slot* sl = &slots[w.slot]; sl->caseIdx = t.s; sl->inCase = 0; sl->hang = 0;
                    fflush(stdout);
                    pid_t pid = fork();
                    if (pid == 0) { child_block(t.pi, t.s, t.e, w.base, sl); _exit(0); }
                    w.pid = pid;
                }
            }
            if (w.pid > 0) running = true;
        }
        if (!running) break;
        int st; struct rusage ru; pid_t p = wait4(-1, &st, 0, &ru);
        if (p < 0) { if (errno == EINTR) continue; break; }
        for (auto& w : W) if (w.pid == p) {
            w.pid = -1;
            cpu[w.pi] += ru.ru_utime.tv_sec + ru.ru_utime.tv_usec * 1e-6;
            BlockResult r; parse_out(w.base + ".out", w.pi, w.start, r);
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                crashes++;
                Slot* sl = &slots[w.slot];
                Found f; f.prop = w.pi; f.idx = sl->caseIdx; f.blockStart = w.start; f.crash = true;
                f.msg = crash_desc(w.base + ".err", st, f.key);
                r.evals = (uint64_t)(f.idx - w.start + 1);
                // recover the choices: re-generate them by running the case in a child that records as it goes is not
                // possible after a crash, so the case is identified by its seed; choices are rebuilt below.
                r.fails.push_back(f);
                if (f.idx + 1 < w.end && crashes < 200) requeue.push_back(Task{w.pi, f.idx + 1, w.end});
            }
            BlockResult& T = total[w.pi];
            T.evals += r.evals; T.nontriv += r.nontriv;
            for (auto& l : r.labels) T.labels[l.first] += l.second;
            for (auto& l : r.failCount) T.failCount[l.first] += l.second;
            for (auto h : r.hashes) distinct[w.pi].insert(h);
            if (T.samples.size() < 3) for (auto& s : r.samples) if (T.samples.size() < 3) T.samples.push_back(s);
            for (auto& f : r.fails) classify(f);
            unlink((w.base + ".out").c_str()); unlink((w.base + ".err").c_str());
            wipe_dir(w.base + ".d"); rmdir((w.base + ".d").c_str());
        }
    }
    // crashing inputs found by coverage-guided fuzzing: one artifact path per line
    if (!O.mergeFuzz.empty()) {
        std::vector<int> idx; for (size_t i = 0; i < R.size(); i++) if (R[i].fuzz) idx.push_back((int)i);
        std::ifstream mf(O.mergeFuzz.c_str()); std::string p;
        while (std::getline(mf, p)) {
            std::ifstream a(p.c_str(), std::ios::binary); std::string d((std::istreambuf_iterator<char>(a)), std::istreambuf_iterator<char>());
            if (d.empty() || idx.empty()) continue;
            Found f; f.prop = idx[(unsigned char)d[0] % idx.size()];
            f.choices = record_choices(f.prop, Source::bytes((const uint8_t*)d.data() + 1, d.size() - 1));
            Found r; if (run_isolated(f.prop, f.choices, r)) { f.key = r.key; f.msg = r.msg; f.crash = r.crash; f.idx = -1; f.blockStart = -1; classify(f); }
        }
    }

    int rc = 0; uint64_t unreproduced = 0; std::vector<std::string> violations;
    if (!fails.empty()) {
        std::stable_sort(fails.begin(), fails.end(), [](const Found& a, const Found& b) { return a.prop != b.prop ? a.prop < b.prop : a.idx < b.idx; });
        std::set<std::string> done; int reported = 0;
        for (auto& f0 : fails) {
            std::string id = std::string(R[f0.prop].name) + "|" + f0.key;
            if (done.count(id) || reported >= 3) continue;
            Found f = f0;
            if (f.crash && f.choices.empty() && f.idx >= 0) {
                // a crashed child cannot report its choices: regenerate them from the seed of the case
                f.choices = record_choices(f.prop, Source::random(case_seed(R[f.prop], f.idx)));
            }
            int rep = 0; Found r;
            for (int k = 0; k < 3; k++) if (run_isolated(f.prop, f.choices, r)) { rep++; }
            bool ok = rep == 3;
            if (ok) {
                if (r.key != f.key) { f.key = r.key; f.msg = r.msg; f.crash = r.crash; }
                if (known.count(f.key)) { knownSeen[f.key]++; continue; }
                Found sh = shrink(f, reported == 0 ? 40. : 10.);
                int rep2 = 0; for (int k = 0; k < 3; k++) { Found q; if (run_isolated(f.prop, sh.choices, q) && q.key == f.key) rep2++; }
                if (rep2 == 3) { sh.idx = f.idx; sh.blockStart = f.blockStart; f = sh; }
            } else if (f.idx >= 0) {
                int rep3 = 0; for (int k = 0; k < 3; k++) if (run_history(f, &slots[0])) rep3++;
                if (rep3 == 3) { f.history = true; ok = true; f.msg += " (only after the preceding cases of its block)"; }
            }
            if (!ok) { unreproduced++; printf("note: %s case %lld failed once (%s: %s) and did not reproduce\n", R[f.prop].name, (long long)f.idx, f.key.c_str(), f.msg.c_str()); continue; }
            done.insert(id); reported++;
            std::vector<std::string> notes; Found q;
            if (!f.history) run_isolated(f.prop, f.choices, q, &notes);
            std::string path = O.replayDir + fmt("/%s-%s-%016llx.replay", O.property.c_str(), R[f.prop].name, (unsigned long long)hash_bytes(f.choices.data(), f.choices.size() * 8, hash_bytes(f.key.data(), f.key.size())));
            write_replay(path, f, notes);
            printf("FAIL %s.%s key=%s\n  %s\n", O.property.c_str(), R[f.prop].name, f.key.c_str(), f.msg.c_str());
            for (size_t k = 0; k < notes.size() && k < 30; k++) printf("    %s\n", notes[k].c_str());
            printf("VIOLATION property=%s replay=%s\n", O.property.c_str(), path.c_str());
            violations.push_back(path);
            rc = 1;
        }
    }
    for (auto& k : knownSeen) printf("KNOWN-FINDING: property=%s %s (key [%s], %llu cases)\n", O.property.c_str(), knownText[k.first].c_str(), k.first.c_str(), (unsigned long long)k.second);

    uint64_t evals = 0, dn = 0; std::string labels, subs, samples, rule;
    for (size_t i = 0; i < R.size(); i++) {
        evals += total[i].evals; dn += distinct[i].size();
        if (total[i].evals == 0) continue;
        subs += fmt("%s\"%s\": {\"cases\": %llu, \"distinct_nontrivial\": %llu, \"cpu_s\": %.1f, \"nontrivial_when\": \"%s\"", subs.empty() ? "" : ", ", R[i].name, (unsigned long long)total[i].evals, (unsigned long long)distinct[i].size(), cpu[i], jesc(R[i].rule).c_str());
        std::string l; for (auto& x : total[i].labels) l += fmt("%s\"%s\": %llu", l.empty() ? "" : ", ", jesc(x.first).c_str(), (unsigned long long)x.second);
        subs += ", \"labels\": {" + l + "}}";
        for (auto& s : total[i].samples) { samples += samples.empty() ? "" : ",\n    "; samples += std::string("\"") + R[i].name + ": " + jesc(s) + "\""; }
    }
    printf("%s %s seed=%llu: %llu cases, %llu distinct non-trivial, %zu sub-properties, %.1f s, %zu violation(s), %llu unreproduced\n", O.property.c_str(), O.tier.c_str(), (unsigned long long)O.seed,
        (unsigned long long)evals, (unsigned long long)dn, R.size(), now_s() - t0, violations.size(), (unsigned long long)unreproduced);
    if (getenv("PBT_LABELS")) for (size_t i = 0; i < R.size(); i++) { printf(" %s: %llu cases, %zu distinct nontrivial, cpu %.1f\n", R[i].name, (unsigned long long)total[i].evals, distinct[i].size(), cpu[i]); for (auto& l : total[i].labels) printf("   %8llu %s\n", (unsigned long long)l.second, l.first.c_str()); }
    if (!O.evidence.empty()) {
        std::string tmp = O.evidence + ".tmp";
        std::ofstream e(tmp.c_str());
        const char* wall0 = getenv("PBT_T0"); double wall = wall0 ? (double)time(0) - atof(wall0) : now_s() - t0; if (wall < now_s() - t0) wall = now_s() - t0;
        std::string ks; for (auto& k : knownSeen) ks += fmt("%s\"%s\": %llu", ks.empty() ? "" : ", ", jesc(k.first).c_str(), (unsigned long long)k.second);
        e << "{\n \"property\": \"" << O.property << "\",\n \"tier\": \"" << O.tier << "\",\n \"seed\": " << O.seed << ",\n \"level\": \"" << (getenv("PBT_LEVEL") ? getenv("PBT_LEVEL") : "exploration") << "\",\n";
        e << " \"coverage\": {\n  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << dn << ",\n";
        e << "  \"rule\": \"Each case is one choice sequence drawn from a generator seeded by (VERIF_SEED, sub-property, case number); distinct = distinct choice sequences; non-trivial per sub-property as given under subproperties.nontrivial_when.\",\n";
        e << "  \"subproperties\": {" << subs << "},\n";
        if (!O.fuzzInfo.empty()) e << "  \"coverage_guided\": " << O.fuzzInfo << ",\n";
        e << "  \"known_findings_seen\": {" << ks << "},\n";
        e << "  \"unreproduced\": " << unreproduced << ",\n";
        e << "  \"samples\": [\n    " << (samples.empty() ? "\"(no verbose sample)\"" : samples) << "\n  ]\n },\n";
        e << " \"assumptions\": [\"clang 18 ASan+UBSan build of /repo/src at -O1, asserts on, x86-64 IEEE doubles\"],\n";
        e << " \"wall_s\": " << wall << ",\n \"violations\": " << violations.size() << "\n}\n";
        e.close(); rename(tmp.c_str(), O.evidence.c_str());
    }
    return rc;
}

} // namespace pbt

// dump of the choices made so far when the process dies (crash case)
static pbt::Source* g_dumpSrc = nullptr; static int g_dumpFd = -1;
namespace pbt {
void pbt_dump_now()
{
    if (g_dumpFd < 0 || !g_dumpSrc) return;
    const std::vector<uint64_t>& r = g_dumpSrc->record();
    size_t n = r.size() * 8, o = 0; const char* p = (const char*)r.data();
    while (o < n) { ssize_t k = ::write(g_dumpFd, p + o, n - o); if (k <= 0) break; o += k; }
    close(g_dumpFd); g_dumpFd = -1;
}
static void dump_sig(int) { pbt_dump_now(); _exit(96); }
#ifdef HAVE_ASAN
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif
void pbt_dump_on_death(Source* s, int fd)
{
    g_dumpSrc = s; g_dumpFd = fd;
    signal(SIGABRT, dump_sig); signal(SIGPROF, dump_sig); signal(SIGSEGV, dump_sig); signal(SIGFPE, dump_sig); signal(SIGILL, dump_sig); signal(SIGTRAP, dump_sig);
#ifdef HAVE_ASAN
    __sanitizer_set_death_callback(pbt_dump_now);
#endif
}
}

#ifndef PBT_LIBFUZZER
int main(int argc, char** argv) { return pbt::main_run(argc, argv); }
#else
// Coverage-guided entry: first byte picks the sub-property, the rest feeds the choices.
static std::set<std::string> g_known; static std::string g_scr;
extern "C" int LLVMFuzzerInitialize(int*, char***)
{
    const char* k = getenv("PBT_KNOWN_KEYS"); if (k) { std::string s(k), t; std::istringstream is(s); while (std::getline(is, t, '\x1f')) g_known.insert(t); }
    g_scr = getenv("PBT_FUZZ_SCRATCH") ? getenv("PBT_FUZZ_SCRATCH") : "/tmp";
    g_scr += pbt::fmt("/f%d", (int)getpid()); mkdir(g_scr.c_str(), 0700); g_scr += "/";
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n)
{
    static std::vector<int> idx; if (idx.empty()) for (size_t i = 0; i < pbt::registry().size(); i++) if (pbt::registry()[i].fuzz) idx.push_back((int)i);
    if (n < 1 || idx.empty()) return 0;
    int pi = idx[d[0] % idx.size()];
    pbt::Source src = pbt::Source::bytes(d + 1, n - 1);
    pbt::Ctx c; c.scratch = g_scr; pbt::Failure f;
    bool ok = pbt::run_case(pbt::registry()[pi], src, c, f);
    if (!ok && !g_known.count(f.key)) { fprintf(stderr, "PBT failure %s: %s\n", f.key.c_str(), f.msg.c_str()); abort(); }
    return 0;
}
#endif
