#include "engine.hpp"
#include <algorithm>
#include <chrono>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt
{
static std::vector<Prop>& props()
{
    static std::vector<Prop> p;
    return p;
}
void add(const Prop& p) { props().push_back(p); }
static bool g_verbose = false;
bool verbose() { return g_verbose; }

uint32_t Case::draw(uint32_t n)
{
    if (n == 0) n = 1;
    uint32_t i = r_->n;
    uint32_t v;
    if (given_)
        v = i < given_->size() ? std::min((*given_)[i], n - 1) : 0;
    else
        v = (uint32_t)(g_.next() % n);
    if (i >= MAX_CHOICES)
    {
        return 0;
    }
    r_->choices[i] = v;
    r_->n = i + 1;
    return v;
}

uint32_t Case::pick(std::initializer_list<uint32_t> weights)
{
    uint32_t sum = 0;
    for (uint32_t w : weights) sum += w;
    uint32_t v = draw(sum), k = 0;
    for (uint32_t w : weights)
    {
        if (v < w) return k;
        v -= w;
        ++k;
    }
    return 0;
}

uint64_t Case::u64()
{
    switch (draw(5))
    {
        case 0: return draw(16);
        case 1: return draw(0x10000);
        case 2: return (1ull << draw(64));
        case 3: return (1ull << draw(64)) - 1;
        default:
        {
            uint64_t hi = draw(0xffffffffu);
            return (hi << 32) | draw(0xffffffffu);
        }
    }
}

void Case::span_begin() { open_.push_back((uint32_t)r_->n); }
void Case::span_end()
{
    uint32_t b = open_.back();
    open_.pop_back();
    uint32_t k = r_->nspans;
    if (k < MAX_SPANS)
    {
        r_->span_b[k] = b;
        r_->span_e[k] = r_->n;
        r_->nspans = k + 1;
    }
}

void Case::label(const char* name, uint64_t n)
{
    for (uint32_t i = 0; i < r_->nlabels; ++i)
        if (!strncmp(r_->labels[i].name, name, sizeof(label_t::name) - 1))
        {
            r_->labels[i].n += n;
            return;
        }
    if (r_->nlabels < MAX_LABELS)
    {
        snprintf(r_->labels[r_->nlabels].name, sizeof(label_t::name), "%s", name);
        r_->labels[r_->nlabels].n = n;
        r_->nlabels++;
    }
}

void Case::sample(const std::string& s) { snprintf(r_->sample, sizeof(r_->sample), "%s", s.c_str()); }
void Case::discard() { r_->status = st_discard; }

void Case::fail(const char* key, const char* fmt, ...)
{
    snprintf(r_->key, sizeof(r_->key), "%s", key);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(r_->msg, sizeof(r_->msg), fmt, ap);
    va_end(ap);
    r_->status = st_fail;
    if (g_verbose) fprintf(stderr, "FAIL %s: %s\n", r_->key, r_->msg);
    fflush(nullptr);
    _exit(2);
}

static double now_s()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}

static void reset_rec(case_rec* r)
{
    r->status = st_running;
    r->nontrivial = 0;
    r->n = 0;
    r->nspans = 0;
    r->nlabels = 0;
    r->key[0] = r->msg[0] = r->sample[0] = 0;
    r->digest = 0;
}

static void* shm(size_t n)
{
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED)
    {
        perror("mmap");
        exit(70);
    }
    return p;
}

static uint64_t case_seed(const char* id, uint64_t seed, uint64_t i)
{
    rng g(seed * 0x9E3779B97F4A7C15ull + 0x1234567);
    uint64_t h = g.next();
    for (const char* c = id; *c; ++c) h = (h ^ (uint64_t)(unsigned char)*c) * 0x100000001B3ull;
    rng g2(h + i * 0xD1B54A32D192ED03ull);
    g2.next();
    return g2.next();
}

static std::string describe_exit(int st)
{
    char b[100];
    if (WIFSIGNALED(st))
        snprintf(b, sizeof b, "killed by signal %d", WTERMSIG(st));
    else
        snprintf(b, sizeof b, "exit code %d", WEXITSTATUS(st));
    return b;
}

struct outcome
{
    int status = st_ok; // st_ok, st_fail, st_discard; -1 inconclusive
    std::string key, msg;
};

// interpret how a child ended while running a case
static outcome judge(case_rec* r, int st, bool timed_out_wall, const std::string& errtail)
{
    outcome o;
    if (r->status == st_fail)
    {
        o.status = st_fail;
        o.key = r->key;
        o.msg = r->msg;
        return o;
    }
    if (timed_out_wall)
    {
        o.status = st_fail;
        o.key = "hang";
        o.msg = "no progress (wall clock limit): the call under test never returned";
        return o;
    }
    if (WIFSIGNALED(st))
    {
        int s = WTERMSIG(st);
        if (s == SIGXCPU)
        {
            o.status = st_fail;
            o.key = "hang-cpu";
            o.msg = "CPU limit exceeded: endless loop in the code under test";
            return o;
        }
        if (s == SIGSEGV || s == SIGABRT || s == SIGBUS || s == SIGFPE || s == SIGILL || s == SIGTRAP)
        {
            o.status = st_fail;
            o.key = "crash";
            o.msg = "process crashed: " + describe_exit(st) + "\n" + errtail;
            return o;
        }
        o.status = -1;
        o.msg = describe_exit(st);
        return o;
    }
    if (WEXITSTATUS(st) == 99)
    {
        o.status = st_fail;
        o.key = "sanitizer";
        o.msg = "sanitizer report\n" + errtail;
        return o;
    }
    if (WEXITSTATUS(st) == 0 && r->status == st_running)
    {
        o.status = st_fail;
        o.key = "exit";
        o.msg = "the code under test ended the process with exit(0)";
        return o;
    }
    if (r->status == st_running)
    {
        o.status = WEXITSTATUS(st) == 70 ? -1 : st_fail;
        o.key = "exit";
        o.msg = "the code under test ended the process: " + describe_exit(st) + "\n" + errtail;
        return o;
    }
    return o;
}

static std::string read_tail(int fd)
{
    std::string s;
    off_t n = lseek(fd, 0, SEEK_END);
    if (n <= 0) return s;
    // sanitizer reports: keep the head
    size_t want = (size_t)std::min<off_t>(n, 3000);
    s.resize(want);
    ssize_t k = pread(fd, &s[0], want, 0);
    s.resize(k > 0 ? (size_t)k : 0);
    return s;
}

static int memfile()
{
    int fd = memfd_create("pbt-stderr", MFD_CLOEXEC);
    return fd;
}

static void child_setup(const Prop& p, int errfd, uint32_t batch)
{
    rlimit rl{(rlim_t)p.cpu_limit_s * batch + 1, (rlim_t)p.cpu_limit_s * batch + 5};
    setrlimit(RLIMIT_CPU, &rl);
    rlimit core{0, 0};
    setrlimit(RLIMIT_CORE, &core);
    if (errfd >= 0 && !g_verbose)
    {
        dup2(errfd, 2);
    }
}

// run the given choices in a child; returns outcome and actual record in r
static outcome run_given(const Prop& p, case_rec* r, const std::vector<uint32_t>& given, double wall_limit)
{
    reset_rec(r);
    int fd = memfile();
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        setpgid(0, 0);
        child_setup(p, fd, 1);
        Case c(r, 0, &given);
        p.run(c);
        if (r->status == st_running) r->status = st_ok;
        fflush(nullptr);
        _exit(0);
    }
    double t0 = now_s();
    int st = 0;
    bool to = false;
    for (useconds_t nap = 200;;)
    {
        pid_t k = waitpid(pid, &st, WNOHANG);
        if (k == pid) break;
        if (now_s() - t0 > wall_limit)
        {
            to = true;
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            break;
        }
        usleep(nap);
        if (nap < 5000) nap += 200;
    }
    kill(-pid, SIGKILL);
    outcome o = judge(r, st, to, read_tail(fd));
    close(fd);
    return o;
}

// as run_given, up to `tries` times until it fails
static outcome run_tries(const Prop& p, case_rec* r, const std::vector<uint32_t>& given, double wall_limit, uint32_t tries)
{
    outcome o;
    double t0 = now_s();
    for (uint32_t k = 0; k < tries; ++k)
    {
        o = run_given(p, r, given, wall_limit);
        if (o.status == st_fail || (k && now_s() - t0 > 60)) break;
    }
    return o;
}

static std::vector<uint32_t> choices_of(case_rec* r)
{
    return std::vector<uint32_t>(r->choices, r->choices + r->n);
}

struct shrinker
{
    const Prop& p;
    case_rec* r;
    std::string key;
    double deadline;
    double wall;
    std::vector<uint32_t> best;
    std::vector<std::pair<uint32_t, uint32_t>> spans;
    std::string msg;
    int tries = 0;

    bool ok(const std::vector<uint32_t>& cand)
    {
        if (now_s() > deadline) return false;
        ++tries;
        outcome o = run_tries(p, r, cand, wall, p.tries > 1 ? 3 : 1);
        if (o.status != st_fail || o.key != key) return false;
        std::vector<uint32_t> got = choices_of(r);
        // strictly smaller in (length, lexicographic)
        while (!got.empty() && got.back() == 0) got.pop_back();
        if (got.size() > best.size() || (got.size() == best.size() && !(got < best))) return false;
        best = got;
        msg = o.msg;
        spans.clear();
        for (uint32_t i = 0; i < r->nspans; ++i) spans.push_back({r->span_b[i], r->span_e[i]});
        return true;
    }

    void run()
    {
        bool progress = true;
        while (progress && now_s() < deadline)
        {
            progress = false;
            // delete spans, longest first
            for (bool again = true; again && now_s() < deadline;)
            {
                again = false;
                auto sp = spans;
                std::sort(sp.begin(), sp.end(), [](auto& a, auto& b) { return a.second - a.first > b.second - b.first; });
                for (auto& s : sp)
                {
                    if (s.second <= s.first || s.first >= best.size()) continue;
                    std::vector<uint32_t> c = best;
                    c.erase(c.begin() + s.first, c.begin() + std::min<size_t>(s.second, c.size()));
                    if (ok(c))
                    {
                        again = progress = true;
                        break;
                    }
                }
            }
            // truncate tail
            for (size_t cut = best.size() / 2; cut > 0 && now_s() < deadline; cut /= 2)
            {
                std::vector<uint32_t> c(best.begin(), best.end() - std::min(cut, best.size()));
                if (ok(c)) progress = true;
            }
            // zero blocks, lower values
            for (size_t len : {16, 4, 1})
                for (size_t i = 0; i < best.size() && now_s() < deadline; i += len)
                {
                    std::vector<uint32_t> c = best;
                    bool ch = false;
                    for (size_t k = i; k < std::min(i + len, c.size()); ++k)
                        if (c[k])
                        {
                            c[k] = 0;
                            ch = true;
                        }
                    if (ch && ok(c)) progress = true;
                }
            for (size_t i = 0; i < best.size() && now_s() < deadline; ++i)
            {
                uint32_t v = best[i];
                for (uint32_t d = v / 2; d > 0 && now_s() < deadline; d /= 2)
                {
                    if (i >= best.size() || best[i] < d) break;
                    std::vector<uint32_t> c = best;
                    c[i] -= d;
                    if (!ok(c) && v > 1000) break;
                }
            }
        }
    }
};

static std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += (char)c;
        }
        else if (c == '\n')
            o += "\\n";
        else if (c == '\t')
            o += "\\t";
        else if (c < 0x20 || c > 0x7e)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else
            o += (char)c;
    }
    return o;
}

struct worker_shared
{
    volatile uint64_t evaluated, nontriv, discarded, inconclusive, choices;
    volatile int failed; // 1 = seen again in a second run, 2 = only seen once per case (real threads or time)
    uint32_t nunrep;
    label_t unrep[16]; // failures that were not seen again: key -> count
    volatile uint64_t fail_case;
    volatile uint64_t nhash;
    char fail_key[128];
    char fail_msg[6000];
    uint32_t fail_n, fail_ns;
    uint32_t fail_choices[MAX_CHOICES];
    uint32_t fail_sb[MAX_SPANS], fail_se[MAX_SPANS];
    uint32_t nlabels;
    label_t labels[MAX_LABELS];
    uint32_t nsamples;
    char samples[3][3000];
    char inc_msg[300];
    // known findings hit: key -> count
    uint32_t nknown;
    label_t known[16];
};

static void merge_label(label_t* arr, uint32_t& n, const char* name, uint64_t c)
{
    for (uint32_t i = 0; i < n; ++i)
        if (!strcmp(arr[i].name, name))
        {
            arr[i].n += c;
            return;
        }
    if (n < MAX_LABELS)
    {
        snprintf(arr[n].name, sizeof(label_t::name), "%s", name);
        arr[n++].n = c;
    }
}

int main_loop(int argc, char** argv)
{
    std::string id, tier = "quick", out, replaydir = ".", replay, knownfile, target;
    uint64_t seed = 1, cases = 0, scale = 100;
    double tlimit = 120, shrink_s = 25;
    int64_t only_case = -1;
    uint32_t nworkers = 0;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") id = val();
        else if (a == "--tier") tier = val();
        else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--cases") cases = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--time") tlimit = atof(val().c_str());
        else if (a == "--shrink") shrink_s = atof(val().c_str());
        else if (a == "--out") out = val();
        else if (a == "--replaydir") replaydir = val();
        else if (a == "--target") target = "-" + val();
        else if (a == "--replay") replay = val();
        else if (a == "--case") only_case = atoll(val().c_str());
        else if (a == "--workers") nworkers = (uint32_t)atoi(val().c_str());
        else if (a == "--scale") scale = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--known") knownfile = val();
        else if (a == "-v") g_verbose = true;
        else
        {
            fprintf(stderr, "unknown argument %s\n", a.c_str());
            return 64;
        }
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    signal(SIGPIPE, SIG_IGN);
    const Prop* pp = nullptr;
    for (auto& q : props())
        if (id == q.id) pp = &q;
    if (!pp)
    {
        fprintf(stderr, "unknown property %s\n", id.c_str());
        return 64;
    }
    const Prop& p = *pp;
    double wall = p.wall_limit_s ? p.wall_limit_s : 60;
    case_rec* r = (case_rec*)shm(sizeof(case_rec));

    if (!replay.empty())
    {
        std::ifstream f(replay);
        std::string line, all;
        std::vector<uint32_t> ch;
        while (std::getline(f, line)) all += line + "\n";
        size_t k = all.find("\"choices\"");
        if (k == std::string::npos)
        {
            fprintf(stderr, "no choices in %s\n", replay.c_str());
            return 64;
        }
        k = all.find('[', k);
        size_t e = all.find(']', k);
        std::string nums = all.substr(k + 1, e - k - 1);
        for (char& c : nums)
            if (c == ',') c = ' ';
        std::istringstream is(nums);
        uint32_t v;
        while (is >> v) ch.push_back(v);
        outcome o = run_tries(p, r, ch, wall * 3, p.tries);
        if (o.status == st_fail)
        {
            printf("replay of %s: %s: %s\n", replay.c_str(), o.key.c_str(), o.msg.c_str());
            printf("VIOLATION property=%s replay=%s\n", id.c_str(), replay.c_str());
            return 1;
        }
        printf("replay of %s: no violation\n", replay.c_str());
        return 0;
    }
    if (only_case >= 0)
    {
        // run one generated case in this process (debugging)
        reset_rec(r);
        Case c(r, case_seed(p.id, seed, (uint64_t)only_case), nullptr);
        p.run(c);
        printf("case %lld: status %d nontrivial %d draws %u\n%s\n", (long long)only_case, r->status, r->nontrivial, r->n, r->sample);
        for (uint32_t i = 0; i < r->nlabels; ++i) printf("  %s=%llu\n", r->labels[i].name, (unsigned long long)r->labels[i].n);
        return 0;
    }

    std::set<std::string> known;
    std::map<std::string, std::string> known_text;
    if (!knownfile.empty())
    {
        std::ifstream f(knownfile);
        std::string line;
        while (std::getline(f, line))
        {
            // known: property=C01 key=<key> <text>
            if (line.compare(0, 6, "known:") != 0) continue;
            std::istringstream is(line.substr(6));
            std::string a, b, rest;
            is >> a >> b;
            std::getline(is, rest);
            if (a == "property=" + id && b.compare(0, 4, "key=") == 0)
            {
                known.insert(b.substr(4));
                known_text[b.substr(4)] = rest;
            }
        }
    }

    if (cases == 0) cases = (tier == "thorough" ? p.thorough_cases : p.quick_cases) * scale / 100;
    uint32_t W = nworkers ? nworkers : p.workers;
    if (W == 0)
    {
        long nc = sysconf(_SC_NPROCESSORS_ONLN);
        W = (uint32_t)std::max(1L, std::min(nc, 16L));
    }
    const uint64_t HMAX = 4u << 20;
    double t0 = now_s();
    double deadline = t0 + tlimit;
    volatile int* stop = (volatile int*)shm(4096);
    std::vector<worker_shared*> ws;
    std::vector<uint64_t*> hs;
    std::vector<pid_t> pids;
    for (uint32_t w = 0; w < W; ++w)
    {
        ws.push_back((worker_shared*)shm(sizeof(worker_shared)));
        hs.push_back((uint64_t*)shm(HMAX * 8));
    }
    fflush(nullptr);
    for (uint32_t w = 0; w < W; ++w)
    {
        pid_t pid = fork();
        if (pid != 0)
        {
            pids.push_back(pid);
            continue;
        }
        case_rec* cr = (case_rec*)shm(sizeof(case_rec));
        worker_shared* s = ws[w];
        uint64_t next = w;
        auto account = [&](case_rec* c)
        {
            s->evaluated = s->evaluated + 1;
            s->choices = s->choices + c->n;
            if (c->status == st_discard)
            {
                s->discarded = s->discarded + 1;
                return;
            }
            for (uint32_t i = 0; i < c->nlabels; ++i) merge_label(s->labels, s->nlabels, c->labels[i].name, c->labels[i].n);
            if (c->nontrivial)
            {
                s->nontriv = s->nontriv + 1;
                if (s->nhash < HMAX)
                {
                    uint64_t h = 0xcbf29ce484222325ull;
                    for (uint32_t i = 0; i < c->n; ++i) h = (h ^ c->choices[i]) * 0x100000001B3ull;
                    hs[w][s->nhash] = h;
                    s->nhash = s->nhash + 1;
                }
                if (s->nsamples < 3 && c->sample[0]) memcpy(s->samples[s->nsamples++], c->sample, sizeof(c->sample));
            }
        };
        while (next < cases && !*stop && now_s() < deadline)
        {
            uint32_t batch = (uint32_t)std::min<uint64_t>(std::max<uint32_t>(1, p.batch), (cases - next + W - 1) / W);
            int fd = memfile();
            cr->case_done = 0;
            cr->case_no = next;
            reset_rec(cr);
            pid_t c = fork();
            if (c == 0)
            {
                setpgid(0, 0);
                child_setup(p, fd, batch);
                for (uint32_t b = 0; b < batch; ++b)
                {
                    uint64_t no = next + (uint64_t)b * W;
                    reset_rec(cr);
                    cr->case_no = no;
                    Case cc(cr, case_seed(p.id, seed, no), nullptr);
                    p.run(cc);
                    if (cr->status == st_running) cr->status = st_ok;
                    account(cr);
                    cr->case_done = cr->case_done + 1;
                    if (now_s() > deadline || *stop) break;
                }
                fflush(nullptr);
                _exit(0);
            }
            int st = 0;
            bool to = false;
            double last = now_s();
            uint64_t seen = 0;
            for (useconds_t nap = 100;;)
            {
                pid_t k = waitpid(c, &st, WNOHANG);
                if (k == c) break;
                if (cr->case_done != seen)
                {
                    seen = cr->case_done;
                    last = now_s();
                }
                if (now_s() - last > wall)
                {
                    to = true;
                    kill(c, SIGKILL);
                    waitpid(c, &st, 0);
                    break;
                }
                usleep(nap);
                if (nap < 2000) nap += 100;
            }
            kill(-c, SIGKILL);
            bool finished = !to && WIFEXITED(st) && WEXITSTATUS(st) == 0 && cr->status != st_running;
            if (finished)
            {
                if (cr->case_done == 0)
                {
                    // ended by itself
                    account(cr);
                    cr->case_done = 1;
                }
                next += (uint64_t)cr->case_done * W;
            }
            else
            {
                outcome o = judge(cr, st, to, read_tail(fd));
                uint64_t no = cr->case_no;
                if (o.status == st_fail && known.count(o.key))
                {
                    merge_label(s->known, s->nknown, o.key.c_str(), 1);
                    s->evaluated = s->evaluated + 1;
                }
                else if (o.status == st_fail)
                {
                    // confirm once here, before stopping everybody
                    std::vector<uint32_t> ch = choices_of(cr);
                    outcome o2 = run_tries(p, cr, ch, wall * 2, p.tries);
                    if (o2.status != st_fail && p.tries > 1) merge_label(s->unrep, s->nunrep, o.key.c_str(), 1);
                    if (o2.status == st_fail || (p.tries > 1 && !s->failed))
                    {
                        bool again = o2.status == st_fail;
                        if (!again) o2 = o;
                        s->fail_case = no;
                        snprintf(s->fail_key, sizeof s->fail_key, "%s", o2.key.c_str());
                        snprintf(s->fail_msg, sizeof s->fail_msg, "%s", o2.msg.c_str());
                        s->fail_n = (uint32_t)ch.size();
                        memcpy(s->fail_choices, ch.data(), ch.size() * 4);
                        s->fail_ns = cr->nspans;
                        memcpy(s->fail_sb, cr->span_b, sizeof(uint32_t) * cr->nspans);
                        memcpy(s->fail_se, cr->span_e, sizeof(uint32_t) * cr->nspans);
                        s->failed = again ? 1 : 2;
                        if (again) *stop = 1;
                    }
                    if (s->failed != 1)
                    {
                        s->inconclusive = s->inconclusive + 1;
                        snprintf(s->inc_msg, sizeof s->inc_msg, "case %llu not reproducible: %s %s", (unsigned long long)no, o.key.c_str(), o.msg.c_str());
                    }
                }
                else
                {
                    s->inconclusive = s->inconclusive + 1;
                    snprintf(s->inc_msg, sizeof s->inc_msg, "case %llu: %s", (unsigned long long)no, o.msg.c_str());
                }
                next = no + W;
            }
            close(fd);
        }
        _exit(0);
    }
    for (pid_t q : pids)
    {
        int st;
        waitpid(q, &st, 0);
    }

    // aggregate
    uint64_t ev = 0, nt = 0, disc = 0, inc = 0, nch = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels, knownhit;
    std::vector<std::string> samples;
    std::string incmsg;
    std::map<std::string, uint64_t> unrep;
    int fw = -1;
    for (uint32_t w = 0; w < W; ++w)
    {
        worker_shared* s = ws[w];
        ev += s->evaluated;
        nt += s->nontriv;
        disc += s->discarded;
        inc += s->inconclusive;
        nch += s->choices;
        if (s->inc_msg[0]) incmsg = s->inc_msg;
        for (uint64_t i = 0; i < s->nhash; ++i) distinct.insert(hs[w][i]);
        for (uint32_t i = 0; i < s->nlabels; ++i) labels[s->labels[i].name] += s->labels[i].n;
        for (uint32_t i = 0; i < s->nknown; ++i) knownhit[s->known[i].name] += s->known[i].n;
        for (uint32_t i = 0; i < s->nsamples && samples.size() < 4; ++i) samples.push_back(s->samples[i]);
        if (s->failed == 1 && (fw < 0 || s->fail_n < ws[fw]->fail_n)) fw = (int)w;
        for (uint32_t i = 0; i < s->nunrep; ++i) unrep[s->unrep[i].name] += s->unrep[i].n;
    }
    // with real threads a failure may need luck to show again; seen in several cases, and more than once by one worker, it counts
    bool rare = false;
    for (uint32_t w = 0; w < W && fw < 0; ++w)
        for (uint32_t i = 0; i < ws[w]->nunrep; ++i)
            if (ws[w]->unrep[i].n >= 2 && unrep[ws[w]->unrep[i].name] >= 4 && !strncmp(ws[w]->unrep[i].name, ws[w]->fail_key, sizeof(label_t::name) - 1)) fw = (int)w, rare = true;
    int rc = 0;
    int violations = 0;
    std::string replay_path;
    if (fw >= 0)
    {
        worker_shared* s = ws[fw];
        std::vector<uint32_t> ch(s->fail_choices, s->fail_choices + s->fail_n);
        fprintf(stderr, "failing case %llu (%s), %u draws; shrinking\n", (unsigned long long)s->fail_case, s->fail_key, s->fail_n);
        shrinker sh{p, r, s->fail_key, now_s() + shrink_s, wall, ch, {}, s->fail_msg};
        for (uint32_t i = 0; i < s->fail_ns; ++i) sh.spans.push_back({s->fail_sb[i], s->fail_se[i]});
        if (!rare) sh.run();
        int confirmed = 0;
        outcome last;
        last.key = s->fail_key;
        last.msg = s->fail_msg;
        for (int k = 0; k < 3 && !rare; ++k)
        {
            outcome o = run_tries(p, r, sh.best, wall * 2, p.tries);
            if (o.status == st_fail)
            {
                ++confirmed;
                last = o;
            }
        }
        if (confirmed < 3)
        {
            // fall back to the unshrunk case
            confirmed = 0;
            sh.best = ch;
            if (p.tries > 1) confirmed = 2; // it has been seen in several runs already
            for (int k = 0; k < 3 && p.tries == 1; ++k)
            {
                outcome o = run_tries(p, r, sh.best, wall * 2, p.tries);
                if (o.status == st_fail)
                {
                    ++confirmed;
                    last = o;
                }
            }
        }
        if (confirmed >= 2)
        {
            ++violations;
            mkdir(replaydir.c_str(), 0777);
            replay_path = replaydir + "/" + id + "-" + tier + "-" + std::to_string(seed) + target + ".json";
            std::ofstream f(replay_path);
            f << "{\"property\": \"" << id << "\", \"key\": \"" << jesc(last.key) << "\", \"message\": \"" << jesc(last.msg)
              << "\",\n \"sample\": \"" << jesc(r->sample) << "\",\n \"case\": " << s->fail_case << ", \"seed\": " << seed
              << ", \"shrink_tries\": " << sh.tries << ",\n \"choices\": [";
            for (size_t i = 0; i < sh.best.size(); ++i) f << (i ? "," : "") << sh.best[i];
            f << "]}\n";
            f.close();
            printf("%s: %s\n", last.key.c_str(), last.msg.c_str());
            printf("minimised to %zu draws after %d attempts\n", sh.best.size(), sh.tries);
            printf("VIOLATION property=%s replay=%s\n", id.c_str(), replay_path.c_str());
            rc = 1;
        }
        else
        {
            ++inc;
            incmsg = std::string("failure did not replay: ") + s->fail_key + " " + s->fail_msg;
        }
    }
    for (auto& k : known_text)
        printf("KNOWN-FINDING: property=%s %s:%s (seen in %llu cases of this run)\n", id.c_str(), k.first.c_str(), k.second.c_str(), (unsigned long long)knownhit[k.first]);
    double wall_s = now_s() - t0;
    if (!out.empty())
    {
        std::ofstream f(out);
        f << "{\n \"property\": \"" << id << "\", \"tier\": \"" << tier << "\", \"seed\": " << seed
          << ", \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << ev << ",\n  \"distinct_nontrivial\": " << distinct.size()
          << ",\n  \"rule\": \"" << jesc(p.rule) << "\",\n  \"samples\": [";
        for (size_t i = 0; i < samples.size(); ++i) f << (i ? ",\n   " : "\n   ") << "\"" << jesc(samples[i]) << "\"";
        f << "],\n  \"discarded\": " << disc << ", \"inconclusive\": " << inc << ", \"draws\": " << nch << ", \"planned_cases\": " << cases
          << ",\n  \"classes\": {";
        bool first = true;
        for (auto& l : labels)
        {
            f << (first ? "" : ", ") << "\"" << jesc(l.first) << "\": " << l.second;
            first = false;
        }
        f << "}";
        if (!incmsg.empty()) f << ",\n  \"inconclusive_example\": \"" << jesc(incmsg) << "\"";
        f << "\n },\n \"assumptions\": [],\n \"wall_s\": " << wall_s << ", \"violations\": " << violations << "\n}\n";
    }
    printf("%s %s seed=%llu: %llu cases (%llu non-trivial, %zu distinct), %llu discarded, %llu inconclusive, %.1f s%s\n", id.c_str(), tier.c_str(),
           (unsigned long long)seed, (unsigned long long)ev, (unsigned long long)nt, distinct.size(), (unsigned long long)disc,
           (unsigned long long)inc, wall_s, rc ? ", VIOLATION" : "");
    if (!incmsg.empty()) printf("inconclusive example: %s\n", incmsg.substr(0, 400).c_str());
    return rc;
}
} // namespace pbt

extern "C" const char* __asan_default_options() { return "exitcode=99:detect_leaks=0:abort_on_error=0:handle_abort=0:allocator_may_return_null=1:detect_odr_violation=0"; }
extern "C" const char* __ubsan_default_options() { return "exitcode=99:print_stacktrace=1:halt_on_error=1"; }
