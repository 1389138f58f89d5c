#include "engine.hpp"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <poll.h>
#include <set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <filesystem>

using namespace std;
using namespace pbt;
namespace fs = std::filesystem;

// ---------------------------------------------------------------------------------------------
// The random engines of the library are seeded by std::random_device when the program starts.
// This definition replaces the one of libstdc++: the values only depend on PBT_RNG_SEED.
static uint64_t splitmix(uint64_t& x)
{
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
extern "C" unsigned int _ZNSt13random_device9_M_getvalEv(void*)
{
    static uint64_t state = [] { const char* s = getenv("PBT_RNG_SEED"); return s ? strtoull(s, nullptr, 10) * 7919 + 17 : 17; }();
    return (unsigned int)splitmix(state);
}

// ---------------------------------------------------------------------------------------------
static string scratchRoot; // all scratch directories of this run

vector<Prop>& pbt::props()
{
    static vector<Prop> p;
    return p;
}

Case::Case(Shared* shared, uint64_t seed, int size, const vector<uint32_t>* replay)
    : size(size), shared(shared), state(seed), replay(replay)
{
    shared->n = 0;
    shared->status = RUNNING;
    shared->nontrivial = 0;
    shared->sub = 0;
    shared->message[0] = shared->text[0] = shared->labels[0] = shared->known[0] = 0;
}

uint32_t Case::draw(uint32_t bound)
{
    if (bound == 0)
        bound = 1;
    const uint32_t i = shared->n;
    if (i >= MAX_CHOICES)
        throw Discarded();
    uint32_t v;
    if (replay != nullptr)
        v = i < replay->size() ? min((*replay)[i], bound - 1) : 0;
    else
        v = (uint32_t)(((splitmix(state) >> 32) * (uint64_t)bound) >> 32);
    shared->choices[i] = v;
    shared->n = i + 1;
    return v;
}

int Case::range(int lo, int hi) { return lo + (int)draw((uint32_t)(hi - lo + 1)); }

int Case::ranged(int lo, int hi)
{
    const int top = lo + (int)ceil((hi - lo) * min(1.0, 0.15 + size / 100.0));
    if (chance(60))
        return range(lo, top);
    return range(lo, min(top, lo + 3));
}

int Case::ranged(int lo, int hi, int huge) { return chance(4) ? range(lo, huge) : ranged(lo, hi); }

bool Case::chance(int percent)
{
    return draw(100) >= (uint32_t)(100 - percent);
}

double Case::real(double amplitude)
{
    // few bits most of the time: easy to read, and still any value of a 16 bits grid
    const uint32_t u = chance(70) ? draw(1 << 16) : draw(33) * 2048;
    const int z = u & 1 ? -(int)((u + 1) / 2) : (int)((u + 1) / 2);
    return amplitude * z / 32768.0;
}

int Case::weighted(initializer_list<int> weights)
{
    int total = 0;
    for (int w : weights) total += w;
    int v = (int)draw((uint32_t)total);
    int i = 0;
    for (int w : weights)
    {
        if (v < w) return i;
        v -= w;
        ++i;
    }
    return 0;
}

static void append(char* buffer, size_t size, const string& s)
{
    const size_t used = strlen(buffer);
    if (used + 1 >= size) return;
    strncat(buffer, s.c_str(), size - used - 1);
}

void Case::label(const string& l)
{
    if (find(labelsSeen.begin(), labelsSeen.end(), l) != labelsSeen.end())
        return;
    labelsSeen.push_back(l);
    append(shared->labels, sizeof(shared->labels), l + "\n");
}
void Case::text(const string& t) { append(shared->text, sizeof(shared->text), t + "\n"); }
void Case::known(const string& id)
{
    if (string(shared->known).find(id + "\n") == string::npos)
        append(shared->known, sizeof(shared->known), id + "\n");
}
void Case::fail(const string& message) { throw Violation{message}; }

string Case::scratch()
{
    if (scratchDir.empty())
    {
        scratchDir = scratchRoot + "/case-" + to_string(getpid());
        fs::create_directories(scratchDir);
    }
    return scratchDir;
}

vector<float> pbt::inFork(const function<vector<float>()>& f)
{
    constexpr size_t MAX = 1 << 20;
    struct Result { uint32_t status; uint32_t n; char message[2048]; float values[MAX]; };
    auto* r = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (r == MAP_FAILED) throw runtime_error("mmap failed");
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid < 0) throw runtime_error("fork failed");
    if (pid == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        try
        {
            auto v = f();
            r->n = (uint32_t)min(v.size(), MAX);
            copy_n(v.begin(), r->n, r->values);
            r->status = 1;
        }
        catch (const Violation& v) { strncpy(r->message, v.message.c_str(), sizeof(r->message) - 1); r->status = 2; }
        catch (const Discarded&) { r->status = 3; }
        catch (const exception& e) { strncpy(r->message, e.what(), sizeof(r->message) - 1); r->status = 4; }
        _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    const uint32_t s = r->status;
    vector<float> values(r->values, r->values + r->n);
    const string message = r->message;
    munmap(r, sizeof(Result));
    if (WIFSIGNALED(status))
    {
        signal(WTERMSIG(status), SIG_DFL);
        raise(WTERMSIG(status)); // same fate as the child
    }
    if (WEXITSTATUS(status) != 0) _exit(WEXITSTATUS(status));
    if (s == 2) throw Violation{message};
    if (s == 3) throw Discarded();
    if (s == 4) throw runtime_error(message);
    if (s != 1) throw Violation{"the process of a part of the case ended without a result"};
    return values;
}

// ---------------------------------------------------------------------------------------------
struct Outcome
{
    Status status = PASS;
    string message, text;
    vector<uint32_t> choices;
    vector<string> labels, known;
    bool nontrivial = false;
    uint32_t sub = 0;
};

static Shared* newShared()
{
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Shared*)p;
}

static vector<string> lines(const char* s)
{
    vector<string> v;
    istringstream in(s);
    for (string l; getline(in, l);) v.push_back(l);
    return v;
}

static bool crashesOnly = false; // C22: only crashes and hangs count
static int cpuLimit = 20, wallLimit = 60;

static Outcome runCase(Shared* shared, const Prop& prop, uint64_t seed, int size, const vector<uint32_t>* replay)
{
    shared->n = 0;
    shared->status = RUNNING;
    shared->message[0] = shared->text[0] = shared->labels[0] = shared->known[0] = 0;
    const string log = scratchRoot + "/log-" + to_string(getpid());
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        setpgid(0, 0);
        rlimit cpu{(rlim_t)cpuLimit, (rlim_t)cpuLimit + 5};
        setrlimit(RLIMIT_CPU, &cpu);
        rlimit core{0, 0};
        setrlimit(RLIMIT_CORE, &core);
        const int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
        Case c(shared, seed, size, replay);
        Status status = PASS;
        try
        {
            prop.fn(c);
            if (shared->known[0]) status = KNOWN;
        }
        catch (const Violation& v) { status = FAIL; strncpy(shared->message, v.message.c_str(), sizeof(shared->message) - 1); shared->message[sizeof(shared->message) - 1] = 0; }
        catch (const Discarded&) { status = DISCARD; }
        catch (const exception& e) { status = FAIL; snprintf(shared->message, sizeof(shared->message), "unexpected exception: %s", e.what()); }
        catch (...) { status = FAIL; snprintf(shared->message, sizeof(shared->message), "unexpected exception"); }
        shared->status = status;
        _exit(0);
    }
    Outcome o;
    int status = 0;
    bool killed = false;
    const int pfd = (int)syscall(SYS_pidfd_open, pid, 0);
    if (pfd >= 0)
    {
        pollfd p{pfd, POLLIN, 0};
        const auto end = chrono::steady_clock::now() + chrono::seconds(wallLimit);
        while (true)
        {
            const auto left = chrono::duration_cast<chrono::milliseconds>(end - chrono::steady_clock::now()).count();
            if (left <= 0) { killed = true; break; }
            const int r = poll(&p, 1, (int)left);
            if (r > 0) break;
            if (r == 0) { killed = true; break; }
        }
        close(pfd);
        if (killed) kill(-pid, SIGKILL), kill(pid, SIGKILL);
    }
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    kill(-pid, SIGKILL); // whatever the case left behind
    error_code ec;
    fs::remove_all(scratchRoot + "/case-" + to_string(pid), ec);

    o.choices.assign(shared->choices, shared->choices + min<size_t>(shared->n, MAX_CHOICES));
    o.text = shared->text;
    o.labels = lines(shared->labels);
    o.known = lines(shared->known);
    o.nontrivial = shared->nontrivial;
    o.sub = shared->sub;
    o.message = shared->message;
    if (killed) { o.status = HANG; o.message = cat("no answer after ", wallLimit, " s"); }
    else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGXCPU) { o.status = HANG; o.message = cat("no answer after ", cpuLimit, " s of CPU time"); }
    else if (WIFSIGNALED(status) || WEXITSTATUS(status) != 0 || shared->status == RUNNING)
    {
        o.status = CRASH;
        o.message = WIFSIGNALED(status) ? cat("crash: signal ", WTERMSIG(status), " (", strsignal(WTERMSIG(status)), ")") : cat("crash: exit code ", WEXITSTATUS(status));
        ifstream in(log);
        string l;
        int n = 0;
        while (getline(in, l) && n < 14)
            if (l.find("ERROR") != string::npos || l.find("runtime error") != string::npos || l.find("    #") == 0 || l.find("Assert") != string::npos || l.find("terminate") != string::npos || l.find("what()") != string::npos)
            {
                o.message += "\n    " + l;
                ++n;
            }
    }
    else o.status = (Status)shared->status;
    if (crashesOnly && (o.status == FAIL || o.status == KNOWN)) { o.status = PASS; }
    unlink(log.c_str());
    return o;
}

static bool acceptRare = false;
static bool bad(const Outcome& o) { return o.status == FAIL || o.status == CRASH || o.status == HANG; }

// ---------------------------------------------------------------------------------------------
static uint64_t caseSeed(uint64_t seed, const Prop& p, int i)
{
    uint64_t h = 1469598103934665603ull ^ seed * 0x9e3779b97f4a7c15ull;
    for (const char* s : {p.check, p.name})
        for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull;
    h ^= (uint64_t)i * 0xd1342543de82ef95ull;
    splitmix(h);
    return splitmix(h);
}
static int caseSize(int i, int n) { return n <= 1 ? 100 : min(100, 5 + (int)(100ll * ((i * 7919ll) % n) / n)); }

static Outcome shrink(Shared* shared, const Prop& prop, int size, Outcome best, double seconds)
{
    const auto start = chrono::steady_clock::now();
    auto over = [&] { return chrono::duration<double>(chrono::steady_clock::now() - start).count() > seconds; };
    auto attempt = [&](const vector<uint32_t>& v)
    {
        Outcome o = runCase(shared, prop, 0, size, &v);
        if (bad(o) && o.status != HANG && (o.choices.size() < best.choices.size() || (o.choices.size() == best.choices.size() && o.choices < best.choices)))
        {
            best = o;
            return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && !over())
    {
        progress = false;
        for (size_t len = max<size_t>(1, best.choices.size() / 2); len >= 1 && !over(); len /= 2)
            for (size_t i = 0; i + len <= best.choices.size() && !over();)
            {
                auto v = best.choices;
                v.erase(v.begin() + (long)i, v.begin() + (long)(i + len));
                if (attempt(v)) progress = true;
                else i += len;
            }
        for (size_t len = max<size_t>(1, best.choices.size() / 4); len >= 1 && !over(); len /= 4)
            for (size_t i = 0; i < best.choices.size() && !over(); i += len)
            {
                auto v = best.choices;
                bool any = false;
                for (size_t j = i; j < min(v.size(), i + len); ++j) { any |= v[j] != 0; v[j] = 0; }
                if (any && attempt(v)) progress = true;
            }
        for (size_t i = 0; i < best.choices.size() && !over(); ++i)
            for (int step = 0; step < 12 && i < best.choices.size() && best.choices[i] > 0 && !over(); ++step)
            {
                auto v = best.choices;
                v[i] /= 2;
                if (attempt(v)) { progress = true; continue; }
                v = best.choices;
                v[i] -= 1;
                if (attempt(v)) { progress = true; continue; }
                break;
            }
    }
    return best;
}

static string jsonString(const string& s)
{
    string r = "\"";
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; }
        else if (ch == '\n') r += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
        else r += (char)ch;
    }
    return r + "\"";
}

// Output protocol (read by run.py): one line per fact on stdout
//   STAT <prop> <evaluations> <nontrivial> <discarded> <comparisons> <wall>
//   DISTINCT <prop> <n>    LABEL <prop> <n> <label>    KNOWN <prop> <n> <id>    SAMPLE <prop> <json>
//   FAIL <prop> <json {size, choices, message, text, status}>
static int runProp(const Prop& prop, int cases, uint64_t seed, int workers, double budget, const set<string>& listed)
{
    const auto start = chrono::steady_clock::now();
    // the first case that fails, and what it said then
    auto* minFail = (volatile int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    char* const said = (char*)minFail + 64;
    long evaluations = 0, nontrivial = 0, discarded = 0, sub = 0;
    set<uint64_t> hashes;
    map<string, long> labels, known;
    vector<string> samples;
    int result = 0;
    // after a failure that its replay does not reproduce, the search goes on with the next case
    for (int first = 0, round = 0; first < cases && result != 2 && round < 6; ++round)
    {
    *minFail = INT32_MAX;
    *said = 0;
    vector<pid_t> pids;
    fflush(nullptr);
    for (int w = 0; w < workers; ++w)
    {
        const pid_t pid = fork();
        if (pid < 0) { perror("fork"); exit(2); }
        if (pid == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            Shared* shared = newShared();
            map<string, long> labels, known;
            long evaluations = 0, nontrivial = 0, discarded = 0, sub = 0;
            set<uint64_t> hashes;
            vector<string> samples;
            for (int i = first + w; i < cases && i < *minFail; i += workers)
            {
                if (chrono::duration<double>(chrono::steady_clock::now() - start).count() > budget) { labels["TIME BUDGET REACHED"]++; break; }
                Outcome o = runCase(shared, prop, caseSeed(seed, prop, i), caseSize(i, cases), nullptr);
                evaluations++;
                if (o.status == DISCARD) { discarded++; continue; }
                sub += o.sub;
                for (auto& l : o.labels) labels[l]++;
                for (auto& k : o.known) known[k]++;
                if (o.status == KNOWN)
                    for (auto& k : o.known)
                        if (!listed.count(k)) { o.status = FAIL; o.message = "unlisted finding " + k; }
                if (o.nontrivial)
                {
                    nontrivial++;
                    uint64_t h = 1469598103934665603ull;
                    for (auto ch : o.choices) h = (h ^ ch) * 1099511628211ull;
                    hashes.insert(h);
                    if (samples.size() < 2 && o.status != FAIL && i > cases / 8) samples.push_back(o.text);
                }
                if (bad(o))
                {
                    while (true) // atomic minimum
                    {
                        int m = *minFail;
                        if (m <= i) break;
                        if (!__sync_bool_compare_and_swap((int*)minFail, m, i)) continue;
                        snprintf(said, 2000, "%s", (string(o.status == HANG ? "hang " : o.status == CRASH ? "crash " : "") + o.message).c_str());
                        break;
                    }
                }
            }
            ofstream out(scratchRoot + "/w" + to_string(w));
            out << "N " << evaluations << " " << nontrivial << " " << discarded << " " << sub << "\n";
            for (auto h : hashes) out << "H " << h << "\n";
            for (auto& [l, n] : labels) out << "L " << n << " " << l << "\n";
            for (auto& [k, n] : known) out << "K " << n << " " << k << "\n";
            for (auto& s : samples) out << "S " << jsonString(s) << "\n";
            out.close();
            _exit(0);
        }
        pids.push_back(pid);
    }
    for (auto pid : pids)
    {
        int status = 0;
        while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
        if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) { cerr << "a worker failed" << endl; exit(2); }
    }
    for (int w = 0; w < workers; ++w)
    {
        ifstream in(scratchRoot + "/w" + to_string(w));
        for (string l; getline(in, l);)
        {
            istringstream s(l);
            char kind; s >> kind;
            if (kind == 'N') { long a, b, d, e; s >> a >> b >> d >> e; evaluations += a; nontrivial += b; discarded += d; sub += e; }
            else if (kind == 'H') { uint64_t h; s >> h; hashes.insert(h); }
            else if (kind == 'L' || kind == 'K') { long n; s >> n; s.get(); string t; getline(s, t); (kind == 'L' ? labels : known)[t] += n; }
            else if (kind == 'S' && samples.size() < 4) samples.push_back(l.substr(2));
        }
        unlink((scratchRoot + "/w" + to_string(w)).c_str());
    }
    const int failing = *minFail;
    first = cases;
    if (failing != INT32_MAX)
    {
        Shared* shared = newShared();
        const int size = caseSize(failing, cases);
        Outcome o = runCase(shared, prop, caseSeed(seed, prop, failing), size, nullptr);
        auto listedOnly = [&](Outcome& x)
        {
            if (x.status == KNOWN)
                for (auto& k : x.known)
                    if (!listed.count(k)) { x.status = FAIL; x.message = "unlisted finding " + k; }
        };
        listedOnly(o);
        // schedules are not reproduced by a replay: one failure in many runs is enough, the oracle does not depend on time
        for (int i = 0; acceptRare && !bad(o) && i < 60; ++i) { o = runCase(shared, prop, caseSeed(seed, prop, failing), size, nullptr); listedOnly(o); }
        const bool reproduced = bad(o);
        if (reproduced && o.status != HANG && o.message.find("unlisted finding") != 0)
        {
            Outcome s = shrink(shared, prop, size, o, 25);
            if (bad(s)) o = s;
        }
        int again = 0;
        const int times = o.status == HANG ? 1 : acceptRare ? 30 : 3;
        for (int i = 0; i < times; ++i)
        {
            Outcome r = runCase(shared, prop, 0, size, &o.choices);
            listedOnly(r);
            if (bad(r)) { again++; }
        }
        ostringstream v;
        v << "{\"size\": " << size << ", \"case\": " << failing << ", \"status\": " << (int)o.status << ", \"reproduced\": " << again << ", \"message\": " << jsonString(o.message) << ", \"first\": " << jsonString(said)
          << ", \"text\": " << jsonString(o.text) << ", \"choices\": [";
        for (size_t i = 0; i < o.choices.size(); ++i) v << (i ? ", " : "") << o.choices[i];
        v << "]}";
        const bool confirmed = reproduced && (acceptRare || again == times);
        cout << (confirmed ? "FAIL " : "FLAKY ") << prop.name << " " << v.str() << endl;
        result = confirmed ? 2 : 1;
        first = failing + 1;
        munmap(shared, sizeof(Shared));
    }
    }
    munmap((void*)minFail, 4096);
    const double wall = chrono::duration<double>(chrono::steady_clock::now() - start).count();
    cout << "STAT " << prop.name << " " << evaluations << " " << nontrivial << " " << discarded << " " << sub << " " << wall << endl;
    cout << "DISTINCT " << prop.name << " " << hashes.size() << endl;
    cout << "RULE " << prop.name << " " << prop.rule << endl;
    for (auto& [l, n] : labels) cout << "LABEL " << prop.name << " " << n << " " << l << endl;
    for (auto& [k, n] : known) cout << "KNOWN " << prop.name << " " << n << " " << k << endl;
    for (auto& s : samples) cout << "SAMPLE " << prop.name << " " << s << endl;
    return result;
}

int main(int argc, char** argv)
{
    string check, only, replayFile;
    uint64_t seed = 1;
    bool thorough = false;
    int workers = 8;
    double scale = 1, budget = 1e9;
    set<string> listed;
    for (int i = 1; i < argc; ++i)
    {
        const string a = argv[i];
        auto next = [&] { return string(argv[++i]); };
        if (a == "--check") check = next();
        else if (a == "--prop") only = next();
        else if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--thorough") thorough = true;
        else if (a == "--workers") workers = stoi(next());
        else if (a == "--scale") scale = stod(next());
        else if (a == "--budget") budget = stod(next());
        else if (a == "--listed") listed.insert(next());
        else if (a == "--crashes-only") crashesOnly = true;
        else if (a == "--accept-rare") acceptRare = true;
        else if (a == "--cpu") cpuLimit = stoi(next());
        else if (a == "--wall") wallLimit = stoi(next());
        else if (a == "--replay") replayFile = next(); // "size choice choice ..."
        else if (a == "--list") { for (auto& p : props()) cout << p.check << " " << p.name << " " << p.quick << " " << p.thorough << endl; return 0; }
    }
    if (!getenv("PBT_RNG_SEED")) { cerr << "PBT_RNG_SEED is not set" << endl; return 2; }
    char tmpl[] = "/tmp/pbt-XXXXXX";
    scratchRoot = mkdtemp(tmpl);
    signal(SIGPIPE, SIG_IGN);
    int result = 0;
    vector<Prop> selected;
    for (auto& p : props())
        if ((check.empty() || check == p.check) && (only.empty() || only == p.name)) selected.push_back(p);
    sort(selected.begin(), selected.end(), [](auto& a, auto& b) { return string(a.check) + a.name < string(b.check) + b.name; });
    if (selected.empty()) { cerr << "no such property" << endl; result = 2; }
    else if (!replayFile.empty())
    {
        ifstream in(replayFile);
        int size; in >> size;
        vector<uint32_t> choices;
        for (uint32_t v; in >> v;) choices.push_back(v);
        Shared* shared = newShared();
        Outcome o = runCase(shared, selected[0], 0, size, &choices);
        cout << "status " << o.status << " (1 pass, 2 discarded, 3 failure, 4 known finding, 5 crash, 6 hang)\n" << o.text << o.message << endl;
        for (auto& k : o.known) cout << "known finding " << k << endl;
        result = bad(o) ? 1 : 0;
    }
    else
    {
        const auto start = chrono::steady_clock::now();
        bool failed = false;
        for (auto& p : selected)
        {
            // cases that hang take long: once a violation is there, the rest is left out when the time gets short
            if (failed && !thorough && chrono::duration<double>(chrono::steady_clock::now() - start).count() > 200) break;
            const int n = max(1, (int)((thorough ? p.thorough : p.quick) * scale));
            // for each property; a quick check has to end in time on a machine that is busy with something else too
            const double elapsed = chrono::duration<double>(chrono::steady_clock::now() - start).count();
            const double left = thorough ? budget : min(budget, max(4.0, 450 - elapsed));
            const int r = runProp(p, n, seed, workers, left, listed);
            if (r) result = 1;
            failed |= r == 2;
        }
    }
    error_code ec;
    fs::remove_all(scratchRoot, ec);
    return result;
}
