// C20 A failed save or an incomplete file is always reported
#include "model.hpp"
#include <csignal>
#include <filesystem>
#include <fstream>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace m;
using namespace std;
namespace fs = std::filesystem;

namespace
{
    unique_ptr<StraightforwardNeuralNetwork> load(const string& f) { return unique_ptr<StraightforwardNeuralNetwork>(&StraightforwardNeuralNetwork::loadFrom(f)); }

    struct SizeLimit // like a disk that is full after some bytes
    {
        rlimit before{};
        explicit SizeLimit(rlim_t bytes)
        {
            signal(SIGXFSZ, SIG_IGN);
            getrlimit(RLIMIT_FSIZE, &before);
            rlimit l{bytes, before.rlim_max};
            setrlimit(RLIMIT_FSIZE, &l);
        }
        ~SizeLimit() { setrlimit(RLIMIT_FSIZE, &before); }
    };

    struct NoDescriptor // no file can be opened any more
    {
        rlimit before{};
        NoDescriptor()
        {
            const int next = open("/dev/null", O_RDONLY);
            if (next >= 0) close(next);
            getrlimit(RLIMIT_NOFILE, &before);
            rlimit l{(rlim_t)max(next, 0), before.rlim_max};
            setrlimit(RLIMIT_NOFILE, &l);
        }
        ~NoDescriptor() { setrlimit(RLIMIT_NOFILE, &before); }
    };

    struct Nobody // an user without permission
    {
        bool ok;
        Nobody() : ok(geteuid() != 0 || seteuid(65534) == 0) {}
        ~Nobody() { if (getuid() == 0 && seteuid(0) != 0) abort(); }
    };

    struct Fault
    {
        enum Kind { FOLDER, IS_FOLDER, PARENT_IS_FILE, FULL, LONG, EMPTY, LINK, SIZE, DESCRIPTOR, PERMISSION, READ_ONLY, COUNT } kind;
        string path;
        long limit = 0; // SIZE
        string text() const
        {
            static const char* names[] = {"missing folder", "folder", "parent is a file", "full device", "too long name", "empty name", "link to a missing folder", "size limit ", "no descriptor", "no permission", "read only file"};
            return names[kind] + (kind == SIZE ? to_string(limit) : "");
        }
    };

    bool exists(const string& p) { error_code e; return fs::exists(p, e); }

    // the size of the file of a network when it is saved there
    long fileSize(StraightforwardNeuralNetwork& nn, const string& path)
    {
        return (long)pbt::inFork([&]
        {
            nn.saveAs(path);
            const auto s = (float)fs::file_size(path);
            fs::remove(path);
            return vector<float>{s};
        })[0];
    }

    Fault genFault(pbt::Case& c, const string& dir)
    {
        Fault f{(Fault::Kind)c.weighted({2, 1, 1, 2, 1, 1, 1, 6, 1, 1, 1})};
        fs::permissions(dir, fs::perms(0755));
        switch (f.kind)
        {
        case Fault::FOLDER: f.path = dir + "/missing/n.snn"; break;
        case Fault::IS_FOLDER: f.path = dir + "/folder"; fs::create_directories(f.path); break;
        case Fault::PARENT_IS_FILE: ofstream(dir + "/file") << "x"; f.path = dir + "/file/n.snn"; break;
        case Fault::FULL: f.path = "/dev/full"; if (!exists(f.path)) c.discard(); break;
        case Fault::LONG: f.path = dir + "/" + string(300, 'x'); break;
        case Fault::EMPTY: f.path = ""; break;
        case Fault::LINK: f.path = dir + "/link"; if (!fs::is_symlink(f.path)) fs::create_symlink(dir + "/nowhere/n.snn", f.path); break;
        case Fault::SIZE: f.path = dir + "/limited.snn"; break;
        case Fault::DESCRIPTOR: f.path = dir + "/n.snn"; break;
        case Fault::PERMISSION:
            fs::create_directories(dir + "/closed");
            chmod((dir + "/closed").c_str(), 0555);
            f.path = dir + "/closed/n.snn";
            break;
        case Fault::READ_ONLY:
            f.path = dir + "/readonly.snn";
            if (!exists(f.path)) { ofstream(f.path) << "x"; chmod(f.path.c_str(), 0444); }
            break;
        default: break;
        }
        c.label(f.text().substr(0, 10));
        return f;
    }

    // runs f with the fault, true if it throws a standard exception; anything else ends the case
    bool throws(pbt::Case& c, const Fault& f, const function<void()>& what)
    {
        auto run = [&]
        {
            try { what(); }
            catch (const pbt::Discarded&) { throw; }
            catch (const pbt::Violation&) { throw; }
            catch (const exception&) { return true; }
            return false;
        };
        switch (f.kind)
        {
        case Fault::SIZE: { SizeLimit l((rlim_t)f.limit); return run(); }
        case Fault::DESCRIPTOR: { NoDescriptor n; return run(); }
        case Fault::PERMISSION: case Fault::READ_ONLY:
        {
            Nobody n;
            if (!n.ok) c.discard();
            return run();
        }
        default: return run();
        }
    }

    LiveGen generator(pbt::Case& c)
    {
        LiveGen g;
        g.maxPast = 3;
        if (c.chance(40)) g.net.opts = {DROPOUT, L1, L2, MULT, SOFTMAX};
        if (c.chance(30)) { g.net.maxInputs = 60; g.net.maxNeurons = 12; } // more than what a stream keeps in memory
        return g;
    }

    const vector<Op::Kind> uses{Op::TRAIN_ONCE, Op::INFER, Op::TRAIN, Op::EVALUATE, Op::SET, Op::RATE};
}

PROPERTY(C20, failingSaves, 4000, 120000, "at least one save fails and one succeeds after it, in a history that trains")
{
    Live live = genLive(c, generator(c));
    auto& nn = *live.nn;
    const string dir = c.scratch();
    nn.autoSaveFilePath = "first name";
    const auto next = genOps(c, live.net, live.spec, c.ranged(1, 6), uses);
    c.text("then: " + m::text(next));
    // the statistics apart, the history without saves
    const auto expected = pbt::inFork([&] { return play(next, live.net, nn, *live.data); });
    vector<float> log = observe(live.net, nn);
    string path = nn.autoSaveFilePath;
    bool failed = false, later = false, trained = false;
    for (size_t i = 0; i < next.size(); ++i)
    {
        for (int k = c.range(0, 2); k > 0; --k)
        {
            StraightforwardNeuralNetwork before(nn);
            if (c.chance(30)) // a save that is possible
            {
                const string to = dir + "/good" + to_string(c.range(0, 2));
                nn.saveAs(to);
                path = to;
                auto l = load(to);
                c.check(*l == nn, "the network loaded from a save is not equal");
                before.autoSaveFilePath = to;
                later |= failed;
                c.text("[saved]");
            }
            else
            {
                auto f = genFault(c, dir);
                bool mayFail = true;
                if (f.kind == Fault::SIZE)
                {
                    const long size = fileSize(nn, f.path);
                    f.limit = c.chance(20) ? size - c.range(1, 3) : c.chance(20) ? size + c.range(0, 2) : (long)c.draw((uint32_t)size + 1);
                    mayFail = f.limit < size;
                }
                c.text("[" + f.text() + "]");
                const bool t = throws(c, f, [&] { nn.saveAs(f.path); });
                c.check(t == mayFail, mayFail ? "a save that fails is not reported: " + f.text() : "a save that is possible throws: " + f.text());
                if (!mayFail)
                {
                    path = f.path;
                    before.autoSaveFilePath = path;
                    auto l = load(path);
                    c.check(*l == nn, "the network loaded from a save that just fits is not equal");
                }
                else
                {
                    failed = true;
                    // what was written of it is no network
                    if (f.kind == Fault::SIZE && exists(f.path))
                    {
                        c.check((long)fs::file_size(f.path) <= f.limit, "the file is bigger than the limit");
                    }
                }
                if (f.kind == Fault::SIZE) fs::remove(f.path);
            }
            c.check(nn.autoSaveFilePath == path, "the path of the automatic save is " + nn.autoSaveFilePath + " instead of " + path);
            c.check(nn == before && !nn.isTraining(), "a save changes the network");
        }
        apply(next[i], live.net, nn, *live.data, log);
        const auto o = observe(live.net, nn);
        log.insert(log.end(), o.begin(), o.end());
        trained |= next[i].kind == Op::TRAIN || next[i].kind == Op::TRAIN_ONCE;
    }
    const auto d = differs(expected, log);
    c.check(d.empty(), "saves, also those that fail, change what the network does: " + d);
    nn.saveAs(dir + "/end.snn");
    c.check(*load(dir + "/end.snn") == nn, "the network loaded at the end is not equal");
    if (failed && later && trained) c.nontrivial();
}

PROPERTY(C20, cutFiles, 8000, 250000, "the file is cut after its first value and before its last one")
{
    // a file that is not complete is never a network
    Live live = genLive(c, generator(c));
    auto& nn = *live.nn;
    const string dir = c.scratch(), path = dir + "/n.snn";
    nn.saveAs(path);
    const string content = readFile(path);
    size_t end = content.find_last_not_of(" \n");
    c.check(end != string::npos, "the file is empty");
    size_t lastToken = content.find_last_of(" \n", end) + 1;
    const auto next = genOps(c, live.net, live.spec, 2, uses);
    for (int i = c.range(1, 6); i > 0; --i)
    {
        const string other = dir + "/cut.snn";
        fs::remove_all(other);
        string what;
        switch (c.weighted({12, 3, 1, 1, 1}))
        {
        case 0:
        case 1: // cut anywhere, or at the beginning and the end
        {
            size_t cut = 0;
            switch (c.range(0, 3))
            {
            case 0: cut = c.draw((uint32_t)lastToken + 1); break;
            case 1: cut = min(lastToken, (size_t)c.range(0, 80)); break;
            case 2: cut = lastToken - min(lastToken, (size_t)c.range(0, 80)); break;
            case 3: // between two values
                cut = content.find_first_of(" \n", c.draw((uint32_t)lastToken + 1));
                if (cut == string::npos || cut > lastToken) cut = lastToken;
                break;
            }
            ofstream(other, ios::binary) << content.substr(0, cut);
            what = pbt::cat("a file cut after ", cut, " of ", content.size(), " bytes");
            if (cut > 3) c.nontrivial();
            break;
        }
        case 2: what = "a missing file"; break;
        case 3: fs::create_directories(other); what = "a folder"; break;
        case 4: ofstream(other, ios::binary) << ""; what = "an empty file"; break;
        }
        c.text(what);
        bool reported = false;
        try
        {
            auto l = load(other);
        }
        catch (const exception&) { reported = true; }
        c.check(reported, what + " is loaded");
    }
    // the complete one still is, and everything goes on
    auto l = load(path);
    c.check(*l == nn, "the complete file is not loaded");
    const auto a = pbt::inFork([&] { return play(next, live.net, nn, *live.data); });
    const auto d = differs(a, pbt::inFork([&] { return play(next, live.net, *l, *live.data); }));
    c.check(d.empty(), "the network loaded after failures behaves in another way: " + d);
}

PROPERTY(C20, crash, 1200, 30000, "the process is killed after it wrote a part of the file")
{
    // the process dies at any byte of the save
    Live live = genLive(c, generator(c));
    auto& nn = *live.nn;
    const string path = c.scratch() + "/n.snn";
    const bool old = c.chance(40);
    const long size = fileSize(nn, path);
    StraightforwardNeuralNetwork expected(nn);
    expected.autoSaveFilePath = path;
    const string complete = [&] { nn.saveAs(path); auto r = readFile(path); return r; }();
    if (!old) fs::remove(path); // else an older file is replaced
    const size_t end = complete.find_last_not_of(" \n");
    const long lastToken = (long)complete.find_last_of(" \n", end) + 1;
    long limit = c.chance(20) ? size + c.range(0, 2) : c.chance(20) ? max(0l, lastToken - c.range(0, 20)) : (long)c.draw((uint32_t)lastToken + 1);
    c.text(pbt::cat("killed at ", limit, " of ", size, old ? ", the file existed" : ""));
    const pid_t pid = fork();
    if (pid == 0)
    {
        signal(SIGXFSZ, SIG_DFL);
        rlimit l{(rlim_t)limit, RLIM_INFINITY};
        getrlimit(RLIMIT_FSIZE, &l);
        l.rlim_cur = (rlim_t)limit;
        setrlimit(RLIMIT_FSIZE, &l);
        rlimit core{0, 0};
        setrlimit(RLIMIT_CORE, &core);
        try { nn.saveAs(path); }
        catch (...) { _exit(3); }
        _exit(0);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    const bool finished = WIFEXITED(status) && WEXITSTATUS(status) == 0;
    c.check(finished == (limit >= size), pbt::cat("the save ends with the status ", status));
    const long written = exists(path) ? (long)fs::file_size(path) : 0;
    unique_ptr<StraightforwardNeuralNetwork> l;
    try { l = load(path); }
    catch (const exception&) {}
    if (written > lastToken && written < size) c.discard(); // the last value is cut
    c.check((l != nullptr) == (written == size), pbt::cat("a file of ", written, " bytes of ", size, l ? " is loaded" : " is not loaded"));
    if (l) c.check(*l == expected, "the loaded network is not equal");
    if (!finished && written > 0) c.nontrivial();
}

PROPERTY(C20, automaticSave, 2500, 80000, "the automatic save fails")
{
    Live live = genLive(c, generator(c));
    auto& nn = *live.nn;
    const string dir = c.scratch();
    Fault f = genFault(c, dir);
    if (f.kind == Fault::DESCRIPTOR) c.discard();
    nn.autoSaveFilePath = f.path;
    nn.autoSaveWhenBetter = true;
    if (f.kind == Fault::SIZE) f.limit = c.draw((uint32_t)fileSize(nn, f.path) / 2 + 1);
    c.text(f.text());
    // what the evaluation gives without an automatic save
    const auto next = genOps(c, live.net, live.spec, c.range(1, 3), {Op::TRAIN_ONCE, Op::INFER, Op::TRAIN, Op::EVALUATE});
    c.text("then " + m::text(next));
    StraightforwardNeuralNetwork twin(nn);
    twin.autoSaveWhenBetter = false;
    const float best = nn.getGlobalClusteringRateMax();
    const bool training = c.chance(50);
    if (training)
    {
        // the training is ended by the first evaluation that is better
        const bool t = throws(c, f, [&] { nn.train(*live.data, snn::operator""_ep(2ull), 1, 1); });
        if (nn.hasNan()) c.discard();
        c.check(t == (nn.getGlobalClusteringRateMax() > best), pbt::cat("an automatic save that fails in a training is ", t ? "" : "not ", "reported, best accuracy before ", best, " and after ", nn.getGlobalClusteringRateMax()));
        c.check(!nn.isTraining(), "the network is training after a failure");
        c.check(nn.autoSaveFilePath == f.path, "the path of the automatic save is changed");
        if (!t) return;
        nn.autoSaveWhenBetter = false;
        StraightforwardNeuralNetwork same(nn);
        c.check(same == nn, "the copy after a failure is not equal");
        const auto a = pbt::inFork([&] { return play(next, live.net, nn, *live.data); });
        const auto d = differs(a, pbt::inFork([&] { return play(next, live.net, same, *live.data); }));
        c.check(d.empty(), "after a failure the network does not behave as its copy: " + d);
        const auto trainings = nn.getNumberOfTraining();
        nn.train(*live.data, snn::operator""_ep(live.spec.recurrences + 1ull), 1, 0);
        c.check(!nn.isTraining() && (nn.hasNan() || nn.getNumberOfTraining() > trainings), "after a failure the network does not train");
    }
    else
    {
        const bool t = throws(c, f, [&] { nn.evaluate(*live.data); });
        twin.evaluate(*live.data);
        c.check(t == (twin.getGlobalClusteringRateMax() > best), "an automatic save that fails in an evaluation is not reported, or one is reported that was not made");
        c.check(!nn.isTraining(), "the network is training after a failure");
        c.check(nn.autoSaveFilePath == f.path, "the path of the automatic save is changed");
        nn.autoSaveWhenBetter = false;
        const auto a = pbt::inFork([&] { return play(next, live.net, nn, *live.data); });
        const auto d = differs(a, pbt::inFork([&] { return play(next, live.net, twin, *live.data); }));
        c.check(d.empty(), "after a failure the network behaves in another way: " + d);
        if (!t) return;
    }
    const string good = dir + "/good.snn";
    nn.saveAs(good);
    c.check(*load(good) == nn, "after a failure the network saved elsewhere is not loaded as equal");
    c.nontrivial();
}

PROPERTY(C20, background, 320, 8000, "the automatic save fails in the background")
{
    Live live = genLive(c, generator(c));
    auto& nn = *live.nn;
    const string dir = c.scratch();
    Fault f = genFault(c, dir);
    if (f.kind == Fault::DESCRIPTOR) c.discard();
    if (f.kind == Fault::SIZE) f.limit = 1;
    nn.autoSaveFilePath = f.path;
    nn.autoSaveWhenBetter = true;
    c.text(f.text());
    const float best = nn.getGlobalClusteringRateMax();
    const int ending = c.range(0, 2);
    const bool t = throws(c, f, [&]
    {
        nn.startTrainingAsync(*live.data, 1, 1);
        if (ending == 0) nn.waitFor(snn::operator""_s(10ull) || snn::operator""_ep(2ull));
        else if (ending == 1) nn.waitFor(snn::operator""_ms(3ull));
        nn.stopTrainingAsync();
    });
    nn.stopTrainingAsync();
    if (nn.hasNan()) c.discard();
    const bool failed = nn.getGlobalClusteringRateMax() > best;
    c.check(!t || failed, "a wait throws though nothing failed");
    // else the automatic save may fail after the end of the wait
    if (ending == 0 && best < 0) c.check(t == failed, "a training in the background that failed is not reported by a wait");
    c.check(!nn.isTraining(), "the network is training after it was stopped");
    if (!failed) return;
    nn.autoSaveWhenBetter = false;
    nn.startTrainingAsync(*live.data, 1, 1);
    nn.waitFor(snn::operator""_ep(1ull) || snn::operator""_s(10ull));
    nn.stopTrainingAsync();
    c.check(!nn.isTraining(), "the network is training after it was stopped again");
    if (nn.hasNan()) c.discard();
    nn.saveAs(dir + "/good.snn");
    c.check(*load(dir + "/good.snn") == nn, "after a failure the network saved elsewhere is not loaded as equal");
    c.nontrivial();
}
