// C15 Asynchronous training can be started, observed and stopped at any moment
#include "model.hpp"
#include <atomic>
#include <chrono>
#include <cstdlib>
#include <dlfcn.h>
#include <filesystem>
#include <new>
#include <pthread.h>
#include <thread>
using namespace m;
using namespace std;
using namespace chrono;
namespace fs = std::filesystem;

// ------------------------------------------------------------------ the schedule
// A case chooses how long a new thread takes to run, how long its creation takes to return, and where the
// training thread is delayed (at its memory allocations).
namespace schedule
{
    atomic<int> startDelay{0}, createDelay{0}, period{0}, pause_{0};
    thread_local bool trainer = false;
    thread_local unsigned allocations = 0;
    struct Start { void* (*f)(void*); void* arg; };
    void* run(void* p)
    {
        const Start s = *(Start*)p;
        free(p);
        if (startDelay > 0) this_thread::sleep_for(microseconds(startDelay));
        trainer = true;
        return s.f(s.arg);
    }
    void at()
    {
        if (!trainer) return;
        const int p = period;
        if (p > 0 && ++allocations % (unsigned)p == 0) this_thread::sleep_for(microseconds(pause_));
    }
}

extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) noexcept
{
    using F = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    static const F real = (F)dlsym(RTLD_NEXT, "pthread_create");
    auto* s = (schedule::Start*)malloc(sizeof(schedule::Start));
    s->f = f;
    s->arg = arg;
    const int r = real(t, a, schedule::run, s);
    if (schedule::createDelay > 0) this_thread::sleep_for(microseconds(schedule::createDelay));
    return r;
}

#ifndef __SANITIZE_ADDRESS__
void* operator new(size_t n)
{
    schedule::at();
    if (void* p = malloc(n ? n : 1)) return p;
    throw bad_alloc();
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
#endif

namespace
{
    void genSchedule(pbt::Case& c)
    {
        schedule::startDelay = c.pick(vector<int>{0, 0, 50, 500, 3000, 15000});
        schedule::createDelay = c.pick(vector<int>{0, 0, 0, 50, 1000});
        schedule::period = c.pick(vector<int>{0, 0, 1, 3, 17, 101});
        schedule::pause_ = c.pick(vector<int>{0, 50, 300});
        c.text(pbt::cat("schedule: threads start after ", schedule::startDelay.load(), " us, are created in ", schedule::createDelay.load(), " us, pause of ", schedule::pause_.load(), " us each ", schedule::period.load(), " allocations"));
    }

    LiveGen generator(pbt::Case& c)
    {
        LiveGen g;
        g.maxPast = 2;
        g.ops = {Op::TRAIN_ONCE, Op::EVALUATE, Op::TRAIN, Op::INFER};
        g.net.acts = {activation::sigmoid, activation::tanh, activation::gaussian};
        g.net.maxLayers = 3;
        g.net.maxInputs = 10;
        g.data.maxTrain = 30;
        g.data.maxTest = 10;
        if (c.chance(60)) g.net.kinds = {FC, CONV, LC, POOL};
        return g;
    }

    template <class F> bool throws(F f)
    {
        try { f(); }
        catch (const exception&) { return true; }
        return false;
    }

    // what has to be refused during a training
    struct Refused { const char* name; function<void(StraightforwardNeuralNetwork&, snn::Data&, const string&)> f; };
    const vector<Refused>& refusals()
    {
        static const vector<Refused> r{
            {"train", [](auto& nn, auto& d, auto&) { nn.train(d, snn::operator""_ep(1ull)); }},
            {"saveAs", [](auto& nn, auto&, auto& dir) { nn.saveAs(dir + "/refused"); }},
            {"copy", [](auto& nn, auto&, auto&) { StraightforwardNeuralNetwork copy(nn); }},
            {"saveFeatureMapsAsBitmap", [](auto& nn, auto&, auto& dir) { nn.saveFeatureMapsAsBitmap(dir + "/refused"); }},
            {"saveFilterLayersAsBitmap", [](auto& nn, auto& d, auto& dir) { nn.saveFilterLayersAsBitmap(dir + "/refused", d, 0); }},
            {"a training that is not valid", [](auto& nn, auto& d, auto&) { nn.startTrainingAsync(d, -1); }},
            {"a training with a batch that is too big", [](auto& nn, auto& d, auto&) { nn.startTrainingAsync(d, 1 << 20); }},
        };
        return r;
    }
}

PROPERTY(C15, histories, 3000, 60000, "an operation was refused during a training, and a training was restarted")
{
    Live live = genLive(c, generator(c));
    genSchedule(c);
    auto& d = *live.data;
    const string dir = c.scratch();
    const int size = (int)live.spec.trainIn.size(), test = (int)live.spec.testIn.size(), index0 = live.nn->getCurrentIndex();
    const bool temporal = live.spec.nature != snn::nature::nonTemporal;
    auto other = live.spec.build();
    setRate(*live.nn, 1e-4f, 0);
    const bool autoSave = c.chance(40); // the best network is saved during the training
    auto prepare = [&](StraightforwardNeuralNetwork& nn)
    {
        if (!autoSave) return;
        nn.autoSaveFilePath = dir + "/auto";
        nn.autoSaveWhenBetter = true;
    };
    prepare(*live.nn);
    if (autoSave) c.text("automatic save"), c.label("automatic save");
    bool training = false;
    int starts = 0, refused = 0, epoch = 0, base = 0, batch = 1;
    string past;
    auto note = [&](const string& s) { past += (past.empty() ? "" : "; ") + s; };
    auto check = [&](bool ok, const string& m) { if (!ok) { c.text(past); c.fail(m); } c.count(); };
    auto progress = [&](StraightforwardNeuralNetwork& nn) // the training goes on (a hang otherwise)
    {
        if (live.spec.nature == snn::nature::timeSeries && size <= live.spec.recurrences) return; // few data, not learned in every epoch
        const int n = nn.getNumberOfTraining();
        while (nn.getNumberOfTraining() == n && nn.isTraining()) this_thread::sleep_for(microseconds(100));
        check(nn.isTraining(), "the training stopped by itself");
    };
    const int steps = c.ranged(2, 14);
    for (int i = 0; i < steps; ++i)
    {
        auto& nn = *live.nn;
        check(nn.isTraining() == training, pbt::cat("the network reports that it is ", nn.isTraining() ? "" : "not ", "training"));
        switch (c.weighted({5, 4, 3, 4, 2, 3, 1}))
        {
        case 0: // start, or start again
        {
            batch = temporal ? 1 : c.range(1, min(size, 4));
            const int frequency = c.range(0, 2);
            if (training) note("restart"); else note("start");
            auto& what = c.chance(20) ? *other : d;
            base = nn.getNumberOfTraining();
            nn.startTrainingAsync(what, batch, frequency);
            training = true;
            ++starts;
            epoch = 0;
            check(nn.isTraining(), "the network does not report that it is training just after the start");
            break;
        }
        case 1: // stop
            note("stop");
            nn.stopTrainingAsync();
            check(!nn.isTraining(), "the network reports that it is training after it was stopped");
            check(!training || nn.getCurrentIndex() == 0, "index after the training was stopped");
            training = false;
            {
                const auto before = observe(live.net, nn);
                if (c.chance(30)) this_thread::sleep_for(microseconds(c.range(0, 3000)));
                check(pbt::cat(differs(before, observe(live.net, nn))).empty(), "the training goes on after it was stopped");
            }
            break;
        case 2: // wait
        {
            if (!training) break;
            const int n = c.range(0, 3);
            switch (c.range(0, 3))
            {
            case 0:
                note(pbt::cat("wait for ", n, " epochs"));
                nn.waitFor(snn::operator""_ep((unsigned long long)n));
                check(nn.getCurrentEpoch() > n, pbt::cat("the wait for ", n, " epochs ended in the epoch ", nn.getCurrentEpoch()));
                // n epochs were made since the start of this training
                if (live.spec.nature != snn::nature::timeSeries)
                    check(nn.getNumberOfTraining() - base >= (n - 1) * (size / batch), pbt::cat(nn.getNumberOfTraining() - base, " trainings when the wait for ", n, " epochs of ", size / batch, " ended"));
                break;
            case 1:
            {
                const int ms = c.range(0, 8);
                note(pbt::cat("wait for ", ms, " ms"));
                const auto start = steady_clock::now();
                nn.waitFor(snn::operator""_ms((unsigned long long)ms));
                check(duration_cast<microseconds>(steady_clock::now() - start).count() >= ms * 1000 - 1500, "the wait ended before its duration");
                break;
            }
            case 2:
            {
                note(pbt::cat("wait for ", n, " epochs and 2 ms"));
                const auto start = steady_clock::now();
                nn.waitFor(snn::operator""_ep((unsigned long long)n) && snn::operator""_ms(2ull));
                check(nn.getCurrentEpoch() > n, pbt::cat("the wait for ", n, " epochs and 2 ms ended in the epoch ", nn.getCurrentEpoch()));
                check(duration_cast<microseconds>(steady_clock::now() - start).count() >= 500, "the wait ended before its duration");
                break;
            }
            default:
                note(pbt::cat("wait for ", n, " epochs or an hour"));
                nn.waitFor(snn::operator""_ep((unsigned long long)n) || snn::operator""_min(60ull));
                check(nn.getCurrentEpoch() > n, pbt::cat("the wait for ", n, " epochs ended in the epoch ", nn.getCurrentEpoch()));
            }
            check(nn.isTraining(), "the training stopped by itself");
            break;
        }
        case 3: // something that needs an idle network
        {
            auto& r = c.pick(refusals());
            const bool never = string(r.name).find("a training") == 0;
            note(r.name);
            if (training || never)
            {
                const string path = nn.autoSaveFilePath;
                check(throws([&] { r.f(nn, d, dir); }), string(r.name) + (training ? " is accepted during a training" : " is accepted"));
                check(nn.isTraining() == training, string("the refused operation changed the state: ") + r.name);
                check(nn.autoSaveFilePath == path, "the refused operation changed the path of the automatic save");
                for (auto& f : fs::directory_iterator(dir))
                    if (f.path().filename().string().find("refused") == 0) check(false, "the refused operation wrote " + f.path().string());
                if (training && c.chance(50)) progress(nn);
                if (training) ++refused;
            }
            else
            {
                r.f(nn, d, dir);
                for (auto& f : fs::directory_iterator(dir)) fs::remove_all(f.path());
                if (string(r.name) == "copy")
                {
                    StraightforwardNeuralNetwork copy(nn);
                    check(copy == nn, "the copy is different");
                }
                nn.autoSaveFilePath = dir + "/auto";
            }
            break;
        }
        case 4: // observe
        {
            note("observe");
            for (int k = c.range(1, 20); k > 0; --k)
            {
                const int e = nn.getCurrentEpoch(), index = nn.getCurrentIndex();
                check(!training || e >= epoch, pbt::cat("the epoch goes back from ", epoch, " to ", e));
                if (training) epoch = e;
                check(index >= 0 && index <= max({size, test, index0}), pbt::cat("index ", index));
                check(nn.isTraining() == training, "the network reports another state");
                check(nn.isValid() == 0 || training, pbt::cat("error ", nn.isValid()));
                (void)nn.getGlobalClusteringRate();
                (void)nn.getMeanAbsoluteError();
                if (c.chance(30)) this_thread::sleep_for(microseconds(c.range(0, 400)));
            }
            if (training && c.chance(30)) progress(nn);
            break;
        }
        case 5: // all that works on an idle network
            if (training) { this_thread::sleep_for(microseconds(c.range(0, 2000))); note("sleep"); break; }
            switch (c.range(0, 4))
            {
            case 0: { note("trained"); const int n = nn.getNumberOfTraining(); nn.train(d, snn::operator""_ep(2ull), 1, 1);
                      check(nn.getNumberOfTraining() - n == 2 * size || live.spec.nature == snn::nature::timeSeries, "trainings"); break; }
            case 1: note("evaluated"); nn.evaluate(d); break;
            case 2: note("trainOnce"); nn.trainOnce(live.spec.trainIn[0], live.spec.trainOut[0]); break;
            case 3: note("computeOutput"); (void)nn.computeOutput(live.spec.trainIn[0]); break;
            default:
            {
                note("saved and loaded");
                nn.saveAs(dir + "/saved");
                unique_ptr<StraightforwardNeuralNetwork> loaded(&StraightforwardNeuralNetwork::loadFrom(dir + "/saved"));
                check(*loaded == nn && !loaded->isTraining(), "the loaded network is different");
                if (c.chance(50)) live.nn = std::move(loaded);
                break;
            }
            }
            break;
        default: // destroyed, in any state; another one takes its place
        {
            note("destroyed");
            auto next = make_unique<StraightforwardNeuralNetwork>(live.net.models(), live.net.optimizer());
            live.nn = std::move(next);
            setRate(*live.nn, 1e-4f, 0);
            prepare(*live.nn);
            training = false;
            break;
        }
        }
        if (live.nn->hasNan()) c.discard();
    }
    c.text(past);
    live.nn.reset();
    if (starts > 1 && refused) c.nontrivial();
    c.label(schedule::startDelay > 0 ? "late start" : "start at once");
}

PROPERTY(C15, startStop, 1500, 40000, "the training was stopped before its thread was running")
{
    // the shortest histories: the request to stop comes before, or just when, the training begins
    auto g = generator(c);
    g.maxPast = 1;
    Live live = genLive(c, g);
    genSchedule(c);
    auto& nn = *live.nn;
    setRate(nn, 1e-4f, 0);
    const bool destroy = c.chance(20);
    for (int i = c.ranged(1, 6); i > 0; --i)
    {
        nn.startTrainingAsync(*live.data, 1, c.range(0, 1));
        c.check(nn.isTraining(), "the network does not report that it is training just after the start");
        const int delay = c.range(0, 4);
        if (delay > 1) this_thread::sleep_for(microseconds(c.pick(vector<int>{20, 100, 400, 3000})));
        if (nn.getNumberOfTraining() == 0) c.nontrivial();
        if (destroy && i == 1) { live.nn.reset(); return; }
        if (c.chance(20)) continue; // started again
        nn.stopTrainingAsync();
        c.check(!nn.isTraining(), "the network reports that it is training after it was stopped");
        const int n = nn.getNumberOfTraining();
        if (c.chance(30)) nn.stopTrainingAsync();
        c.check(n == nn.getNumberOfTraining() && !nn.isTraining(), "a second stop has an effect");
        if (c.chance(30)) nn.train(*live.data, snn::operator""_ep(1ull), 1, 0);
    }
}

PROPERTY(C15, undisturbed, 500, 12000, "operations were refused while the training was making its steps")
{
    // a training during which operations are refused makes the same steps as one that is left alone
    auto g = generator(c);
    g.maxPast = 1;
    g.data.natures = {snn::nature::nonTemporal, snn::nature::sequential};
    Live live = genLive(c, g);
    genSchedule(c);
    auto& nn = *live.nn;
    setRate(nn, 0.01f, 0);
    const string dir = c.scratch();
    if (c.chance(40)) nn.autoSaveFilePath = dir + "/auto", nn.autoSaveWhenBetter = true;
    const int before = nn.getNumberOfTraining();
    vector<int> ops, sleeps;
    for (int i = c.ranged(1, 6); i > 0; --i) { ops.push_back((int)c.draw((uint32_t)refusals().size())); sleeps.push_back(c.range(0, 500)); }
    const auto run = pbt::inFork([&]
    {
        nn.startTrainingAsync(*live.data, 1, 0);
        nn.waitFor(snn::operator""_ep(1ull));
        for (size_t i = 0; i < ops.size(); ++i)
        {
            if (!throws([&] { refusals()[ops[i]].f(nn, *live.data, dir); })) c.fail(string(refusals()[ops[i]].name) + " is accepted during a training");
            this_thread::sleep_for(microseconds(sleeps[i]));
        }
        nn.stopTrainingAsync();
        vector<float> r{(float)(nn.getNumberOfTraining() - before)};
        for (auto& l : readWeights(nn, live.net)) for (auto& n : l) r.insert(r.end(), n.begin(), n.end());
        return r;
    });
    const int n = (int)run[0];
    if (n > 20000) c.discard();
    c.text(pbt::cat(n, " trainings"));
    auto& d = *live.data;
    for (int left = n; left > 0;)
    {
        d.shuffle();
        for (int i = 0; i < d.sets[snn::training].size && left > 0; ++i, --left)
            nn.trainOnce(d.getTrainingData(i), d.getTrainingOutputs(i), d.isFirstTrainingDataOfTemporalSequence(i));
    }
    vector<float> w{(float)n};
    for (auto& l : readWeights(nn, live.net)) for (auto& x : l) w.insert(w.end(), x.begin(), x.end());
    for (size_t i = 0; i < w.size(); ++i)
        c.check(fabs(w[i] - run[i]) <= 1e-3 * max(1.0f, fabs(w[i])), pbt::cat("weight ", i - 1, " is ", run[i], " instead of ", w[i], " after ", n, " trainings during which operations were refused"));
    if (n > 10) c.nontrivial();
}
