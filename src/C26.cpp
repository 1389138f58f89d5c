// C26 Networks used at the same time in several threads do not influence each other
#include "model.hpp"
#include <atomic>
#include <chrono>
#include <filesystem>
#include <fstream>
#include <thread>
using namespace m;
using namespace std;
using namespace chrono;

namespace
{
    struct Script
    {
        Live live;
        vector<Op> ops;
        int repeats = 1;
        bool saves = false, builds = false;
        string dir;
        Weights weights;

        // what is done and seen by one thread: the same whatever the others do
        vector<float> run(int i)
        {
            vector<float> log;
            for (int r = 0; r < repeats; ++r)
            {
                const size_t before = log.size();
                for (auto& op : ops) apply(op, live.net, *live.nn, *live.data, log);
                if (saves && r % 8 == 0)
                {
                    const string path = dir + "/" + to_string(i), previous = live.nn->autoSaveFilePath;
                    live.nn->saveAs(path);
                    live.nn.reset(&StraightforwardNeuralNetwork::loadFrom(path));
                    live.nn->autoSaveFilePath = previous;
                }
                if (builds && r % 4 == 0)
                {
                    auto other = live.net.build();
                    writeWeights(*other, live.net, weights);
                    const auto out = other->computeOutput(live.spec.trainIn[0], true);
                    log.insert(log.end(), out.begin(), out.end());
                }
                if (log.size() > 20000) log.resize(before); // enough
            }
            const auto o = observe(live.net, *live.nn);
            log.insert(log.end(), o.begin(), o.end());
            return log;
        }
    };

    // the shuffle of these data has a single result
    bool single(const DataSpec& d)
    {
        if (d.nature == snn::nature::nonTemporal) return d.trainIn.size() == 1;
        if (d.nature == snn::nature::sequential) return d.trainSeq.size() == 1;
        return (int)d.trainIn.size() < 2 * (d.recurrences + 1);
    }
}

PROPERTY(C26, together, 900, 20000, "at least two threads trained networks at the same time")
{
    LiveGen g;
    g.maxPast = 3;
    g.net.opts = {L1, L2, MULT, SOFTMAX};
    vector<Script> scripts;
    const int n = c.range(2, 4), repeats = c.pick(vector<int>{30, 100, 300});
    const string dir = c.scratch();
    vector<bool> training;
    for (int i = 0; i < n; ++i)
    {
        c.text(pbt::cat("network ", i));
        Script s;
        auto own = g;
        if (c.chance(60)) own.data.maxTrain = 1, own.data.big = false;
        if (i > 0 && c.chance(25)) // a copy of the first network, used at the same time
        {
            c.text("a copy of the network 0");
            auto& first = scripts[0].live;
            s.live = Live{first.net, first.spec, first.spec.build(), make_unique<StraightforwardNeuralNetwork>(as_const(*first.nn)), {}};
        }
        else s.live = genLive(c, own);
        vector<Op::Kind> kinds{Op::TRAIN_ONCE, Op::TRAIN_ONCE, Op::INFER, Op::CLUSTER, Op::EVALUATE, Op::RATE, Op::SUMMARY};
        if (single(s.live.spec)) { kinds.push_back(Op::TRAIN); kinds.push_back(Op::TRAIN); }
        s.ops = genOps(c, s.live.net, s.live.spec, c.range(1, 5), kinds);
        c.text("repeated: " + text(s.ops));
        if (c.chance(60)) setRate(*s.live.nn, 0.001f * (float)c.range(1, 20), 0);
        s.repeats = repeats;
        s.saves = c.chance(30);
        s.builds = !s.live.net.has(GRU) && c.chance(30);
        if (s.saves) c.text("saved and loaded in between");
        if (s.builds) c.text("others are built in between"), s.weights = readWeights(*s.live.nn, s.live.net);
        s.dir = dir;
        bool trains = false;
        for (auto& op : s.ops) trains |= op.kind == Op::TRAIN_ONCE || op.kind == Op::TRAIN;
        training.push_back(trains);
        scripts.push_back(std::move(s));
    }
    // others are trained in the background
    vector<Live> background;
    for (int i = c.pick(vector<int>{0, 0, 1, 2}); i > 0; --i)
    {
        c.text("in the background");
        auto own = g;
        own.net.opts.push_back(DROPOUT);
        background.push_back(genLive(c, own));
        setRate(*background.back().nn, 1e-4f, 0);
    }
    vector<vector<float>> alone;
    for (int i = 0; i < n; ++i) alone.push_back(pbt::inFork([&] { return scripts[i].run(i); }));
    vector<vector<float>> together(n);
    vector<steady_clock::time_point> begin(n), end(n);
    for (auto& b : background) b.nn->startTrainingAsync(*b.data, 1, 1);
    atomic<int> ready{0};
    vector<thread> threads;
    for (int i = 0; i < n; ++i)
        threads.emplace_back([&, i]
        {
            ++ready;
            while (ready < n) this_thread::yield();
            begin[i] = steady_clock::now();
            together[i] = scripts[i].run(i);
            end[i] = steady_clock::now();
        });
    for (auto& t : threads) t.join();
    for (auto& b : background)
    {
        b.nn->stopTrainingAsync();
        c.check(!b.nn->isTraining(), "the network in the background is still training");
    }
    for (int i = 0; i < n; ++i)
    {
        const auto difference = differs(alone[i], together[i]);
        c.count((int)alone[i].size());
        c.check(difference.empty(), pbt::cat("the network ", i, " does not do the same alone and together with the others: ", difference));
    }
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < i; ++j)
            if (training[i] && training[j] && max(begin[i], begin[j]) < min(end[i], end[j])) { c.nontrivial(); i = n; break; }
    if (!background.empty()) c.label("others in the background");
}
