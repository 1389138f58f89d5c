// C10 The automatic save always holds the best network seen
#include "model.hpp"
#include <filesystem>
#include <fstream>
using namespace m;
using namespace std;
namespace fs = std::filesystem;

namespace
{
    unique_ptr<StraightforwardNeuralNetwork> load(const string& f) { return unique_ptr<StraightforwardNeuralNetwork>(&StraightforwardNeuralNetwork::loadFrom(f)); }

    bool fileOk(const string& f) { error_code e; return fs::exists(f, e); }

    // everything a loaded automatic save has to be able to do
    void usable(pbt::Case& c, const Live& live, const string& file, double accuracy)
    {
        auto n = load(file);
        c.check(!n->isTraining(), "the loaded automatic save is training");
        StraightforwardNeuralNetwork copy(*n);
        c.check(copy == *n, "the copy of the loaded automatic save is not equal to it");
        c.check(n->autoSaveWhenBetter && n->autoSaveFilePath == file, "the loaded network has other options of automatic save");
        c.check(n->getGlobalClusteringRateMax() == (float)accuracy, pbt::cat("the loaded network has the best accuracy ", n->getGlobalClusteringRateMax(), " instead of ", accuracy));
        c.check(n->getGlobalClusteringRate() == (float)accuracy, pbt::cat("the loaded network has the accuracy ", n->getGlobalClusteringRate(), " instead of ", accuracy));
        auto data = live.spec.build();
        if (!live.net.temporal())
        {
            const string other = c.scratch() + "/other";
            n->autoSaveFilePath = other;
            n->evaluate(*data);
            c.check(fabs(n->getGlobalClusteringRate() - accuracy) < 1e-6, pbt::cat("the loaded network has the accuracy ", n->getGlobalClusteringRate(), " and not ", accuracy, " when it is evaluated again"));
            c.check(!fileOk(other), "the loaded network is saved again by an evaluation that is not better");
        }
        const string again = c.scratch() + "/again";
        n->saveAs(again);
        c.check(*load(again) == *n, "the loaded network that is saved again is different");
        fs::remove(again);
        n->autoSaveWhenBetter = false;
        const auto trainings = n->getNumberOfTraining();
        n->train(*data, snn::operator""_ep(live.spec.recurrences + 1ull), 1, 0); // every datum of a time series is learned at least once
        c.check(!n->isTraining() && (n->getNumberOfTraining() > trainings || n->hasNan()), "the loaded network does not train");
    }

    LiveGen generator(pbt::Case& c)
    {
        LiveGen g;
        g.maxPast = 2;
        g.ops = {Op::TRAIN_ONCE, Op::INFER, Op::EVALUATE};
        g.data.maxTest = 10;
        if (c.chance(30)) g.net.opts = {DROPOUT, L1, MULT, SOFTMAX};
        if (c.chance(60)) g.net.kinds = {FC, CONV, LC, POOL};
        g.net.maxLayers = 3;
        return g;
    }
}

PROPERTY(C10, evaluations, 5000, 150000, "at least two evaluations that are saved or one that is saved before one that is not")
{
    Live live = genLive(c, generator(c));
    auto& nn = *live.nn;
    const string dir = c.scratch();
    string file = dir + "/best.snn";
    nn.autoSaveFilePath = file;
    double best = nn.getGlobalClusteringRateMax();
    int saved = 0, notSaved = 0;
    const int evaluations = c.ranged(1, 8, 30);
    for (int i = 0; i < evaluations; ++i)
    {
        if (c.chance(20)) nn.autoSaveFilePath = file = dir + "/best" + to_string(i);
        nn.autoSaveWhenBetter = c.chance(85);
        fs::remove(file);
        StraightforwardNeuralNetwork before(nn);
        nn.evaluate(*live.data);
        const double accuracy = nn.getGlobalClusteringRate();
        const bool better = accuracy > best;
        if (better) best = accuracy;
        c.check(fileOk(file) == (better && nn.autoSaveWhenBetter), pbt::cat("evaluation ", i, ": accuracy ", accuracy, " best before ", best, " automatic save ", nn.autoSaveWhenBetter, " file written: ", fileOk(file)));
        c.check(nn.autoSaveFilePath == file, "an evaluation changes the path of the automatic save");
        for (auto& e : fs::directory_iterator(dir))
            if (e.path() != file && e.path().filename().string().find("best") != 0) c.fail("an unexpected file is written: " + e.path().string());
        if (fileOk(file))
        {
            ++saved;
            const auto d = differs(observe(live.net, nn), observe(live.net, *load(file)));
            c.check(d.empty(), "the automatic save is not the network that was evaluated: " + d);
            c.check(*load(file) == nn, "the automatic save is not equal to the network that was evaluated");
            usable(c, live, file, accuracy);
        }
        else ++notSaved;
        c.text(pbt::cat("accuracy ", accuracy, better ? " better" : "", fileOk(file) ? " saved" : ""));
        switch (c.range(0, 2))
        {
        case 0: break; // the same network once more
        case 1: writeWeights(nn, live.net, genWeights(c, live.net, 1)); break;
        default:
            for (int k = 3; k > 0; --k)
            {
                const int t = (int)c.draw((uint32_t)live.spec.testIn.size());
                nn.trainOnce(live.spec.testIn[t], live.spec.testOut[t]);
            }
        }
        if (nn.hasNan()) break;
    }
    if (saved >= 2 || (saved && notSaved)) c.nontrivial();
}

PROPERTY(C10, training, 3000, 100000, "the accuracy gets better at least twice in the training")
{
    Live live = genLive(c, generator(c));
    auto& nn = *live.nn;
    setRate(nn, c.pick(vector<float>{0.05f, 0.3f, 0.9f}), 0);
    const string file = c.scratch() + "/best.snn";
    nn.autoSaveFilePath = file;
    nn.autoSaveWhenBetter = true;
    const int epochs = c.ranged(1, 12, 40);
    const int batch = live.spec.nature == snn::nature::nonTemporal ? c.range(1, (int)live.spec.trainIn.size()) : 1;
    const int frequency = c.range(1, 3);
    c.text(pbt::cat("train ", epochs, " epochs, batch ", batch, ", evaluation frequency ", frequency));
    const auto before = m::readWeights(nn, live.net);
    const float known = nn.getGlobalClusteringRateMax();
    // the same training, step by step, which keeps the best network
    const auto expected = pbt::inFork([&]
    {
        nn.autoSaveWhenBetter = false;
        float best = known;
        vector<float> r{0};
        auto evaluate = [&]
        {
            nn.evaluate(*live.data);
            if (nn.getGlobalClusteringRate() > best)
            {
                best = nn.getGlobalClusteringRate();
                const float times = r[0] + 1;
                r = {times};
                for (auto& l : readWeights(nn, live.net)) for (auto& n : l) r.insert(r.end(), n.begin(), n.end());
            }
        };
        auto& d = *live.data;
        evaluate();
        for (int e = 1; e <= epochs && !nn.hasNan(); ++e)
        {
            d.shuffle();
            for (int i = 0; i + batch <= d.sets[snn::training].size && !nn.hasNan(); i += batch)
            {
                // only networks without temporal state come here with data that are not learned
                if (d.needToLearnOnTrainingData(i)) nn.trainOnce(d.getTrainingData(i, batch), d.getTrainingOutputs(i, batch), d.isFirstTrainingDataOfTemporalSequence(i));
            }
            if (e % frequency == 0) evaluate();
        }
        if (nn.hasNan()) throw pbt::Discarded();
        return r;
    });
    nn.train(*live.data, snn::operator""_ep((unsigned long long)epochs), batch, frequency);
    c.check(fileOk(file) == (nn.getGlobalClusteringRateMax() > known), pbt::cat("best accuracy before ", known, " after ", nn.getGlobalClusteringRateMax(), " file written: ", fileOk(file)));
    c.check(!nn.isTraining(), "the network is training");
    if (!fileOk(file)) return;
    auto loaded = load(file);
    const bool comparable = live.spec.nature != snn::nature::timeSeries; // steps that are not learned draw dropouts too
    if (comparable)
    {
        vector<float> w{expected[0]};
        for (auto& l : readWeights(*loaded, live.net)) for (auto& n : l) w.insert(w.end(), n.begin(), n.end());
        const auto d = differs(expected, w);
        c.check(d.empty(), "the automatic save is not the network of the best evaluation: " + d);
        if (expected[0] >= 2) c.nontrivial();
    }
    usable(c, live, file, nn.getGlobalClusteringRateMax());
}

PROPERTY(C10, background, 240, 4000, "the file was written by the training")
{
    auto g = generator(c);
    g.maxPast = 0;
    Live live = genLive(c, g);
    auto& nn = *live.nn;
    setRate(nn, c.pick(vector<float>{0.05f, 0.3f}), 0);
    const string file = c.scratch() + "/best.snn";
    nn.autoSaveFilePath = file;
    nn.autoSaveWhenBetter = c.chance(85);
    const int evaluation = c.range(1, 2);
    const float known = nn.getGlobalClusteringRateMax();
    nn.startTrainingAsync(*live.data, 1, evaluation);
    nn.waitFor(snn::operator""_ep((unsigned long long)c.range(1, 5)) || snn::operator""_ms(200ull));
    nn.stopTrainingAsync();
    if (nn.hasNan()) c.discard();
    if (!nn.autoSaveWhenBetter) { c.check(!fileOk(file), "a file is written though the automatic save is off"); return; }
    c.check(fileOk(file) == (nn.getGlobalClusteringRateMax() > known), "no automatic save");
    if (!fileOk(file)) return;
    usable(c, live, file, nn.getGlobalClusteringRateMax());
    c.nontrivial();
}
