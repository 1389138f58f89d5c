// C16 Outputs that are not finite are detected and stop the training
#include "model.hpp"
#include <chrono>
#include <thread>
using namespace m;
using namespace std;

namespace
{
    uint32_t bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
    bool finite(float f) { return (bits(f) & 0x7f800000u) != 0x7f800000u; }
    bool nan(float f) { return !finite(f) && (bits(f) & 0x7fffffu); }
    bool finite(const vector<float>& v) { return ranges::all_of(v, [](float f) { return finite(f); }); }
    float fromBits(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
    const float INF = fromBits(0x7f800000u), QNAN = fromBits(0x7fc00000u);

    // the outputs that the layers give, computed without the network
    vector<float> chain(StraightforwardNeuralNetwork& nn, vector<float> in, bool reset, bool training)
    {
        for (auto& l : nn.layers) in = training ? l->outputForTraining(in, reset) : l->output(in, reset);
        return in;
    }

    float extreme(pbt::Case& c)
    {
        const float s = c.chance(50) ? -1.0f : 1.0f;
        switch (c.weighted({3, 3, 3, 2, 2, 2}))
        {
        case 0: return s * 1e30f;
        case 1: return s * INF;
        case 2: return fromBits(bits(QNAN) | (s < 0 ? 0x80000000u : 0u) | c.draw(0x3fffffu));
        case 3: return s * 3.4e38f;
        case 4: return s * 1e19f;
        default: return s * 3e37f;
        }
    }

    bool statsAreNan(const StraightforwardNeuralNetwork& nn)
    {
        const auto s = m::stats(nn);
        return ranges::all_of(s.begin(), s.begin() + 5, nan);
    }

    // what holds for ever once an output was not finite
    void afterwards(pbt::Case& c, Live& live)
    {
        auto& nn = *live.nn;
        const auto before = readWeights(nn, live.net);
        auto sameWeights = [&](const string& what)
        {
            const auto after = readWeights(nn, live.net);
            for (size_t l = 0; l < before.size(); ++l)
                for (size_t n = 0; n < before[l].size(); ++n)
                    c.check(m::same(before[l][n], after[l][n]), pbt::cat("once an output was not finite, ", what, " changed the weights of neuron ", n, " of layer ", l, ": ", pbt::str(before[l][n], 6), " then ", pbt::str(after[l][n], 6)));
        };
        const int count = c.range(1, 4);
        for (int i = 0; i < count; ++i)
        {
            string what;
            switch (c.range(0, 4))
            {
            case 0:
                what = "a training step";
                nn.trainOnce(genVector(c, live.net.nIn(), 1), genVector(c, live.net.nOut(), 1), c.chance(50));
                break;
            case 1:
                what = "an evaluation";
                nn.evaluate(*live.data);
                c.check(statsAreNan(nn), "the statistics of an evaluation after an output was not finite: " + statsText(nn));
                break;
            case 2:
            {
                what = "a training";
                const int frequency = c.range(0, 2);
                nn.train(*live.data, snn::operator""_ep(100000ull), 1, frequency);
                break;
            }
            case 3:
                what = "an inference";
                (void)nn.computeOutput(genVector(c, live.net.nIn(), 1), true);
                break;
            default:
                what = "a training in the background";
                nn.startTrainingAsync(*live.data, 1, c.range(0, 2));
                nn.waitFor(snn::operator""_ep(100000ull));
                while (nn.isTraining()) this_thread::sleep_for(chrono::microseconds(50));
                nn.stopTrainingAsync();
                break;
            }
            c.check(nn.hasNan(), "the network no longer reports an output that was not finite after " + what);
            c.check(!nn.isTraining(), "the network is not idle after " + what);
            sameWeights(what);
        }
    }
}

PROPERTY(C16, detection, 8000, 300000, "an output was not finite after at least one finite one")
{
    // inferences, clusters, training steps and evaluations, with values that may overflow or not
    LiveGen g;
    g.maxPast = 2;
    g.ops = {Op::TRAIN_ONCE, Op::INFER};
    g.data.maxTrain = 4;
    g.net.acts = c.chance(60) ? vector<activation>{activation::identity, activation::ReLU, activation::iSigmoid, activation::sigmoid} : g.net.acts;
    g.net.maxLayers = 3;
    if (c.chance(30)) g.net.opts = {L1, MULT, DROPOUT, SOFTMAX};
    Live live = genLive(c, g);
    auto& nn = *live.nn;
    bool dropout = false;
    for (auto& l : live.net.layers) for (auto& o : l.opts) if (o.type == DROPOUT) dropout = true;
    bool expected = false, extremePast = false; // of the states of recurrent layers
    int finiteOutputs = 0;
    string past;
    const int steps = c.ranged(1, 12, 40);
    for (int i = 0; i < steps; ++i)
    {
        StraightforwardNeuralNetwork copy(nn);
        string what;
        bool now = false, smallOutputs = false;
        auto in = genVector(c, live.net.nIn(), 1);
        const bool reset = c.chance(40);
        const int kind = c.weighted({4, 2, 3, 2, 2, 1});
        if (kind < 3)
        {
            if (c.chance(25)) in[c.draw((uint32_t)in.size())] = extreme(c);
            if (c.chance(10)) for (auto& x : in) x *= 1e37f;
            if (live.net.temporal() && !ranges::all_of(in, [](float x) { return fabs(x) <= 1; })) extremePast = true;
        }
        switch (kind)
        {
        case 0:
        {
            what = "computeOutput " + pbt::str(in, 6);
            const auto out = nn.computeOutput(in, reset);
            now = !finite(out);
            what += " = " + pbt::str(out, 6);
            break;
        }
        case 1:
            what = "computeCluster " + pbt::str(in, 6);
            now = !finite(chain(copy, in, reset, false));
            (void)nn.computeCluster(in, reset);
            break;
        case 2:
        {
            auto desired = genVector(c, live.net.nOut(), 1);
            if (c.chance(20)) for (auto& x : desired) x *= 1e20f;
            what = "trainOnce " + pbt::str(in, 6);
            bool known = true;
            const auto out = chain(copy, in, reset, true);
            now = !finite(out);
            if (dropout) // the choices are others: 0 instead of an infinite output
            {
                StraightforwardNeuralNetwork again(copy);
                known = false;
                if (finite(in) && ranges::all_of(in, [](float x) { return fabs(x) <= 1; }) && !now && !extremePast)
                {
                    known = true;
                    for (auto& x : out) if (!(fabs((double)x) < 1e20)) known = false;
                    for (auto& l : readWeights(nn, live.net)) for (auto& n : l) for (auto& x : n) if (!(fabs((double)x) < 1e10)) known = false;
                }
            }
            if (!known) continue;
            nn.trainOnce(in, desired, reset);
            break;
        }
        case 3:
            what = "evaluate";
            {
                bool small = true; // their squares do not overflow
                for (int t = 0; t < (int)live.spec.testIn.size() && !now; ++t)
                {
                    const auto out = chain(copy, live.spec.testIn[t], live.spec.resetTest(t), false);
                    now = !finite(out);
                    for (auto x : out) if (!(fabs((double)x) < 1e15)) small = false;
                }
                smallOutputs = small;
            }
            nn.evaluate(*live.data);
            if (now) c.check(statsAreNan(nn), "the statistics of an evaluation where an output is not finite: " + statsText(nn));
            else if (smallOutputs) { const auto s = m::stats(nn); c.check(finite(vector<float>(s.begin(), s.begin() + 5)), "the statistics of an evaluation where all the outputs are finite: " + statsText(nn)); }
            c.check(!nn.isTraining(), "the network is not idle after an evaluation");
            break;
        case 4:
        {
            const double amplitude = c.pick(vector<double>{1, 1e10, 1e19, 1e30, 3e38});
            what = pbt::cat("weights up to ", amplitude);
            if (live.net.temporal() && amplitude > 1) extremePast = true;
            if (live.net.has(GRU)) continue;
            auto w = readWeights(nn, live.net);
            const bool all = c.chance(40);
            const size_t last = w.size() - 1;
            for (size_t l = all ? 0 : last; l < w.size(); ++l)
            {
                if (w[l].empty()) continue;
                if (c.chance(50)) { auto& n = w[l][c.draw((uint32_t)w[l].size())]; for (auto& x : n) x = (float)c.real(amplitude); } // one output among the others
                else for (auto& n : w[l]) for (auto& x : n) x = (float)c.real(amplitude);
            }
            writeWeights(nn, live.net, w);
            break;
        }
        default:
        {
            const float lr = c.pick(vector<float>{0.1f, 1e10f, 1e30f});
            what = pbt::cat("learning rate ", lr);
            setRate(nn, lr, c.chance(50) ? 0.5f : 0.0f);
        }
        }
        past += (past.empty() ? "" : "; ") + what;
        if (now) past += " (not finite)";
        c.text(past);
        if (kind < 4 && !now) ++finiteOutputs;
        expected = expected || now;
        c.check(nn.hasNan() == expected, expected ? "an output was not finite and the network does not report it" : "all the outputs were finite and the network reports one that is not");
        if (expected) break;
    }
    if (expected)
    {
        c.label("not finite");
        if (finiteOutputs) c.nontrivial();
        afterwards(c, live);
    }
    else c.label("finite");
}

PROPERTY(C16, oneOutput, 4000, 120000, "at least three outputs")
{
    // exactly one output among many is not finite, in every way an output can be
    stir(c);
    Gen g;
    g.kinds = {FC};
    g.maxLayers = 2;
    g.maxInputs = 6;
    Net net = genNet(c, g);
    const int n = c.ranged(1, 150);
    net.layers.push_back({FC, n, 0, c.pick(vector<activation>{activation::identity, activation::iSigmoid, activation::ReLU})});
    net.finalize();
    c.text(net.text());
    auto nn = net.build();
    auto w = genWeights(c, net, 0.3);
    const int which = c.range(0, n - 1);
    const auto in = genVector(c, net.nIn(), 1);
    const int how = c.range(0, 3);
    auto& weights = w.back()[which];
    const float value = how == 0 ? INF : how == 1 ? QNAN : how == 2 ? fromBits(0xffc00001u) : 3.4028235e38f;
    if (how < 3) weights.back() = value; else { weights.back() = value; weights[0] = value; }
    writeWeights(*nn, net, w);
    c.text(pbt::cat("output ", which, " of ", n, ", weight of its bias ", value));
    StraightforwardNeuralNetwork copy(*nn), training(*nn);
    const auto out = nn->computeOutput(in, false);
    c.check(nn->hasNan() == !finite(out), pbt::cat("hasNan is ", nn->hasNan(), " for the outputs ", pbt::str(out, 200)));
    if (n >= 3 && !finite(out)) c.nontrivial();
    if (finite(out)) c.label("finite");
    (void)copy.computeCluster(in);
    c.check(copy.hasNan() == !finite(out), pbt::cat("hasNan is ", copy.hasNan(), " after computeCluster for the outputs ", pbt::str(out, 200)));
    const auto before = readWeights(training, net);
    training.trainOnce(in, genVector(c, n, 1));
    c.check(training.hasNan() == !finite(out), pbt::cat("hasNan is ", training.hasNan(), " after a training step for the outputs ", pbt::str(out, 200)));
    if (!finite(out))
    {
        const auto after = readWeights(training, net);
        for (size_t l = 0; l < before.size(); ++l)
            for (size_t i = 0; i < before[l].size(); ++i)
                c.check(m::same(before[l][i], after[l][i]), pbt::cat("the training step that met an output that is not finite changed the weights of neuron ", i, " of layer ", l));
    }
}

PROPERTY(C16, training, 4000, 120000, "the output that is not finite is not the first one that the training computes")
{
    // a training that meets such an output, in its training or testing set, ends by itself
    LiveGen g;
    g.maxPast = 2;
    g.ops = {Op::TRAIN_ONCE, Op::INFER, Op::EVALUATE};
    g.data.maxTrain = 10;
    g.data.maxTest = 6;
    g.data.problems = {snn::problem::classification, snn::problem::multipleClassification, snn::problem::regression};
    g.net.maxLayers = 2;
    g.net.acts = {activation::identity, activation::iSigmoid, activation::identity, activation::sigmoid, activation::tanh};
    if (c.chance(50)) g.net.kinds = {FC, CONV, LC, POOL};
    Live live = genLive(c, g);
    auto& nn = *live.nn;
    auto& d = live.spec;
    setRate(nn, 1e-7f, 0);
    if (!live.net.has(GRU)) // no weight that could change its sign
    {
        auto w = readWeights(nn, live.net);
        for (auto& l : w) for (auto& n : l) for (auto& x : n) if (fabs(x) < 0.01f) x = c.chance(50) ? 0.02f : -0.02f;
        writeWeights(nn, live.net, w);
    }
    // the poison
    const bool inTest = !d.shared && c.chance(40);
    auto& rows = inTest ? d.testIn : d.trainIn;
    const int row = c.range(0, (int)rows.size() - 1);
    const float value = c.pick(vector<float>{INF, QNAN, -INF, fromBits(0xffc00000u), 3.4e38f});
    for (auto& x : rows[row]) if (c.chance(60)) x = value;
    if (d.shared) d.testIn = d.trainIn;
    live.data = d.build();
    const int batch = d.nature == snn::nature::nonTemporal ? c.range(1, min(3, (int)d.trainIn.size())) : 1;
    const bool background = c.chance(40);
    int frequency = c.range(0, 2);
    c.text(pbt::cat("row ", row, " of the ", inTest ? "testing" : "training", " set has values ", value, ", batch ", batch, ", frequency ", frequency));
    if (inTest && frequency == 0) frequency = 1;
    // sure to be not finite, whatever comes before
    auto in = rows[row];
    if (!inTest) for (auto& x : in) x /= (float)batch;
    {
        for (int k = 0; k < 4; ++k)
        {
            StraightforwardNeuralNetwork copy(nn);
            auto x = in;
            if (k % 2) for (auto& v : x) v *= 0.9f;
            if (finite(chain(copy, x, k < 2, !inTest))) { c.label("finite"); c.discard(); }
        }
    }
    if (nn.hasNan()) c.discard();
    // batches that are left out: the row may need several epochs to be met
    const int n = nn.getNumberOfTraining();
    const auto before = readWeights(nn, live.net);
    auto endless = snn::operator""_ep(1000000000ull);
    if (background)
    {
        nn.startTrainingAsync(*live.data, batch, frequency);
        if (c.chance(50)) nn.waitFor(c.chance(50) ? endless : endless || snn::operator""_min(60ull)); // a hang if it does not end
        while (nn.isTraining()) this_thread::sleep_for(chrono::microseconds(50));
        if (c.chance(50)) nn.stopTrainingAsync();
        c.label("in the background");
    }
    else nn.train(*live.data, c.chance(50) ? endless : endless && snn::operator""_min(60ull), batch, frequency);
    c.check(nn.hasNan(), "the training met an output that is not finite and the network does not report it");
    c.check(!nn.isTraining(), "the network is not idle after the training");
    if (background) nn.stopTrainingAsync();
    c.check(nn.getCurrentIndex() == 0, pbt::cat("index ", nn.getCurrentIndex(), " after the training"));
    if (inTest && frequency > 0)
    {
        // found by the evaluation at the start
        c.check(nn.getNumberOfTraining() == n, pbt::cat(nn.getNumberOfTraining() - n, " training steps after an evaluation that met an output that is not finite"));
        const auto after = readWeights(nn, live.net);
        for (size_t l = 0; l < before.size(); ++l)
            for (size_t i = 0; i < before[l].size(); ++i)
                c.check(m::same(before[l][i], after[l][i]), pbt::cat("the training changed the weights of neuron ", i, " of layer ", l, " after an evaluation that met an output that is not finite"));
        c.check(statsAreNan(nn), "the statistics of the evaluation that met it: " + statsText(nn));
    }
    if (row > 0 || nn.getNumberOfTraining() - n > 1) c.nontrivial();
    c.label(inTest ? "testing set" : "training set");
    afterwards(c, live);
}

PROPERTY(C16, divergence, 1200, 40000, "the training diverged after ten steps or more")
{
    // a training that really diverges: the steps, one at a time, tell when it has to end
    LiveGen g;
    g.maxPast = 0;
    g.data.natures = {snn::nature::nonTemporal, snn::nature::sequential};
    g.data.problems = {snn::problem::regression};
    g.net.kinds = {FC, CONV, LC, REC};
    g.net.acts = {activation::identity, activation::identity, activation::ReLU, activation::GELU};
    g.net.maxLayers = 3;
    Live live = genLive(c, g);
    auto& nn = *live.nn;
    setRate(nn, c.pick(vector<float>{0.5f, 2.0f, 50.0f}), c.pick(vector<float>{0.0f, 0.9f}));
    const int epochs = c.range(1, 30), frequency = c.range(0, 3);
    c.text(pbt::cat(epochs, " epochs, frequency ", frequency, " with the learning rate ", nn.optimizer ? dynamic_cast<snn::internal::StochasticGradientDescent*>(nn.optimizer.get())->learningRate : 0));
    StraightforwardNeuralNetwork copy(nn);
    const int before = nn.getNumberOfTraining();
    const auto expected = pbt::inFork([&]
    {
        // stops when a layer chain gives a value that is not finite
        auto& d = *live.data;
        int n = 0;
        auto evaluates = [&]
        {
            for (int t = 0; t < (int)live.spec.testIn.size(); ++t) if (!finite(chain(copy, live.spec.testIn[t], live.spec.resetTest(t), false))) return false;
            return true;
        };
        bool ok = frequency == 0 || evaluates();
        for (int e = 1; e <= epochs && ok; ++e)
        {
            d.shuffle();
            for (int i = 0; i < d.sets[snn::training].size && ok; ++i)
            {
                StraightforwardNeuralNetwork ahead(copy);
                ok = finite(chain(ahead, d.getTrainingData(i), d.isFirstTrainingDataOfTemporalSequence(i), true));
                copy.trainOnce(d.getTrainingData(i), d.getTrainingOutputs(i), d.isFirstTrainingDataOfTemporalSequence(i));
                ++n;
            }
            if (ok && frequency > 0 && e % frequency == 0) ok = evaluates();
        }
        return vector<float>{ok ? 1.0f : 0.0f, (float)n};
    });
    nn.train(*live.data, snn::operator""_ep((unsigned long long)epochs), 1, frequency);
    const bool ok = expected[0] == 1;
    const int size = (int)live.spec.trainIn.size();
    c.check(!nn.isTraining(), "the network is not idle after the training");
    c.check(nn.hasNan() == !ok, ok ? "all the outputs are finite and the network reports one that is not" : pbt::cat("an output was not finite after ", expected[1], " steps and the network does not report it"));
    // rounding may move the step where it overflows
    if (ok) c.check(nn.getNumberOfTraining() - before == epochs * size, pbt::cat(nn.getNumberOfTraining() - before, " training steps"));
    else
    {
        c.check(fabs(nn.getNumberOfTraining() - before - expected[1]) <= 3, pbt::cat(nn.getNumberOfTraining() - before, " training steps instead of ", expected[1]));
        if (expected[1] >= 10) c.nontrivial();
        c.label("diverges");
        afterwards(c, live);
    }
}
