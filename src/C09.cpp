// C09 Evaluation statistics match their definitions on the testing set
#include "model.hpp"
#include <chrono>
#include <thread>
using namespace m;
using namespace std;
using snn::problem;

namespace
{
    struct Expected
    {
        double accuracy = 0, recall = 0, f1 = 0, mae = 0, rmse = 0;
        bool accuracyKnown = true, countsKnown = true; // false: an output is too close to a threshold, or a tie
    };

    bool near(double a, double b) { return fabs(a - b) <= 1e-6 * max({1.0, fabs(a), fabs(b)}); }

    // what the definitions give for the outputs that have to be evaluated
    Expected definition(const DataSpec& d, const vector<pair<int, vector<float>>>& outputs, int classes)
    {
        Expected e;
        vector<double> tp(classes), fp(classes), fn(classes);
        const float separator = d.setOptions ? d.separator : 0.5f;
        const float precision = d.setOptions ? d.precision : 0.1f;
        double well = 0, absolute = 0, squared = 0;
        for (auto& [i, out] : outputs)
        {
            vector<float> desired = d.testOut[i];
            bool right = true;
            if (d.problem == problem::classification)
            {
                const int label = (int)(ranges::find(desired, 1.0f) - desired.begin());
                for (int k = 0; k < classes; ++k) desired[k] = k == label ? 1.0f : 0.0f;
                for (int k = 0; k < classes; ++k)
                {
                    if (k != label && out[k] > out[label]) right = false;
                    if (k != label && near(out[k], out[label])) e.accuracyKnown = false;
                }
            }
            for (int k = 0; k < classes; ++k)
            {
                if (d.problem == problem::regression)
                {
                    const double error = (double)out[k] - desired[k];
                    if (near(fabs(error), precision)) e.accuracyKnown = false;
                    if (fabs(error) > precision) right = false;
                }
                else
                {
                    if (near(out[k], separator)) { e.countsKnown = false; if (d.problem == problem::multipleClassification) e.accuracyKnown = false; }
                    const bool yes = out[k] > separator, expected = d.problem == problem::classification ? desired[k] == 1 : desired[k] > separator;
                    if (yes && expected) ++tp[k];
                    if (yes && !expected) ++fp[k];
                    if (!yes && expected) ++fn[k];
                    if (d.problem == problem::multipleClassification && yes != expected) right = false;
                }
                absolute += fabs((double)desired[k] - out[k]);
                squared += ((double)desired[k] - out[k]) * ((double)desired[k] - out[k]);
            }
            well += right;
        }
        const double n = (double)outputs.size();
        e.accuracy = well / n;
        e.mae = absolute / n;
        e.rmse = sqrt(squared / n);
        for (int k = 0; k < classes; ++k)
            if (tp[k] > 0)
            {
                const double recall = tp[k] / (tp[k] + fn[k]), precise = tp[k] / (tp[k] + fp[k]);
                e.recall += recall / classes;
                e.f1 += 2 * precise * recall / (precise + recall) / classes;
            }
        return e;
    }
}

static void property(pbt::Case& c, bool many)
{
    LiveGen g;
    g.maxPast = 3;
    g.data.maxTest = many ? c.chance(10) ? 300 : 40 : 12;
    g.data.maxTrain = 6;
    g.net.acts = c.chance(70) ? vector<activation>{activation::sigmoid, activation::tanh, activation::identity} : g.net.acts;
    if (c.chance(40)) g.net.opts = {DROPOUT, L1, MULT, SOFTMAX};
    g.ops = {Op::TRAIN_ONCE, Op::INFER, Op::SHUFFLE, Op::CLUSTER};
    Live live = genLive(c, g);
    auto& d = live.spec;
    if (d.problem == problem::multipleClassification && c.chance(40)) // labels between 0 and 1
    {
        for (auto& row : d.testOut) for (auto& x : row) x = c.chance(25) ? (d.setOptions ? d.separator : 0.5f) /* not above it */ : (float)c.range(0, 10) / 10.0f + 0.003f;
        if (!d.shared) live.data = d.build();
        else d.testOut = d.trainOut;
    }
    auto& nn = *live.nn;
    const auto net = live.net;
    const int classes = net.nOut();
    c.label(vector<string>{"classification", "multiple classification", "regression"}[(int)d.problem]);
    c.label(vector<string>{"non temporal", "sequential", "time series"}[(int)d.nature]);
    double best[3] = {-1, -1, -1}, least[2] = {-1, -1};
    bool bestKnown[3] = {true, true, true};
    const int evaluations = c.ranged(1, 5, 20);
    vector<double> accuracies;
    for (int i = 0; i < evaluations; ++i)
    {
        StraightforwardNeuralNetwork copy(nn);
        vector<pair<int, vector<float>>> outputs;
        for (int t = 0; t < (int)d.testIn.size(); ++t)
        {
            auto out = copy.computeOutput(d.testIn[t], d.resetTest(t));
            for (auto x : out) if (!(fabs((double)x) < 1e6)) c.discard();
            if (d.needTest(t)) outputs.emplace_back(t, out);
        }
        const Expected e = definition(d, outputs, classes);
        nn.evaluate(*live.data);
        auto is = [&](float actual, double expected, const string& what)
        {
            c.check(fabs(actual - expected) <= 1e-5 * max(1.0, fabs(expected)), pbt::cat("evaluation ", i, ": ", what, " is ", actual, " instead of ", expected));
        };
        if (e.accuracyKnown) is(nn.getGlobalClusteringRate(), e.accuracy, "accuracy");
        if (e.countsKnown) is(nn.getWeightedClusteringRate(), e.recall, "class-averaged recall");
        if (e.countsKnown) is(nn.getF1Score(), e.f1, "class-averaged F1 score");
        is(nn.getMeanAbsoluteError(), e.mae, "mean absolute error");
        is(nn.getRootMeanSquaredError(), e.rmse, "root mean squared error");
        // the best ones of the whole history
        bestKnown[0] &= e.accuracyKnown;
        bestKnown[1] &= e.countsKnown;
        bestKnown[2] &= e.countsKnown;
        best[0] = max(best[0], e.accuracy);
        best[1] = max(best[1], e.recall);
        best[2] = max(best[2], e.f1);
        least[0] = least[0] < 0 ? e.mae : min(least[0], e.mae);
        least[1] = least[1] < 0 ? e.rmse : min(least[1], e.rmse);
        if (bestKnown[0]) is(nn.getGlobalClusteringRateMax(), best[0], "best accuracy");
        if (bestKnown[1]) is(nn.getWeightedClusteringRateMax(), best[1], "best class-averaged recall");
        if (bestKnown[2]) is(nn.getF1ScoreMax(), best[2], "best class-averaged F1 score");
        is(nn.getMeanAbsoluteErrorMin(), least[0], "least mean absolute error");
        is(nn.getRootMeanSquaredErrorMin(), least[1], "least root mean squared error");
        if (!e.accuracyKnown || !e.countsKnown) c.label("too close to a threshold");
        else if (e.accuracy > 0 && e.accuracy < 1) c.nontrivial();
        if (e.recall > 0 && e.recall < 1) c.label("recall between 0 and 1");
        if (c.chance(30)) live.data->shuffle();
        // other weights: better or worse
        if (c.chance(60)) writeWeights(nn, net, genWeights(c, net, c.pick(vector<double>{1, 0.3})));
        else for (int k = c.range(0, 3); k > 0; --k) nn.trainOnce(genVector(c, net.nIn(), 1), genVector(c, net.nOut(), 1));
        if (nn.hasNan()) break;
        if (c.chance(15)) // the results go with the copy
        {
            StraightforwardNeuralNetwork other(nn);
            c.check(m::same(m::stats(other), m::stats(nn)), "the copy has other statistics: " + statsText(other) + " and " + statsText(nn));
            live.nn = make_unique<StraightforwardNeuralNetwork>(other);
            break;
        }
    }
}

PROPERTY(C09, definitions, 12000, 400000, "an accuracy strictly between 0 and 1, no output near a threshold") { property(c, false); }
PROPERTY(C09, largerSets, 3000, 100000, "an accuracy strictly between 0 and 1, no output near a threshold") { property(c, true); }

PROPERTY(C09, thresholds, 3000, 100000, "an output exactly on a threshold or two greatest outputs, and an accuracy strictly between 0 and 1")
{
    // outputs that are known exactly, many of them equal to the separator, at the precision of the desired output, or tied
    DataSpec d;
    d.problem = c.pick(vector<problem>{problem::classification, problem::multipleClassification, problem::regression});
    d.nature = snn::nature::nonTemporal;
    d.setOptions = true;
    d.separator = c.pick(vector<float>{0.5f, 0.25f, 0, -0.5f, 0.75f, 1});
    d.precision = c.pick(vector<float>{0.125f, 0.25f, 0.5f, 1});
    const int size = c.range(1, 20), n = c.range(d.problem == problem::classification ? 2 : 1, 4);
    auto value = [&] { return 0.125f * (float)c.range(-8, 12); };
    for (int i = 0; i < size; ++i)
    {
        vector<float> in, out((size_t)n, 0.0f);
        for (int k = 0; k < n; ++k) in.push_back(d.problem != problem::regression && c.chance(40) ? d.separator : k > 0 && c.chance(30) ? in[0] : value());
        if (d.problem == problem::classification) out[c.draw((uint32_t)n)] = 1;
        else
            for (int k = 0; k < n; ++k)
                out[k] = c.chance(50) ? d.problem == problem::regression ? in[k] + (c.chance(50) ? d.precision : -d.precision) : d.separator : value();
        d.testIn.push_back(in);
        d.testOut.push_back(out);
    }
    d.trainIn = {d.testIn[0]};
    d.trainOut = {d.testOut[0]};
    c.text(pbt::cat("separator ", d.separator, " precision ", d.precision));
    c.text(d.text());
    Net net{{n}, {L{FC, n, 0, activation::identity}}};
    net.finalize();
    auto nn = net.build();
    Weights w(1, vector<vector<float>>(n, vector<float>(n + 1, 0.0f)));
    for (int i = 0; i < n; ++i) w[0][i][i] = 1;
    writeWeights(*nn, net, w);
    auto data = d.build();
    if (d.problem != problem::regression) d.separator = data->getSeparator();
    else d.precision = data->getPrecision();
    vector<double> tp(n), fp(n), fn(n);
    double well = 0;
    bool on = false;
    for (int i = 0; i < size; ++i)
    {
        const auto& out = d.testIn[i];
        c.check(nn->computeOutput(out) == out, "the network is not the identity");
        bool right = true;
        int label = -1;
        if (d.problem == problem::classification)
        {
            label = (int)(ranges::find(d.testOut[i], 1.0f) - d.testOut[i].begin());
            right = nn->computeCluster(out) == label; // whichever of two greatest outputs that is
            if (ranges::count(out, ranges::max(out)) > 1) on = true;
        }
        for (int k = 0; k < n; ++k)
        {
            const float desired = d.testOut[i][k];
            if (d.problem == problem::regression)
            {
                if (fabs(out[k] - desired) > d.precision) right = false;
                if (fabs(out[k] - desired) == d.precision) on = true;
                continue;
            }
            const bool yes = out[k] > d.separator, expected = label >= 0 ? label == k : desired > d.separator;
            tp[k] += yes && expected;
            fp[k] += yes && !expected;
            fn[k] += !yes && expected;
            if (label < 0 && yes != expected) right = false;
            if (out[k] == d.separator) on = true;
        }
        well += right;
    }
    double recall = 0, f1 = 0;
    for (int k = 0; k < n; ++k)
        if (tp[k] > 0)
        {
            const double r = tp[k] / (tp[k] + fn[k]), precise = tp[k] / (tp[k] + fp[k]);
            recall += r / n;
            f1 += 2 * precise * r / (precise + r) / n;
        }
    nn->evaluate(*data);
    auto is = [&](float actual, double expected, const string& what)
    {
        c.check(fabs(actual - expected) <= 1e-5, pbt::cat(what, " is ", actual, " instead of ", expected));
    };
    is(nn->getGlobalClusteringRate(), well / size, "accuracy");
    is(nn->getWeightedClusteringRate(), recall, "class-averaged recall");
    is(nn->getF1Score(), f1, "class-averaged F1 score");
    if (on && well > 0 && well < size) c.nontrivial();
}

PROPERTY(C09, huge, 40, 800, "more than 32768 testing data, an accuracy strictly between 0 and 1")
{
    // the network hands out its inputs: the outputs are known exactly
    DataSpec d;
    d.problem = c.pick(vector<problem>{problem::classification, problem::multipleClassification, problem::regression});
    d.nature = snn::nature::nonTemporal;
    const int size = c.range(30000, 80000), n = c.range(d.problem == problem::classification ? 2 : 1, 3), right = c.range(1, 9);
    uint64_t seed = c.draw(1u << 30) + 1;
    auto next = [&](int most) { seed = seed * 6364136223846793005ull + 1442695040888963407ull; return (int)((seed >> 33) % (uint64_t)most); };
    for (int i = 0; i < size; ++i)
    {
        vector<float> in, out((size_t)n, 0.0f);
        for (int k = 0; k < n; ++k) in.push_back((float)next(10) / 10 + 0.03f + 0.001f * (float)k);
        if (d.problem == problem::classification) out[(size_t)next(n)] = 1;
        else
            for (int k = 0; k < n; ++k)
                out[k] = d.problem == problem::regression ? in[k] + (next(10) < right ? 0.02f : 0.5f) : (float)(next(10) < right ? in[k] > 0.5f : in[k] <= 0.5f);
        d.testIn.push_back(in);
        d.testOut.push_back(out);
    }
    d.trainIn = {d.testIn[0]};
    d.trainOut = {d.testOut[0]};
    c.text(pbt::cat(size, " data of ", n, " values, problem ", (int)d.problem));
    Net net{{n}, {L{FC, n, 0, activation::identity}}};
    net.finalize();
    auto nn = net.build();
    Weights w(1, vector<vector<float>>(n, vector<float>(n + 1, 0.0f)));
    for (int i = 0; i < n; ++i) w[0][i][i] = 1;
    writeWeights(*nn, net, w);
    vector<pair<int, vector<float>>> outputs;
    for (int i = 0; i < size; ++i) outputs.emplace_back(i, d.testIn[i]);
    const Expected e = definition(d, outputs, n);
    auto data = d.build();
    nn->evaluate(*data);
    auto is = [&](float actual, double expected, double tolerance, const string& what)
    {
        c.check(fabs(actual - expected) <= tolerance, pbt::cat(what, " is ", actual, " instead of ", expected));
    };
    if (e.accuracyKnown) is(nn->getGlobalClusteringRate(), e.accuracy, 1e-5, "accuracy");
    is(nn->getWeightedClusteringRate(), e.recall, 1e-5, "class-averaged recall");
    is(nn->getF1Score(), e.f1, 1e-5, "class-averaged F1 score");
    is(nn->getMeanAbsoluteError(), e.mae, 0.01 * e.mae, "mean absolute error"); // a sum in single precision
    is(nn->getRootMeanSquaredError(), e.rmse, 0.01 * e.rmse, "root mean squared error");
    if (size > 32768 && e.accuracy > 0 && e.accuracy < 1) c.nontrivial();
    if (size > 65536) c.label("more than 65536 data");
}

PROPERTY(C09, otherData, 4000, 120000, "two different testing sets are evaluated before the one that is checked")
{
    // the statistics do not depend on what was evaluated before, on the training set, nor on the shuffle
    LiveGen g;
    g.data.natures = {snn::nature::nonTemporal};
    g.net.kinds = {FC, CONV, LC, POOL};
    g.ops = {Op::TRAIN_ONCE, Op::INFER};
    Live live = genLive(c, g);
    StraightforwardNeuralNetwork fresh(*live.nn);
    int others = 0;
    for (int i = c.ranged(1, 4); i > 0; --i)
    {
        DataGen dg;
        dg.emptyTest = false;
        const auto other = genData(c, live.net.nIn(), live.net.nOut(), dg);
        auto data = other.build();
        if (c.chance(30)) data->shuffle();
        live.nn->evaluate(*data);
        ++others;
    }
    DataSpec changed = live.spec;
    const int n = (int)changed.trainIn.size();
    changed.shared = false;
    changed.trainIn = {genVector(c, live.net.nIn(), 1)};
    changed.trainOut = {changed.trainOut[c.draw((uint32_t)n)]};
    auto data = changed.build();
    if (c.chance(50)) data->shuffle();
    live.nn->evaluate(*live.data);
    const auto a = m::stats(*live.nn);
    fresh.evaluate(*data);
    const auto b = m::stats(fresh);
    for (int i = 0; i < 5; ++i)
        c.check(fabs(a[i] - b[i]) <= 1e-5f * max(1.0f, fabs(b[i])), pbt::cat("the statistics ", pbt::str(a), " depend on what was evaluated before or on the training set: ", pbt::str(b)));
    if (others >= 2) c.nontrivial();
}

PROPERTY(C09, stopped, 60, 2000, "several trainings that are stopped, an accuracy strictly between 0 and 1")
{
    // an evaluation is about the whole testing set, also when the training is asked to stop in the middle of it
    DataSpec d;
    d.problem = c.pick(vector<problem>{problem::classification, problem::multipleClassification, problem::regression});
    d.nature = snn::nature::nonTemporal;
    const int size = c.range(1000, 6000), nIn = c.range(1, 30), n = c.range(d.problem == problem::classification ? 2 : 1, 4);
    uint64_t seed = c.draw(1u << 30) + 1;
    auto next = [&](int most) { seed = seed * 6364136223846793005ull + 1442695040888963407ull; return (int)((seed >> 33) % (uint64_t)most); };
    for (int i = 0; i < size; ++i)
    {
        vector<float> in, out((size_t)n, 0.0f);
        for (int k = 0; k < nIn; ++k) in.push_back((float)next(2000) / 1000 - 1);
        if (d.problem == problem::classification) out[(size_t)next(n)] = 1;
        else for (int k = 0; k < n; ++k) out[k] = d.problem == problem::regression ? (float)next(100) / 100 * (float)(i % 7) / 7 : (float)(next(size) < i);
        d.testIn.push_back(in);
        d.testOut.push_back(out);
    }
    d.trainIn = {d.testIn[0]};
    d.trainOut = {d.testOut[0]};
    Net net{{nIn}, {L{FC, n, 0, activation::sigmoid}}};
    net.layers.back().opts = {Opt{MULT, 0}}; // nothing is learned: all the evaluations have the same results
    net.finalize();
    auto nn = net.build();
    StraightforwardNeuralNetwork alone(*nn);
    auto data = d.build();
    alone.evaluate(*data);
    const auto expected = m::stats(alone);
    c.text(pbt::cat(size, " testing data of ", nIn, " values, ", n, " outputs, problem ", (int)d.problem));
    nn->autoSaveWhenBetter = c.chance(30);
    nn->autoSaveFilePath = c.scratch() + "/best.snn";
    const bool saved = nn->autoSaveWhenBetter;
    const int rounds = c.range(2, 8);
    for (int r = 0; r < rounds; ++r)
    {
        const int us = c.draw(3000);
        nn->startTrainingAsync(*data);
        this_thread::sleep_for(chrono::microseconds(us));
        nn->stopTrainingAsync();
        const auto s = m::stats(*nn);
        for (size_t i = 0; i < s.size(); ++i)
            c.check(fabs(s[i] - expected[i]) <= 1e-5f * max(1.0f, fabs(expected[i])), pbt::cat("the statistics ", pbt::str(s), " after a training that was stopped, instead of ", pbt::str(expected)));
    }
    if (saved)
    {
        unique_ptr<StraightforwardNeuralNetwork> best(&StraightforwardNeuralNetwork::loadFrom(nn->autoSaveFilePath));
        const auto s = m::stats(*best);
        for (size_t i = 0; i < s.size(); ++i)
            c.check(fabs(s[i] - expected[i]) <= 1e-5f * max(1.0f, fabs(expected[i])), pbt::cat("the statistics ", pbt::str(s), " of the automatic save of a training that was stopped, instead of ", pbt::str(expected)));
    }
    if (rounds >= 3 && expected[0] > 0 && expected[0] < 1) c.nontrivial();
}
