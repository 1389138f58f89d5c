// C12 Training visits each epoch's data once, in order, and stops when asked
#include "model.hpp"
#include <chrono>
#include <thread>
using namespace m;
using namespace std;

namespace
{
    LiveGen generator(pbt::Case& c)
    {
        LiveGen g;
        g.maxPast = 3;
        g.data.maxTrain = 14;
        g.data.maxTest = 4;
        g.net.maxLayers = 3;
        g.ops = {Op::TRAIN_ONCE, Op::INFER, Op::SHUFFLE, Op::TRAIN, Op::EVALUATE, Op::RATE};
        if (c.chance(50)) g.net.kinds = {FC, CONV, LC, POOL};
        return g;
    }

    // the data of the user, not what Data hands out
    vector<float> mean(const snn::vector2D<float>& rows, const vector<int>& order, int first, int batch, bool inFloat)
    {
        if (batch == 1) return rows[order[first]];
        if (inFloat)
        {
            vector<float> r(rows[0].size());
            for (int i = first; i < first + batch; ++i)
                for (size_t j = 0; j < r.size(); ++j) r[j] += rows[order[i]][j];
            for (auto& x : r) x /= (float)batch;
            return r;
        }
        vector<double> sum(rows[0].size());
        for (int i = first; i < first + batch; ++i)
            for (size_t j = 0; j < sum.size(); ++j) sum[j] += rows[order[i]][j];
        vector<float> r;
        for (auto x : sum) r.push_back((float)(x / batch));
        return r;
    }

    enum Rounding { EXACT, ABOVE, BELOW, IN_FLOAT, ROUNDINGS }; // results that depend on it cannot be compared

    // one epoch, at most limit trainings
    int epoch(const Live& live, StraightforwardNeuralNetwork& nn, snn::Data& d, int batch, int limit, Rounding rounding = EXACT)
    {
        const float noise = rounding == ABOVE ? 5e-7f : rounding == BELOW ? -5e-7f : 0;
        d.shuffle();
        const auto& spec = live.spec;
        const vector<int> order = d.sets[snn::training].shuffledIndexes;
        int n = 0;
        for (int i = 0; i + batch <= (int)spec.trainIn.size() && n < limit; i += batch)
        {
            auto in = mean(spec.trainIn, order, i, batch, rounding == IN_FLOAT);
            const auto out = mean(spec.trainOut, order, i, batch, rounding == IN_FLOAT);
            for (size_t j = 0; j < in.size(); ++j) in[j] *= 1 + (j % 2 ? noise : -noise);
            if (spec.nature == snn::nature::timeSeries)
            {
                const bool reset = d.isFirstTrainingDataOfTemporalSequence(i);
                if (d.needToLearnOnTrainingData(i)) { nn.trainOnce(in, out, reset); ++n; }
                else (void)nn.computeOutput(in, reset);
            }
            else
            {
                nn.trainOnce(in, out, spec.resetTrain(order[i]));
                ++n;
            }
        }
        return n;
    }

    vector<float> weightsOf(StraightforwardNeuralNetwork& nn, const Net& net)
    {
        vector<float> r;
        for (auto& l : readWeights(nn, net)) for (auto& n : l) r.insert(r.end(), n.begin(), n.end());
        return r;
    }
}

PROPERTY(C12, steps, 9000, 300000, "at least two epochs of at least two trainings")
{
    auto g = generator(c);
    if (c.chance(40)) // the same choices of dropped outputs
    {
        g.net.opts = {DROPOUT, L1, L2, MULT, SOFTMAX};
        if (c.chance(70)) g.data.natures = {snn::nature::nonTemporal, snn::nature::sequential};
    }
    Live live = genLive(c, g);
    if (live.spec.nature == snn::nature::timeSeries) // steps that are not learned draw dropouts too
        for (auto& l : live.net.layers) for (auto& o : l.opts) if (o.type == DROPOUT) c.discard();
    auto& nn = *live.nn;
    auto& d = *live.data;
    const int size = (int)live.spec.trainIn.size();
    const int epochs = c.ranged(0, 5, 40);
    const int batch = live.spec.nature == snn::nature::nonTemporal ? c.ranged(1, size) : 1;
    const int frequency = c.range(0, 3);
    const int trainings = nn.getNumberOfTraining();
    c.label(vector<string>{"non temporal", "sequential", "time series"}[(int)live.spec.nature]);
    c.text(pbt::cat("train ", epochs, " epochs, batch ", batch, ", evaluation frequency ", frequency));
    auto replay = [&](Rounding rounding) { return pbt::inFork([&]
    {
        vector<float> r;
        int n = 0;
        if (frequency > 0) nn.evaluate(d);
        for (int e = 1; e <= epochs; ++e)
        {
            n += epoch(live, nn, d, batch, 1 << 30, rounding);
            if (frequency > 0 && e % frequency == 0) nn.evaluate(d);
        }
        if (nn.hasNan()) throw pbt::Discarded();
        r = m::stats(nn);
        r.push_back((float)n);
        const auto w = weightsOf(nn, live.net);
        r.insert(r.end(), w.begin(), w.end());
        for (auto i : d.sets[snn::training].shuffledIndexes) r.push_back((float)i);
        return r;
    }); };
    const auto expected = replay(EXACT);
    for (int k = ABOVE; k < (batch > 1 ? ROUNDINGS : IN_FLOAT); ++k)
    {
        const auto near = replay((Rounding)k);
        for (size_t i = 11; i < expected.size(); ++i) // rounding is amplified: nothing can be compared
            if (!(fabs((double)near[i] - expected[i]) <= 2e-5 * max(1.0, fabs((double)expected[i])))) { c.label("unstable training"); c.discard(); }
    }
    nn.train(d, snn::operator""_ep((unsigned long long)epochs), batch, frequency);
    if (nn.hasNan()) c.fail("the outputs are not finite in the training only");
    auto actual = m::stats(nn);
    actual.push_back((float)(nn.getNumberOfTraining() - trainings));
    const auto w = weightsOf(nn, live.net);
    actual.insert(actual.end(), w.begin(), w.end());
    for (auto i : d.sets[snn::training].shuffledIndexes) actual.push_back((float)i);
    c.check(actual[10] == expected[10], pbt::cat(actual[10], " trainings instead of ", expected[10]));
    if (live.spec.nature != snn::nature::timeSeries)
        c.check(actual[10] == (float)(epochs * (size / batch)), pbt::cat(actual[10], " trainings in ", epochs, " epochs of ", size, " data with batch ", batch));
    string diff;
    for (size_t i = 0; i < expected.size() && diff.empty(); ++i)
    {
        const double a = actual[i], b = expected[i];
        if (fabs(a - b) <= 5e-4 * max({1.0, fabs(a), fabs(b)})) continue;
        if (!isfinite((float)a) && !isfinite((float)b)) continue; // the sum of the errors is too big
        if (i < 10)
        {
            // the others depend on thresholds, an output may be very near of one
            if (i == 3 || i == 4 || i == 8 || i == 9) diff = pbt::cat("statistic ", i, " is ", a, " instead of ", b);
            else c.label("statistic that changes with a threshold");
            continue;
        }
        diff = pbt::cat(i < 11 + w.size() ? "weight " : "index ", i - 11, " is ", a, " instead of ", b, " when the training steps are applied one by one");
    }
    c.check(diff.empty(), diff);
    c.check(!nn.isTraining() && nn.getCurrentIndex() == 0, "the network is not idle after the training");
    c.check(nn.getCurrentEpoch() == epochs || nn.getCurrentEpoch() == epochs + 1, pbt::cat("the network reports the epoch ", nn.getCurrentEpoch(), " after ", epochs));
    c.check(nn.getNumberOfTrainingsBetweenTwoEvaluations() == size, pbt::cat("number of trainings between two evaluations: ", nn.getNumberOfTrainingsBetweenTwoEvaluations()));
    if (epochs >= 2 && expected[10] >= 4) c.nontrivial();
}

PROPERTY(C12, huge, 30, 600, "more than 32768 training data, at least one training for each")
{
    stir(c);
    Live live;
    const int nIn = c.range(1, 2), size = c.range(30000, 80000), epochs = c.range(1, 2), frequency = c.range(0, 1);
    const int batch = c.chance(70) ? 1 : c.pick(vector<int>{2, 3, 50, 29000});
    auto& spec = live.spec;
    spec.problem = snn::problem::regression;
    spec.nature = batch > 1 ? snn::nature::nonTemporal : c.pick(vector<snn::nature>{snn::nature::nonTemporal, snn::nature::sequential, snn::nature::timeSeries});
    spec.recurrences = spec.nature == snn::nature::timeSeries ? c.range(1, 3) : 0;
    for (int i = 0; i < size; ++i)
    {
        vector<float> in((size_t)nIn, 0.5f);
        in[0] = (float)(i % 101) / 50 - 1;
        spec.trainIn.push_back(in);
        spec.trainOut.push_back({(float)(i / 101) / 800 - in[0]});
    }
    if (spec.nature == snn::nature::sequential) // long sequences and short ones
        for (int left = size, k = 0; left > 0; left -= spec.trainSeq.back(), ++k) spec.trainSeq.push_back(min(left, k % 3 ? 7 : 3000));
    spec.testIn = {spec.trainIn[0]};
    spec.testOut = {spec.trainOut[0]};
    spec.testSeq = {1};
    live.net = Net{{nIn}, {L{c.chance(30) ? REC : FC, 1, 0, activation::tanh}}};
    live.net.finalize();
    live.net.lr = c.pick(vector<float>{0.00001f, 0.001f});
    live.nn = live.net.build();
    live.data = spec.build();
    auto& nn = *live.nn;
    auto& d = *live.data;
    c.text(live.net.text());
    c.text(pbt::cat(size, " data, nature ", (int)spec.nature, ", ", spec.recurrences, " recurrences, ", epochs, " epochs, batch ", batch, ", frequency ", frequency));
    const auto expected = pbt::inFork([&]
    {
        vector<float> r;
        int n = 0;
        if (frequency > 0) nn.evaluate(d);
        for (int e = 1; e <= epochs; ++e)
        {
            n += epoch(live, nn, d, batch, 1 << 30);
            if (frequency > 0) nn.evaluate(d);
        }
        const auto w = weightsOf(nn, live.net);
        r = {(float)n};
        r.insert(r.end(), w.begin(), w.end());
        return r;
    });
    nn.train(d, snn::operator""_ep((unsigned long long)epochs), batch, frequency);
    c.check((float)nn.getNumberOfTraining() == expected[0], pbt::cat(nn.getNumberOfTraining(), " trainings instead of ", expected[0]));
    if (spec.nature != snn::nature::timeSeries) c.check(nn.getNumberOfTraining() == epochs * (size / batch), pbt::cat(nn.getNumberOfTraining(), " trainings"));
    const auto w = weightsOf(nn, live.net);
    for (size_t i = 0; i < w.size(); ++i)
        c.check(fabs(w[i] - expected[i + 1]) <= 2e-3, pbt::cat("weight ", i, " is ", w[i], " instead of ", expected[i + 1]));
    c.check(!nn.isTraining() && nn.getCurrentIndex() == 0, "the network is not idle after the training");
    if (size > 32768 && batch == 1) c.nontrivial();
    if (size > 65536) c.label("more than 65536 data");
}

PROPERTY(C12, statistics, 3000, 100000, "an evaluation during the training changes a best statistic")
{
    // which evaluations happen: the best statistics are those of the evaluations that were requested, exactly
    auto g = generator(c);
    g.net.kinds = {FC, CONV, LC, POOL};
    g.net.acts = {activation::sigmoid, activation::tanh};
    g.data.problems = {snn::problem::regression};
    g.data.natures = {snn::nature::nonTemporal};
    g.maxPast = 1;
    Live live = genLive(c, g);
    auto& nn = *live.nn;
    auto& d = *live.data;
    setRate(nn, 0.3f, 0);
    const int epochs = c.ranged(1, 8, 60), frequency = c.ranged(0, 5, 30);
    c.text(pbt::cat("train ", epochs, " epochs, evaluation frequency ", frequency));
    const float before = nn.getMeanAbsoluteErrorMin();
    const auto expected = pbt::inFork([&]
    {
        int n = 0;
        float least = before, last = nn.getMeanAbsoluteError();
        auto evaluate = [&]
        {
            nn.evaluate(d);
            last = nn.getMeanAbsoluteError();
            if (least < 0 || last < least) { least = last; ++n; }
        };
        if (frequency > 0) evaluate();
        for (int e = 1; e <= epochs; ++e)
        {
            epoch(live, nn, d, 1, 1 << 30);
            if (frequency > 0 && e % frequency == 0) evaluate();
        }
        if (nn.hasNan()) throw pbt::Discarded();
        return vector<float>{least, last, (float)n};
    });
    nn.train(d, snn::operator""_ep((unsigned long long)epochs), 1, frequency);
    c.check(fabs(nn.getMeanAbsoluteErrorMin() - expected[0]) <= 1e-5 * max(1.0f, expected[0]), pbt::cat("least mean absolute error ", nn.getMeanAbsoluteErrorMin(), " instead of ", expected[0]));
    c.check(fabs(nn.getMeanAbsoluteError() - expected[1]) <= 1e-5 * max(1.0f, expected[1]), pbt::cat("mean absolute error ", nn.getMeanAbsoluteError(), " instead of ", expected[1]));
    if (expected[2] > 1) c.nontrivial();
}

PROPERTY(C12, stopped, 600, 15000, "the training was stopped after the first epoch, in the middle of one")
{
    // a training that is stopped in the background made a prefix of the steps
    auto g = generator(c);
    g.maxPast = 2;
    g.data.natures = {snn::nature::nonTemporal, snn::nature::sequential};
    g.data.maxTrain = 20;
    Live live = genLive(c, g);
    auto& nn = *live.nn;
    auto& d = *live.data;
    setRate(nn, 0.01f, 0.0f);
    const int size = (int)live.spec.trainIn.size();
    const int batch = live.spec.nature == snn::nature::nonTemporal ? c.range(1, size) : 1;
    // an evaluation changes the state of a recurrent network
    const int frequency = live.net.temporal() ? 0 : c.range(0, 2);
    const int delay = c.range(0, 300);
    const auto before = nn.getNumberOfTraining();
    const int perEpoch = size / batch;
    const auto run = pbt::inFork([&]
    {
        nn.startTrainingAsync(d, batch, frequency);
        if (c.chance(50)) nn.waitFor(snn::operator""_ep((unsigned long long)c.range(0, 5)) || snn::operator""_ms(500ull));
        this_thread::sleep_for(chrono::microseconds(delay));
        nn.stopTrainingAsync();
        if (nn.hasNan()) throw pbt::Discarded();
        vector<float> r{(float)(nn.getNumberOfTraining() - before), (float)nn.getCurrentEpoch(), (float)nn.isTraining(), (float)nn.getCurrentIndex()};
        const auto w = weightsOf(nn, live.net);
        r.insert(r.end(), w.begin(), w.end());
        return r;
    });
    const int n = (int)run[0], e = (int)run[1];
    c.text(pbt::cat("stopped after ", n, " trainings, ", perEpoch, " for each epoch, in the epoch ", e));
    c.check(run[2] == 0, "the network is training after it was stopped");
    c.check(run[3] == 0, pbt::cat("index ", run[3], " after the training was stopped"));
    if (n > 100000) c.discard();
    // the counter counts the epoch that was interrupted
    c.check(n <= e * perEpoch && n >= (e - 2) * perEpoch, pbt::cat(n, " trainings with ", perEpoch, " for each epoch and the epoch counter ", e));
    if (n > 2000) return;
    auto replay = [&](Rounding rounding)
    {
        for (int left = n; left > 0;) left -= epoch(live, nn, d, batch, left, rounding);
        return weightsOf(nn, live.net);
    };
    vector<vector<float>> near;
    for (int k = ABOVE; k < (batch > 1 ? ROUNDINGS : IN_FLOAT); ++k) near.push_back(pbt::inFork([&] { return replay((Rounding)k); }));
    const auto w = replay(EXACT);
    for (auto& other : near) for (size_t i = 0; i < w.size(); ++i)
        if (!(fabs((double)other[i] - w[i]) <= 2e-5 * max(1.0, fabs((double)w[i])))) { c.label("unstable training"); return; }
    vector<float> expected{run[0], run[1], run[2], run[3]};
    expected.insert(expected.end(), w.begin(), w.end());
    if (nn.hasNan()) c.discard();
    for (auto x : expected) if (!(fabs((double)x) < 1e4)) c.discard(); // it diverges
    for (size_t i = 4; i < run.size(); ++i)
        c.check(fabs((double)run[i] - expected[i]) <= 1e-3 * max({1.0, fabs((double)run[i]), fabs((double)expected[i])}), pbt::cat("weight ", i - 4, " is ", run[i], " instead of ", expected[i], " after ", n, " trainings"));
    if (n > perEpoch && n % perEpoch) c.nontrivial();
}

PROPERTY(C12, refused, 9000, 250000, "refused")
{
    auto g = generator(c);
    g.data.natures = {snn::nature::nonTemporal, snn::nature::nonTemporal, snn::nature::sequential, snn::nature::timeSeries};
    Live live = genLive(c, g);
    auto& nn = *live.nn;
    const int nIn = live.net.nIn(), nOut = live.net.nOut();
    // data for another network
    const int otherIn = c.chance(30) ? max(1, nIn + c.range(0, 4) - 2) : nIn;
    const int otherOut = c.chance(30) ? max(1, nOut + c.range(0, 4) - 2) : nOut;
    DataGen dg;
    dg.natures = g.data.natures;
    dg.emptyTest = false;
    const auto spec = genData(c, otherIn, otherOut, dg);
    const int size = (int)spec.trainIn.size();
    const int batch = c.pick(vector<int>{1, 1, 1, 2, 0, -1, size, size + 1, c.range(1, 20), -1000000, 1 << 30});
    const bool temporal = spec.nature != snn::nature::nonTemporal;
    const bool valid = otherIn == nIn && otherOut == nOut && batch >= 1 && batch <= size && (!temporal || batch == 1);
    c.text(spec.text());
    c.text(pbt::cat("inputs ", otherIn, " of ", nIn, ", outputs ", otherOut, " of ", nOut, ", batch ", batch, valid ? " valid" : " invalid"));
    auto data = spec.build();
    if (c.chance(50)) data->shuffle();
    const auto order = data->sets[snn::training].shuffledIndexes;
    const auto before = observe(live.net, nn);
    const bool async = c.chance(40);
    bool refused = false;
    try
    {
        if (async) { nn.startTrainingAsync(*data, batch, c.range(0, 1)); nn.stopTrainingAsync(); }
        else nn.train(*data, snn::operator""_ep(1ull), batch, c.range(0, 1));
    }
    catch (const exception& e)
    {
        refused = true;
        if (valid) c.fail(pbt::cat("a valid training is refused: ", e.what()));
    }
    c.check(refused != valid, "an invalid training is not refused");
    c.check(!nn.isTraining(), "the network is training");
    if (refused)
    {
        const auto diff = differs(before, observe(live.net, nn));
        c.check(diff.empty(), "the refused training changed the network: " + diff);
        c.check(order == data->sets[snn::training].shuffledIndexes, "the refused training changed the data");
        // and the network still trains
        nn.train(*live.data, snn::operator""_ep(1ull), 1, 0);
        c.check(!nn.isTraining(), "the network is training");
        c.nontrivial();
    }
}

PROPERTY(C12, failing, 2000, 60000, "the training failed")
{
    // the labels of the testing set are wrong: the evaluation cannot be made, at the start or later
    auto g = generator(c);
    g.data.problems = {snn::problem::classification};
    g.data.natures = {snn::nature::nonTemporal};
    Live live = genLive(c, g);
    if (live.spec.problem != snn::problem::classification) c.discard();
    auto spec = live.spec;
    spec.shared = false;
    for (auto& x : spec.testOut[c.draw((uint32_t)spec.testOut.size())]) x = 0.5f;
    auto data = spec.build();
    auto& nn = *live.nn;
    bool failed = false;
    const auto before = weightsOf(nn, live.net);
    try { nn.train(*data, snn::operator""_ep(1ull), 1, 1); }
    catch (const exception&) { failed = true; }
    c.check(failed, "an evaluation with a label that has no class does not fail");
    c.check(!nn.isTraining(), "the network is training after its training failed");
    c.check(differs(before, weightsOf(nn, live.net)).empty(), "the training changed the network before it failed");
    const int n = nn.getNumberOfTraining();
    nn.train(*live.data, snn::operator""_ep(1ull), 1, 1);
    c.check(nn.getNumberOfTraining() - n == (int)live.spec.trainIn.size() || nn.hasNan(), "the network does not train after a training failed");
    StraightforwardNeuralNetwork copy(nn);
    c.check(copy == nn, "the copy is different");
    nn.saveAs(c.scratch() + "/n");
    c.nontrivial();
}
