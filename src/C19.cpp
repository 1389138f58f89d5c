// C19 Inference, evaluation and export never change what the network knows
#include "model.hpp"
#include <filesystem>
using namespace m;
using namespace std;
namespace fs = std::filesystem;

namespace
{
    // an operation that must not change what a network knows
    struct Look
    {
        enum Kind { INFER, CLUSTER, EVALUATE, SUMMARY, GETTERS, EQUAL, COPY, SAVE, MAPS, DATA2D, FILTERS } kind;
        vector<float> in{};
        bool reset = false;
        int n = 0;
        bool infers() const { return kind == INFER || kind == CLUSTER || kind == EVALUATE || kind == FILTERS; }
        string text() const
        {
            static const char* names[] = {"computeOutput", "computeCluster", "evaluate", "summary", "getters", "==", "copy", "saveAs", "saveFeatureMaps", "saveData2D", "saveFilterLayers"};
            string r = names[kind];
            if (kind == INFER || kind == CLUSTER) r += (reset ? " with reset " : " ") + pbt::str(in, 4);
            return r;
        }
    };

    Look genLook(pbt::Case& c, const Live& live, bool mayInfer)
    {
        Look l{mayInfer ? c.pick(vector<Look::Kind>{Look::INFER, Look::INFER, Look::INFER, Look::EVALUATE, Look::CLUSTER, Look::SUMMARY, Look::GETTERS, Look::EQUAL, Look::COPY, Look::SAVE, Look::MAPS, Look::DATA2D, Look::FILTERS})
                        : c.pick(vector<Look::Kind>{Look::SUMMARY, Look::GETTERS, Look::EQUAL, Look::COPY, Look::SAVE, Look::MAPS, Look::DATA2D})};
        if (l.kind == Look::INFER || l.kind == Look::CLUSTER)
        {
            l.in = c.chance(30) && !live.spec.trainIn.empty() ? c.pick(live.spec.trainIn) : genVector(c, live.net.nIn(), c.chance(10) ? 100 : 2);
            l.reset = c.chance(40);
        }
        l.n = (int)c.draw((uint32_t)live.spec.testIn.size());
        return l;
    }

    // a training step of any network with a dropout moves the random engine of the library
    bool drawsAtTraining(const Net& net) { return ranges::any_of(net.layers, [](auto& x) { return ranges::any_of(x.opts, [](auto& o) { return o.type == DROPOUT; }); }); }

    void look(const Look& l, const Live& live, StraightforwardNeuralNetwork& nn, snn::Data& data, const string& dir)
    {
        switch (l.kind)
        {
        case Look::INFER: (void)nn.computeOutput(l.in, l.reset); break;
        case Look::CLUSTER: (void)nn.computeCluster(l.in, l.reset); break;
        case Look::EVALUATE: nn.evaluate(data); break;
        case Look::SUMMARY: (void)nn.summary(); break;
        case Look::GETTERS: (void)observe(live.net, nn); break;
        case Look::EQUAL: { const bool same = nn == nn; (void)same; break; }
        case Look::COPY: { StraightforwardNeuralNetwork copy(nn); (void)copy.computeOutput(vector<float>((size_t)live.net.nIn(), 0.5f)); if (!drawsAtTraining(live.net)) copy.trainOnce(vector<float>((size_t)live.net.nIn(), 0.5f), vector<float>((size_t)live.net.nOut(), 0.25f)); break; }
        case Look::SAVE: nn.saveAs(dir + "/n.snn"); break;
        case Look::MAPS: nn.saveFeatureMapsAsBitmap(dir + "/m"); break;
        case Look::DATA2D: if (live.net.input.size() == 3) nn.saveData2DAsBitmap(dir + "/d", data, l.n); break;
        case Look::FILTERS: nn.saveFilterLayersAsBitmap(dir + "/f", data, l.n); break;
        }
    }

    vector<float> weights(const Live& live, StraightforwardNeuralNetwork& nn)
    {
        vector<float> r;
        for (auto& l : readWeights(nn, live.net))
            for (auto& n : l) r.insert(r.end(), n.begin(), n.end());
        return r;
    }

    // what is known of a network but for the statistics of its last evaluation
    vector<float> knowledge(const Live& live, StraightforwardNeuralNetwork& nn)
    {
        vector<float> r;
        for (double x : {(double)nn.getNumberOfTraining(), (double)nn.getCurrentEpoch(), (double)nn.getNumberOfTrainingsBetweenTwoEvaluations(), (double)nn.getNumberOfLayers(),
                         (double)nn.getNumberOfInputs(), (double)nn.getNumberOfOutputs(), (double)nn.getNumberOfNeurons(), (double)nn.getNumberOfParameters(),
                         (double)nn.isTraining(), (double)nn.isValid(), (double)nn.autoSaveWhenBetter})
            r.push_back((float)x);
        if (auto* sgd = dynamic_cast<snn::internal::StochasticGradientDescent*>(nn.optimizer.get())) { r.push_back(sgd->learningRate); r.push_back(sgd->momentum); }
        const auto w = weights(live, nn);
        r.insert(r.end(), w.begin(), w.end());
        return r;
    }

    bool huge(const vector<float>& v) { return ranges::any_of(v, [](float x) { return !(fabs((double)x) < 1e6); }); }

    LiveGen generator(pbt::Case& c, bool temporal)
    {
        LiveGen g;
        if (!temporal) g.net.kinds = {FC, CONV, LC, POOL};
        if (c.chance(60)) g.net.opts = {DROPOUT, L1, L2, MULT, SOFTMAX};
        g.maxPast = 4;
        if (c.chance(40)) { g.net.in2D = true; g.net.maxInputs = 36; }
        return g;
    }
}

PROPERTY(C19, interleaved, 5000, 150000, "at least one training follows at least two interleaved operations, one of which infers")
{
    // a history with and without operations that only look at the network
    Live live = genLive(c, generator(c, false));
    const string dir = c.scratch();
    auto next = genOps(c, live.net, live.spec, c.ranged(1, 7), {Op::TRAIN_ONCE, Op::INFER, Op::TRAIN, Op::CLUSTER, Op::RATE, Op::SHUFFLE});
    Op last{Op::INFER};
    last.in = genVector(c, live.net.nIn(), 1);
    next.push_back(last);
    vector<vector<Look>> looks(next.size());
    string t;
    int count = 0, effective = 0;
    bool infers = false;
    for (size_t i = 0; i < next.size(); ++i)
    {
        for (int k = c.ranged(0, 3); k > 0; --k)
        {
            looks[i].push_back(genLook(c, live, true));
            t += "[" + looks[i].back().text() + "] ";
            ++count;
            infers |= looks[i].back().infers();
            c.label(looks[i].back().infers() ? "inference" : "export");
        }
        t += next[i].text() + "; ";
        if (count >= 2 && infers && (next[i].kind == Op::TRAIN || next[i].kind == Op::TRAIN_ONCE)) ++effective;
    }
    c.text(t);
    auto run = [&](bool interleave)
    {
        return pbt::inFork([&]
        {
            vector<float> log;
            for (size_t i = 0; i < next.size(); ++i)
            {
                if (interleave) for (auto& l : looks[i]) look(l, live, *live.nn, *live.data, dir);
                apply(next[i], live.net, *live.nn, *live.data, log);
                const auto k = knowledge(live, *live.nn);
                log.insert(log.end(), k.begin(), k.end());
            }
            return log;
        });
    };
    const auto expected = run(false);
    if (huge(expected)) c.discard();
    const auto d = differs(expected, run(true));
    c.check(d.empty(), "operations that only look at the network change its history: " + d);
    if (effective) c.nontrivial();
}

PROPERTY(C19, looks, 6000, 200000, "at least three operations, or two of which one infers, on a network that was trained before")
{
    // after every single operation the network knows the same
    Live live = genLive(c, generator(c, true));
    auto& nn = *live.nn;
    const string dir = c.scratch();
    const int count = c.ranged(1, 8);
    const auto known = knowledge(live, nn);
    const string path = nn.autoSaveFilePath;
    nn.autoSaveWhenBetter = false;
    string t;
    bool infers = false, trained = false;
    for (int i = 0; i < count; ++i)
    {
        const auto l = genLook(c, live, true);
        t += l.text() + "; ";
        c.label(l.infers() ? "inference" : "export");
        infers |= l.infers();
        look(l, live, nn, *live.data, dir);
        if (nn.hasNan()) { c.label("not finite"); c.discard(); }
        c.check(same(known, knowledge(live, nn)), l.text() + " changes the network: " + differs(known, knowledge(live, nn)) + " after " + t);
        c.check(nn.autoSaveFilePath == (l.kind == Look::SAVE ? dir + "/n.snn" : nn.autoSaveFilePath), "the path of the automatic save is " + nn.autoSaveFilePath);
        c.check(!nn.isTraining(), "the network is training after " + l.text());
    }
    c.text(t);
    for (auto& o : live.past) trained |= o.kind == Op::TRAIN || o.kind == Op::TRAIN_ONCE;
    if (trained && (count >= 3 || (count == 2 && infers))) c.nontrivial();
}

PROPERTY(C19, exports, 3000, 100000, "what follows continues a sequence or trains")
{
    // operations without inference keep also the temporal state of recurrent networks
    Live live = genLive(c, generator(c, true));
    const string dir = c.scratch();
    const auto next = genOps(c, live.net, live.spec, c.ranged(1, 5), {Op::TRAIN_ONCE, Op::INFER, Op::CLUSTER, Op::TRAIN});
    vector<Look> looks;
    string t;
    for (int k = c.range(1, 4); k > 0; --k) { looks.push_back(genLook(c, live, false)); t += looks.back().text() + "; "; }
    c.text(t + "then " + m::text(next));
    auto run = [&](bool interleave)
    {
        return pbt::inFork([&]
        {
            vector<float> log;
            if (interleave) for (auto& l : looks) look(l, live, *live.nn, *live.data, dir);
            for (auto& op : next)
            {
                apply(op, live.net, *live.nn, *live.data, log);
                const auto k = knowledge(live, *live.nn);
                log.insert(log.end(), k.begin(), k.end());
            }
            return log;
        });
    };
    const auto expected = run(false);
    if (huge(expected)) c.discard();
    const auto d = differs(expected, run(true));
    c.check(d.empty(), "an export changes what the network does: " + d);
    for (auto& o : next)
        if (o.kind == Op::TRAIN || o.kind == Op::TRAIN_ONCE || !o.reset) c.nontrivial();
}

PROPERTY(C19, twice, 4000, 120000, "a used network and at least one other operation between")
{
    // the same input gives the same output, whatever was inferred between
    Live live = genLive(c, generator(c, false));
    auto& nn = *live.nn;
    const string dir = c.scratch();
    const auto in = genVector(c, live.net.nIn(), c.chance(10) ? 50 : 2);
    const auto original = in;
    const auto first = nn.computeOutput(in, c.chance(40));
    const int cluster = nn.computeCluster(in, c.chance(40));
    const int count = c.ranged(0, 6);
    string t;
    for (int i = 0; i < count; ++i)
    {
        const auto l = genLook(c, live, true);
        t += l.text() + "; ";
        look(l, live, nn, *live.data, dir);
    }
    if (nn.hasNan()) c.discard();
    c.text("between: " + t);
    const auto second = nn.computeOutput(in, c.chance(40));
    c.check(same(first, second), "the second output is " + pbt::str(second) + " instead of " + pbt::str(first));
    c.check(nn.computeCluster(in, c.chance(40)) == cluster, "the second cluster is different");
    c.check(same(in, original), "the inputs are changed");
    if (count && !live.past.empty()) c.nontrivial();
}

PROPERTY(C19, dataKept, 3000, 100000, "the network is trained with the data and evaluated")
{
    // what is given is not changed
    auto g = generator(c, true);
    g.maxPast = 1;
    Live live = genLive(c, g);
    auto& nn = *live.nn;
    const string dir = c.scratch();
    auto content = [&](bool testing)
    {
        vector<vector<float>> r;
        auto& d = *live.data;
        const int size = testing ? d.sets[snn::testing].size : d.sets[snn::training].size;
        for (int i = 0; i < size; ++i)
        {
            auto row = testing ? d.getTestingData(i) : d.getTrainingData(i);
            row.push_back(1e30f);
            const bool labels = live.spec.problem == snn::problem::classification;
            if (!testing || !labels)
            {
                const auto& out = testing ? d.getTestingOutputs(i) : d.getTrainingOutputs(i);
                row.insert(row.end(), out.begin(), out.end());
            }
            if (labels) row.push_back((float)(testing ? d.getTestingLabel(i) : d.getTrainingLabel(i)));
            // the marks of a testing set do not move
            if (testing && live.spec.nature != snn::nature::nonTemporal) row.push_back((float)(d.isFirstTestingDataOfTemporalSequence(i) * 2 + d.needToEvaluateOnTestingData(i)));
            r.push_back(row);
        }
        return r;
    };
    auto trainingContent = [&]
    {
        auto r = content(false);
        ranges::sort(r);
        return r;
    };
    const bool series = live.spec.nature == snn::nature::timeSeries;
    const auto train = trainingContent(); // a shuffle may choose other blocks of a time series
    const auto test = content(true);
    if (live.spec.shared && series) c.discard();
    bool trained = false, evaluated = false;
    string t;
    for (int i = c.ranged(1, 6); i > 0; --i)
    {
        string what;
        if (c.chance(50))
        {
            const auto op = genOp(c, live.net, live.spec, {Op::TRAIN, Op::TRAIN_ONCE, Op::INFER, Op::CLUSTER});
            const auto before = op;
            vector<float> log;
            apply(op, live.net, nn, *live.data, log);
            what = op.text();
            c.check(same(op.in, before.in), what + ": the inputs are changed");
            c.check(same(op.desired, before.desired), what + ": the desired outputs are changed");
            trained |= op.kind == Op::TRAIN;
            evaluated |= op.kind == Op::TRAIN && op.frequency > 0;
        }
        else
        {
            const auto l = genLook(c, live, true);
            const auto before = l.in;
            look(l, live, nn, *live.data, dir);
            what = l.text();
            c.check(same(l.in, before), what + ": the inputs are changed");
            evaluated |= l.kind == Look::EVALUATE;
        }
        if (nn.hasNan()) c.discard();
        t += what + "; ";
        c.check(!live.spec.shared ? content(true) == test : true, "the testing data are changed by " + t);
        if (!series) c.check(trainingContent() == train, "the training data are changed by " + t);
        else
            for (int k = 0; k < live.data->sets[snn::training].size; ++k)
            {
                const auto& in = live.data->getTrainingData(k);
                const auto& out = live.data->getTrainingOutputs(k);
                bool given = false;
                for (size_t r = 0; r < live.spec.trainIn.size() && !given; ++r) given = same(in, live.spec.trainIn[r]) && same(out, live.spec.trainOut[r]);
                c.check(given, "the training data are changed by " + t);
            }
    }
    c.text(t);
    if (trained && evaluated) c.nontrivial();
}
