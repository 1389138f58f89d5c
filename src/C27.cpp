// C27 A network learns every problem that a network of its architecture solves
#include "model.hpp"
#include <numeric>
#include <random>
#include <ranges>
using namespace m;
using namespace std;

namespace
{
    double meanError(const vector<vector<float>>& outputs, const snn::vector2D<float>& desired)
    {
        double sum = 0;
        for (size_t i = 0; i < outputs.size(); ++i)
            for (size_t o = 0; o < outputs[i].size(); ++o) sum += fabs((double)outputs[i][o] - desired[i][o]);
        return sum / outputs.size();
    }

    template <class F> vector<vector<float>> all(const snn::vector2D<float>& in, F f)
    {
        vector<vector<float>> r;
        for (auto& i : in) r.push_back(f(i));
        return r;
    }
}

PROPERTY(C27, teacher, 600, 20000, "the training divides the error by more than 4")
{
    // A linear layer learns the function of another one with other weights: a convex problem with an exact solution.
    stir(c);
    Gen g;
    g.kinds = {FC, CONV, LC};
    g.acts = {activation::identity};
    g.maxLayers = 1;
    g.maxInputs = 10;
    g.maxNeurons = 3;
    g.big = false;
    Net net = genNet(c, g);
    const auto& l = net.layers[0];
    auto teacher = net.build();
    writeWeights(*teacher, net, genWeights(c, net, 1));
    auto student = net.build();
    writeWeights(*student, net, genWeights(c, net, 1));
    const int size = c.range(4, 30), epochs = c.range(5, 40);
    DataSpec d;
    d.problem = snn::problem::regression;
    d.nature = c.pick(vector<snn::nature>{snn::nature::nonTemporal, snn::nature::nonTemporal, snn::nature::sequential});
    double norm = 1;
    for (int i = 0; i < size; ++i)
    {
        d.trainIn.push_back(genVector(c, net.nIn(), 1));
        d.trainOut.push_back(teacher->computeOutput(d.trainIn.back()));
        norm = max(norm, 1 + inner_product(d.trainIn.back().begin(), d.trainIn.back().end(), d.trainIn.back().begin(), 0.0));
    }
    d.shared = true;
    d.testIn = d.trainIn;
    d.testOut = d.trainOut;
    int batch = 1;
    if (d.nature == snn::nature::sequential)
        for (int left = size; left > 0;) { d.trainSeq.push_back(c.range(1, left)); left -= d.trainSeq.back(); }
    else batch = c.pick(vector<int>{1, 1, 1, 2, 3});
    d.testSeq = d.trainSeq;
    const bool everyone = d.nature == snn::nature::nonTemporal; // else only the last data of the sequences are evaluated
    const float momentum = c.pick(vector<float>{0, 0, 0.25f, 0.5f});
    const float lr = (float)c.range(2, 8) / 10 / 2 / (float)norm / (float)l.positions * (1 - momentum) * (1 - momentum);
    setRate(*student, lr, momentum);
    c.text(pbt::cat(net.text(), "rate ", lr, " momentum ", momentum, " ", epochs, " epochs of ", size, " data, batch ", batch));
    c.text(d.text());
    Sim start(net, 0);
    start.setWeights(readWeights(*student, net));
    start.lr = lr;
    start.momentum = momentum;
    auto data = d.build();
    const double before = meanError(all(d.trainIn, [&](auto& i) { return student->computeOutput(i); }), d.trainOut);
    student->train(*data, snn::operator""_ep((unsigned long long)epochs), batch, 1);
    const double after = meanError(all(d.trainIn, [&](auto& i) { return student->computeOutput(i); }), d.trainOut);
    // the same training by the model, in other orders
    double reference = 0;
    mt19937 random(c.range(0, 1000));
    for (int k = 0; k < 4; ++k)
    {
        Sim sim = start;
        vector<int> order(size);
        iota(order.begin(), order.end(), 0);
        for (int e = 0; e < epochs; ++e)
        {
            shuffle(order.begin(), order.end(), random);
            for (int i = 0; i + batch <= size; i += batch)
            {
                vector<float> in(net.nIn()), out(net.nOut());
                for (int b = 0; b < batch; ++b)
                {
                    for (size_t j = 0; j < in.size(); ++j) in[j] += d.trainIn[order[i + b]][j] / (float)batch;
                    for (size_t j = 0; j < out.size(); ++j) out[j] += d.trainOut[order[i + b]][j] / (float)batch;
                }
                sim.train(in, out, true);
            }
        }
        reference = max(reference, meanError(all(d.trainIn, [&](auto& i) { return values(sim.forward(i, true, false)); }), d.trainOut));
    }
    c.check(after <= 2 * reference + 0.02 * before + 1e-4, pbt::cat("the error goes from ", before, " to ", after, " instead of about ", reference));
    if (everyone)
    {
        c.check(fabs(student->getMeanAbsoluteError() - after) <= 1e-3 * after + 1e-5, pbt::cat("the mean absolute error is ", student->getMeanAbsoluteError(), " instead of ", after));
        c.check(student->getMeanAbsoluteErrorMin() <= student->getMeanAbsoluteError(), "the least error");
    }
    if (after * 4 < before) c.nontrivial();
    c.label(pbt::cat("error divided by ", after * 100 < before ? "100" : after * 10 < before ? "10" : after * 2 < before ? "2" : "less"));
}

PROPERTY(C27, classes, 400, 10000, "the classes were not told apart before the training")
{
    // Well separated classes are told apart, and the training stops when all data are well classified.
    stir(c);
    Net net;
    const int classes = c.range(2, 6);
    const bool hidden = c.chance(50), multiple = c.chance(40);
    net.input = {c.range(classes, classes + 6)};
    if (hidden) { L h{FC}; h.n = c.range(classes, classes + 6); h.act = c.pick(vector<activation>{activation::tanh, activation::sigmoid, activation::identity}); net.layers.push_back(h); }
    L out{FC};
    out.n = classes;
    out.act = activation::identity; // a sigmoid may stay on its flat parts
    net.layers.push_back(out);
    net.lr = 0.03f;
    if (!net.finalize()) c.discard();
    auto nn = net.build();
    DataSpec d;
    d.problem = multiple ? snn::problem::multipleClassification : snn::problem::classification;
    d.nature = snn::nature::nonTemporal;
    d.shared = true;
    for (int i = c.range(classes, 30); i > 0; --i)
    {
        const int k = c.range(0, classes - 1);
        vector<float> in = genVector(c, net.nIn(), 0.1), desired(classes);
        in[k] += 1;
        desired[k] = 1;
        d.trainIn.push_back(in);
        d.trainOut.push_back(desired);
    }
    d.testIn = d.trainIn;
    d.testOut = d.trainOut;
    c.text(net.text());
    c.text(d.text());
    auto data = d.build();
    nn->evaluate(*data);
    if (nn->getGlobalClusteringRate() < 1) c.nontrivial();
    const int limit = 6000;
    nn->train(*data, snn::operator""_acc(1.0l) || snn::operator""_ep((unsigned long long)limit), 1, 1);
    c.check(nn->getGlobalClusteringRate() == 1 && nn->getCurrentEpoch() <= limit, pbt::cat("classes that are well separated are not learned in ", limit, " epochs: ", statsText(*nn)));
    for (size_t i = 0; i < d.trainIn.size(); ++i)
    {
        const int expected = (int)(ranges::max_element(d.trainOut[i]) - d.trainOut[i].begin());
        if (!multiple) c.check(nn->computeCluster(d.trainIn[i]) == expected, "the network reports an accuracy of 1, and a data is in another class");
        else
            for (auto v = nn->computeOutput(d.trainIn[i]); int o : views::iota(0, classes))
                c.check((v[o] > 0.5f) == (o == expected), "the network reports an accuracy of 1, and an output is on the wrong side");
    }
}
