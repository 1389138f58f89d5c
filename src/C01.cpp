// C01 Feed-forward inference computes the function the architecture describes
#include "model.hpp"
using namespace m;
using namespace std;

PROPERTY(C01, forward, 9000, 400000, "the network has a filter layer or at least two layers, and some output depends on the input")
{
    stir(c);
    Gen g;
    g.maxLayers = 5;
    g.needParameters = false;
    const Net net = genNet(c, g);
    c.text(net.text());
    auto nn = net.build();
    Weights w;
    if (c.chance(80))
    {
        w = genWeights(c, net, c.pick(vector<double>{1, 0.3, 3, 8}));
        writeWeights(*nn, net, w);
    }
    w = readWeights(*nn, net);
    c.text("weights " + m::str(w));
    Sim sim(net, 0);
    sim.setWeights(w);
    const int count = c.range(1, 4);
    vector<float> first;
    for (int i = 0; i < count; ++i)
    {
        reincarnate(c, nn, 12);
        const auto in = genVector(c, net.nIn(), c.pick(vector<double>{1, 5, 0.1, 100}));
        c.text("inputs " + pbt::str(in));
        const auto given = in;
        const int clusterBefore = c.chance(50) ? nn->computeCluster(in, c.chance(50)) : -2;
        const auto out = nn->computeOutput(in, c.chance(50));
        const auto expected = sim.forward(in, false, false);
        c.check(same(in, given), "the inputs were modified");
        const auto d = compare(out, expected);
        c.check(d.empty(), "computeOutput: " + d);
        const int cluster = nn->computeCluster(in);
        if (!sim.overflow) c.check(cluster >= 0 && cluster < (int)out.size() && out[cluster] == *ranges::max_element(out), pbt::cat("cluster ", cluster, " for the outputs ", pbt::str(out)));
        if (clusterBefore != -2) c.check(clusterBefore == cluster, pbt::cat("cluster ", clusterBefore, " then ", cluster));
        if (i == 0) first = out;
        else if (!same(first, out) && (net.layers.size() > 1 || net.layers[0].kind != FC)) c.nontrivial();
        if (i == 0 && count == 1 && (net.layers.size() > 1 || net.layers[0].kind != FC)) c.nontrivial();
    }
    for (size_t i = 0; i < net.layers.size(); ++i)
    {
        static const char* names[] = {"FullyConnected", "Recurrence", "GruLayer", "Convolution", "LocallyConnected", "MaxPooling"};
        auto& l = net.layers[i];
        c.label(pbt::cat(names[l.kind], l.in.size() == 3 ? "2D" : l.in.size() == 2 ? "1D" : "", i ? "" : " first"));
        if (l.kind == LC || l.kind == POOL)
            if (l.in[1] % l.k || (l.in.size() == 3 && l.in[2] % l.k)) c.label("incomplete window");
        if (l.in.size() == 3 && l.in[1] != l.in[2]) c.label("not square");
        if (l.in.size() > 1 && l.in[0] > 1) c.label("several channels");
    }
}

PROPERTY(C01, large, 300, 6000, "more than 500 inputs, outputs or weights")
{
    stir(c);
    Net net;
    net.input = c.chance(50) ? vector<int>{c.range(1, 3), c.range(8, 28), c.range(8, 28)} : vector<int>{c.range(1, 3), c.range(60, 400)};
    const int count = c.range(1, 3);
    for (int i = 0; i < count; ++i)
    {
        const auto& shape = i ? net.layers.back().out : net.input;
        L l;
        l.kind = c.pick(vector<Kind>{FC, CONV, LC, POOL});
        l.act = (activation)c.draw(7);
        if (l.kind == FC) l.n = c.range(1, 60);
        else
        {
            l.n = c.range(1, 5);
            const int most = shape.size() == 1 ? shape[0] : shape.size() == 2 ? shape[1] : min(shape[1], shape[2]);
            l.k = c.range(1, min(most, 7));
        }
        net.layers.push_back(l);
        net.finalize();
    }
    c.text(net.text());
    auto nn = net.build();
    if (c.chance(70)) writeWeights(*nn, net, genWeights(c, net, 0.5));
    Sim sim(net, 0);
    sim.setWeights(readWeights(*nn, net));
    const auto in = genVector(c, net.nIn(), 1);
    const auto d = compare(nn->computeOutput(in), sim.forward(in, false, false));
    c.check(d.empty(), "computeOutput: " + d);
    if (net.nIn() > 500 || net.nOut() > 500 || net.parameters() > 500) c.nontrivial();
}

PROPERTY(C01, huge, 30, 600, "more than 32768 inputs or outputs")
{
    const Net net = genHuge(c, false);
    c.text(net.text());
    auto nn = net.build();
    // values of single weights are not chosen: a hidden seed makes all of them
    const auto w = genWeights(c, net, 0.5);
    writeWeights(*nn, net, w);
    Sim sim(net, 0);
    sim.setWeights(w);
    const auto in = genVector(c, net.nIn(), 1);
    const auto out = nn->computeOutput(in);
    const auto d = compare(out, sim.forward(in, false, false));
    c.check(d.empty(), "computeOutput: " + d);
    const int cluster = nn->computeCluster(in);
    c.check(cluster >= 0 && cluster < (int)out.size() && out[cluster] == *ranges::max_element(out), pbt::cat("cluster ", cluster));
    if (net.nIn() > 32768 || ranges::any_of(net.layers, [](auto& l) { return l.nOut > 32768; })) c.nontrivial();
    if (net.nIn() > 65536) c.label("more than 65536 inputs");
    if (net.layers[0].nOut > 65536) c.label("more than 65536 values in between");
    if (net.nOut() > 65536) c.label("more than 65536 outputs");
}

PROPERTY(C01, cluster, 3000, 100000, "at least two outputs")
{
    const int n = c.ranged(1, 12);
    auto nn = StraightforwardNeuralNetwork({snn::Input(n), snn::FullyConnected(n, activation::identity)});
    Net net{{n}, {L{FC, n, 0, activation::identity}}};
    net.finalize();
    Weights w(1, vector<vector<float>>(n, vector<float>(n + 1, 0.0f)));
    for (int i = 0; i < n; ++i) w[0][i][i] = 1;
    writeWeights(nn, net, w);
    const double scale = c.pick(vector<double>{1, 1e-30, 1e-5, 1e5, 1e30});
    const double shift = c.pick(vector<double>{0, -1, 1, -3});
    vector<float> in;
    for (int i = 0; i < n; ++i) in.push_back((float)(scale * (shift + (c.chance(30) ? 0 : c.real(1)))));
    c.text("outputs " + pbt::str(in));
    const auto out = nn.computeOutput(in);
    const int cluster = nn.computeCluster(in);
    c.check(cluster >= 0 && cluster < n && out[cluster] == *ranges::max_element(out), pbt::cat("cluster ", cluster, " for the outputs ", pbt::str(out)));
    if (n > 1) c.nontrivial();
    if (shift < -1) c.label("all very negative");
}
