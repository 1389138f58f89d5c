// C02 Recurrent and GRU inference follows the sequence since the last reset
#include "model.hpp"
using namespace m;
using namespace std;

PROPERTY(C02, sequence, 6000, 250000, "at least one recurrent neuron or GRU, three steps, and a reset after the first step")
{
    stir(c);
    Gen g;
    g.kinds = c.chance(70) ? vector<Kind>{REC, GRU, FC} : vector<Kind>{REC, GRU, FC, CONV, LC, POOL};
    g.maxLayers = 4;
    g.maxInputs = 16;
    Net net = genNet(c, g);
    if (!net.temporal())
    {
        net.layers.push_back({c.chance(50) ? GRU : REC, c.range(1, 4), 0, c.pick(g.acts)});
        net.finalize();
    }
    c.text(net.text());
    auto nn = net.build();
    if (c.chance(75)) writeWeights(*nn, net, genWeights(c, net, c.pick(vector<double>{1, 0.4, 2})));
    if (c.chance(30)) // any state reached by a training may be the starting point of a sequence
    {
        setRate(*nn, 0.2f, 0.0f);
        for (int i = c.range(1, 3); i > 0; --i) nn->trainOnce(genVector(c, net.nIn(), 1), genVector(c, net.nOut(), 1), i > 1 || c.chance(50));
        c.label("after training");
        // the state is then only known after a real reset: start from a network that has no past
        const auto w = readWeights(*nn, net);
        auto fresh = net.build();
        if (!net.has(GRU)) { writeWeights(*fresh, net, w); nn = move(fresh); }
        else c.discard();
    }
    const auto w = readWeights(*nn, net);
    c.text("weights " + m::str(w));
    for (auto& l : w) for (auto& n : l) for (float x : n) if (!(fabs(x) < 1e6f)) c.discard(); // the training diverged
    StraightforwardNeuralNetwork twin(*nn);
    Variants v(net, relevant(net, false), false);
    for (auto& s : v.sims) s.setWeights(w);
    const int steps = c.ranged(1, 14, 120);
    int resets = 0;
    for (int i = 0; i < steps; ++i)
    {
        reincarnate(c, nn, 12);
        const bool reset = c.chance(i == 0 ? 60 : 25);
        if (i > 0 && reset) ++resets;
        const auto in = c.chance(15) ? vector<float>(net.nIn(), 0.0f) : genVector(c, net.nIn(), c.pick(vector<double>{1, 3}));
        c.text(pbt::cat(reset ? "reset " : "", pbt::str(in, 8)));
        vector<float> out;
        const bool cluster = c.chance(15);
        if (cluster) // also a step of the sequence
        {
            const int n = nn->computeCluster(in, reset);
            out = twin.computeOutput(in, reset);
            if (ranges::all_of(out, [](float x) { return isfinite(x); })) c.check(n >= 0 && n < (int)out.size() && out[n] == *ranges::max_element(out), pbt::cat("cluster ", n, " for the outputs ", pbt::str(out)));
        }
        else
        {
            out = nn->computeOutput(in, reset);
            c.check(same(out, twin.computeOutput(in, reset)), pbt::cat("step ", i, ": a network with the same parameters and the same sequence gives other outputs"));
        }
        v.each([&](Sim& s)
        {
            const auto d = compare(out, s.forward(in, reset, false));
            return d.empty() ? d : pbt::cat("step ", i, ": ", d);
        });
        v.stopIfDead(c);
        if (v.fuzzy()) { c.label("error bound too big"); break; }
    }
    if (steps >= 3 && resets > 0) c.nontrivial();
    c.label(net.has(GRU) ? net.has(REC) ? "GRU and recurrence" : "GRU" : "recurrence");
    v.finish(c);
}

PROPERTY(C02, withoutReset, 3000, 100000, "at least three steps from the first reset of a new network")
{
    // here the known finding on resets cannot hide anything: the network has no past
    stir(c);
    Gen g;
    g.kinds = {REC, FC};
    g.maxLayers = 3;
    g.maxInputs = 12;
    Net net = genNet(c, g);
    net.layers.push_back({REC, c.range(1, 5), 0, c.pick(g.acts)});
    net.finalize();
    c.text(net.text());
    auto nn = net.build();
    writeWeights(*nn, net, genWeights(c, net, c.pick(vector<double>{1, 0.4, 2})));
    Sim s(net, 0);
    s.setWeights(readWeights(*nn, net));
    const int steps = c.ranged(1, 20, 120);
    bool reset = c.chance(80);
    for (int i = 0; i < steps; ++i)
    {
        reincarnate(c, nn, 12);
        const auto in = genVector(c, net.nIn(), 1);
        const auto out = nn->computeOutput(in, reset);
        const auto d = compare(out, s.forward(in, reset, false));
        c.check(d.empty(), pbt::cat("step ", i, ": ", d));
        if (s.fuzzy()) { c.label("error bound too big"); break; }
        reset = false;
        if (i >= 2) c.nontrivial();
    }
}
