// C05 Recurrent and GRU layers learn along the error of the current step
#include "model.hpp"
using namespace m;
using namespace std;

static void history(pbt::Case& c, const Net& net, int maxSteps)
{
    c.text(net.text());
    auto nn = net.build();
    if (c.chance(75)) writeWeights(*nn, net, genWeights(c, net, c.pick(vector<double>{1, 0.4})));
    Variants v(net, relevant(net, true), true);
    auto weights = readWeights(*nn, net);
    c.text("weights " + m::str(weights));
    const int steps = c.ranged(1, maxSteps, 40);
    int trained = 0, others = 0;
    for (int i = 0; i < steps; ++i)
    {
        reincarnate(c, nn, 12);
        const bool reset = c.chance(i == 0 ? 50 : 20);
        const auto in = genVector(c, net.nIn(), 1);
        const int kind = c.weighted({6, 3, 1});
        if (kind == 2)
        {
            const float lr = 0.3f * (float)c.range(1, 32) / 32.0f, momentum = (float)c.range(0, 8) / 8.0f;
            c.text(pbt::cat("rate ", lr, " momentum ", momentum));
            setRate(*nn, lr, momentum);
            for (auto& s : v.sims) { s.lr = lr; s.momentum = momentum; }
            continue;
        }
        if (kind == 0)
        {
            const auto desired = genVector(c, net.nOut(), 1);
            c.text(pbt::cat("train ", reset ? "reset " : "", pbt::str(in, 6), " -> ", pbt::str(desired, 6)));
            nn->trainOnce(in, desired, reset);
            const auto after = readWeights(*nn, net);
            v.each([&](Sim& s)
            {
                s.setWeights(weights);
                s.train(in, desired, reset);
                if (s.ambiguous) return string();
                const auto d = s.compare(after, &weights);
                return d.empty() ? d : pbt::cat("step ", i, ": ", d);
            });
            if (v.ambiguous()) { c.label("not differentiable there"); break; }
            weights = after;
            if (++trained >= 2 && others > 0) c.nontrivial();
        }
        else
        {
            c.text(pbt::cat("infer ", reset ? "reset " : "", pbt::str(in, 6)));
            const auto out = nn->computeOutput(in, reset);
            c.check(readWeights(*nn, net) == weights, pbt::cat("step ", i, ": an inference changed a weight"));
            v.each([&](Sim& s)
            {
                s.setWeights(weights);
                const auto d = compare(out, s.forward(in, reset, false));
                return d.empty() ? d : pbt::cat("step ", i, ": ", d);
            });
            ++others;
        }
        v.stopIfDead(c);
        if (v.fuzzy()) { c.label("error bound too big"); break; }
    }
    c.label(net.has(GRU) ? net.has(REC) ? "GRU and recurrence" : "GRU" : "recurrence");
    if (!net.layers[0].neurons || (net.layers[0].kind != REC && net.layers[0].kind != GRU)) c.label("other layer first");
    v.finish(c);
}

PROPERTY(C05, history, 5000, 200000, "at least two training steps and a step that is only inferred")
{
    stir(c);
    Gen g;
    g.kinds = c.chance(70) ? vector<Kind>{REC, GRU, FC} : vector<Kind>{REC, GRU, FC, CONV, LC, POOL};
    g.maxLayers = 4;
    g.maxInputs = 12;
    g.maxNeurons = 4;
    g.momentum = true;
    g.lrMax = 0.3f;
    g.noLc1dBug = true;
    Net net = genNet(c, g);
    if (!net.temporal())
    {
        net.layers.push_back({c.chance(50) ? GRU : REC, c.range(1, 4), 0, c.pick(g.acts)});
        net.finalize();
    }
    history(c, net, 9);
}

PROPERTY(C05, beforeRecurrence, 3000, 120000, "at least two training steps and a step that is only inferred")
{
    // the error that reaches the layers before and comes from the layers after a recurrent layer
    stir(c);
    Gen g;
    g.maxLayers = 2;
    g.maxInputs = 10;
    g.maxNeurons = 4;
    g.momentum = true;
    g.lrMax = 0.3f;
    g.noLc1dBug = true;
    g.acts = {activation::sigmoid, activation::tanh, activation::identity, activation::GELU};
    Net net = genNet(c, g);
    net.layers.push_back({c.chance(50) ? GRU : REC, c.range(1, 4), 0, c.pick(g.acts)});
    if (c.chance(60)) net.layers.push_back({FC, c.range(1, 3), 0, c.pick(g.acts)});
    net.finalize();
    history(c, net, 6);
}
