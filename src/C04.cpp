// C04 Momentum accumulates past updates over any training history
#include "model.hpp"
using namespace m;
using namespace std;

PROPERTY(C04, history, 5000, 200000, "at least three training steps with a momentum")
{
    stir(c);
    Gen g;
    g.maxLayers = 4;
    g.maxInputs = 30;
    g.momentum = true;
    g.lrMax = 0.3f;
    g.noLc1dBug = true;
    const Net net = genNet(c, g);
    c.text(net.text());
    auto nn = net.build();
    if (c.chance(85)) writeWeights(*nn, net, genWeights(c, net, c.pick(vector<double>{1, 0.4})));
    Variants v(net, 0, true);
    auto weights = readWeights(*nn, net);
    const int steps = c.ranged(2, 10, 60);
    int trained = 0;
    bool withMomentum = net.momentum > 0;
    vector<float> lastIn, lastDesired;
    for (int i = 0; i < steps; ++i)
    {
        reincarnate(c, nn, 12);
        switch (c.weighted({7, 2, 1, 1}))
        {
        case 0:
        {
            const bool again = !lastIn.empty() && c.chance(30);
            const auto in = again ? lastIn : genVector(c, net.nIn(), 1), desired = again ? lastDesired : genVector(c, net.nOut(), 1);
            lastIn = in;
            lastDesired = desired;
            c.text(pbt::cat("train ", pbt::str(in, 6), " -> ", pbt::str(desired, 6)));
            nn->trainOnce(in, desired, c.chance(70));
            const auto after = readWeights(*nn, net);
            v.each([&](Sim& s)
            {
                s.setWeights(weights);
                s.train(in, desired, true);
                return s.ambiguous ? string() : s.compare(after, &weights);
            });
            if (v.ambiguous()) { c.label("not differentiable there"); i = steps; break; }
            v.stopIfDead(c);
            if (v.fuzzy()) { c.label("error bound too big"); i = steps; break; }
            weights = after;
            if (withMomentum && ++trained >= 3) c.nontrivial();
            break;
        }
        case 1:
            c.text("inference");
            (void)nn->computeOutput(genVector(c, net.nIn(), 3), c.chance(50));
            c.check(readWeights(*nn, net) == weights, "an inference changed a weight");
            c.label("inference between");
            break;
        case 2:
        {
            const float lr = 0.3f * (float)c.range(1, 32) / 32.0f, momentum = (float)c.range(0, 8) / 8.0f;
            c.text(pbt::cat("rate ", lr, " momentum ", momentum));
            setRate(*nn, lr, momentum);
            for (auto& s : v.sims) { s.lr = lr; s.momentum = momentum; }
            withMomentum = momentum > 0;
            c.check(readWeights(*nn, net) == weights, "changing the rate changed a weight");
            c.label("rate changed");
            break;
        }
        case 3: // setting weights by hand is not an update
            if (trained > 0)
            {
                auto w = genWeights(c, net, 0.7);
                writeWeights(*nn, net, w);
                weights = readWeights(*nn, net);
                c.text("weights set");
                c.label("weights set");
            }
            break;
        }
    }
    for (auto& l : net.layers)
        if (l.kind == CONV && l.positions > 1) c.label("convolution with several positions");
    v.finish(c);
}
