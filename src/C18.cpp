// C18 Regularization and error multipliers change learning exactly as configured
#include "model.hpp"
using namespace m;
using namespace std;

namespace
{
    Gen generator(pbt::Case& c)
    {
        Gen g;
        g.kinds = c.chance(65) ? vector<Kind>{FC, CONV, LC, POOL} : vector<Kind>{FC, REC, GRU, CONV};
        g.maxInputs = 16;
        g.maxNeurons = 5;
        g.maxLayers = 4;
        g.momentum = true;
        g.lrMax = 0.2f;
        g.noLc1dBug = true;
        g.opts = {L1, L2, MULT};
        return g;
    }
    bool configured(const Net& net)
    {
        for (auto& l : net.layers)
            for (auto& o : l.opts) if ((o.type == MULT && o.value != 1) || ((o.type == L1 || o.type == L2) && o.value != 0)) return true;
        return false;
    }
    string firstDifference(const Weights& a, const Weights& b, size_t from)
    {
        for (size_t l = from; l < a.size(); ++l)
            for (size_t n = 0; n < a[l].size(); ++n)
                for (size_t i = 0; i < a[l][n].size(); ++i)
                    if (!(fabs(a[l][n][i] - b[l][n][i]) <= 2e-6f * max(1.0f, fabs(b[l][n][i]))))
                        return pbt::cat("layer ", l, " neuron ", n, " weight ", i, ": ", a[l][n][i], " and ", b[l][n][i]);
        return "";
    }
    void addOption(pbt::Case& c, L& l, Opt o)
    {
        l.opts.insert(l.opts.begin() + (int)c.draw((uint32_t)l.opts.size() + 1), o);
    }
}

PROPERTY(C18, learning, 8000, 300000, "two training steps of a network with a multiplier that is not 1 or a coefficient that is not 0")
{
    stir(c);
    Net net = genNet(c, generator(c));
    if (!configured(net)) addOption(c, net.layers[c.draw((uint32_t)net.layers.size())], c.chance(50) ? Opt{MULT, (float)c.range(-12, 20) / 8.0f} : Opt{c.chance(50) ? L1 : L2, (float)c.range(1, 40) / 200.0f});
    for (auto& l : net.layers) if (l.kind == POOL) l.opts.clear();
    c.text(net.text());
    auto nn = net.build();
    if (c.chance(75)) writeWeights(*nn, net, genWeights(c, net, c.pick(vector<double>{1, 0.4})));
    Variants v(net, relevant(net, true), true);
    v.report = false;
    auto weights = readWeights(*nn, net);
    c.text("weights " + m::str(weights));
    const int steps = c.ranged(1, 5, 30);
    int trained = 0;
    for (int i = 0; i < steps; ++i)
    {
        reincarnate(c, nn, 12);
        const auto in = genVector(c, net.nIn(), 1), desired = genVector(c, net.nOut(), 1);
        const bool reset = i == 0 || c.chance(40);
        if (c.chance(25)) // an inference
        {
            const auto out = nn->computeOutput(in, reset);
            v.each([&](Sim& s)
            {
                s.setWeights(weights);
                const auto d = compare(out, s.forward(in, reset, false));
                return d.empty() ? d : pbt::cat("step ", i, ": ", d);
            });
            v.stopIfDead(c);
            continue;
        }
        c.text(pbt::cat("train ", pbt::str(in, 6), " -> ", pbt::str(desired, 6)));
        nn->trainOnce(in, desired, reset);
        const auto after = readWeights(*nn, net);
        v.each([&](Sim& s)
        {
            s.setWeights(weights);
            s.train(in, desired, reset);
            if (s.ambiguous) return string();
            const auto d = s.compare(after, &weights);
            return d.empty() ? d : pbt::cat("step ", i, ": ", d);
        });
        if (v.ambiguous()) { c.label("not differentiable there"); break; }
        weights = after;
        v.stopIfDead(c);
        if (v.fuzzy()) { c.label("error bound or weights too big"); break; }
        if (++trained >= 2 && configured(net)) c.nontrivial();
    }
    for (auto& l : net.layers) if (l.opts.size() > 1) c.label("several in a layer");
    if (net.temporal()) c.label("recurrent");
    v.finish(c);
}

PROPERTY(C18, neutral, 4000, 150000, "a training step of a network with neutral optimizers")
{
    // coefficients of 0, multipliers of 1 and dropout of 0 change nothing
    LiveGen g;
    g.net = generator(c);
    g.net.noLc1dBug = false;
    g.net.opts = {L1, L2, MULT, SOFTMAX};
    g.maxPast = 0;
    g.ops = {Op::TRAIN_ONCE, Op::INFER, Op::EVALUATE, Op::CLUSTER, Op::RATE, Op::TRAIN_ONCE};
    Live live = genLive(c, g);
    if (live.net.has(GRU)) // needs the same random parameters
        for (auto& l : live.net.layers) if (l.kind == GRU) l.kind = REC;
    live.net.finalize();
    live.nn = live.net.build();
    Net with = live.net;
    int added = 0;
    for (auto& l : with.layers)
        for (int k = l.kind == POOL ? 0 : c.range(0, 2); k > 0; --k)
        {
            addOption(c, l, c.pick(vector<Opt>{{MULT, 1}, {L1, 0}, {L2, 0}, {DROPOUT, 0}}));
            ++added;
        }
    auto nn = with.build();
    const auto w = genWeights(c, with, 0.8);
    writeWeights(*live.nn, live.net, w);
    writeWeights(*nn, with, w);
    c.text(with.text());
    const auto ops = genOps(c, live.net, live.spec, c.ranged(1, 8), g.ops);
    c.text(m::text(ops));
    for (auto& op : ops)
    {
        const auto a = play({op}, live.net, *live.nn, *live.data), b = play({op}, with, *nn, *live.data);
        bool big = live.nn->hasNan(); // 0 times an infinite value
        for (auto& l : readWeights(*live.nn, live.net)) for (auto& n : l) for (auto x : n) if (!(fabs((double)x) < 1e6)) big = true;
        if (big) { c.label("big weights"); break; }
        const auto d = differs(a, b);
        c.check(d.empty(), "optimizers that have to change nothing change something: " + d);
    }
    if (added) for (auto& o : ops) if (o.kind == Op::TRAIN_ONCE) c.nontrivial();
}

PROPERTY(C18, inferenceUnchanged, 4000, 150000, "a multiplier that is not 1 or a coefficient that is not 0, in a network that was trained")
{
    // the network without these optimizers, with the same parameters, computes the same
    LiveGen g;
    g.net = generator(c);
    g.net.opts = {L1, L2, MULT, DROPOUT, SOFTMAX, L1, L2, MULT};
    g.ops = {Op::TRAIN_ONCE, Op::TRAIN_ONCE, Op::INFER, Op::EVALUATE, Op::RATE};
    Live live = genLive(c, g);
    for (auto& l : live.net.layers) if (l.kind == GRU) { c.label("GRU"); c.discard(); } // parameters cannot be copied
    Net plain = live.net;
    for (auto& l : plain.layers) erase_if(l.opts, [](const Opt& o) { return o.type == L1 || o.type == L2 || o.type == MULT; });
    StraightforwardNeuralNetwork other(plain.models(), plain.optimizer());
    StraightforwardNeuralNetwork nn(live.net.models(), live.net.optimizer()); // without the recurrent state
    const auto w = readWeights(*live.nn, live.net);
    writeWeights(other, plain, w);
    writeWeights(nn, live.net, w);
    const auto ops = genOps(c, live.net, live.spec, c.ranged(1, 6), {Op::INFER, Op::INFER, Op::CLUSTER, Op::EVALUATE});
    c.text(m::text(ops));
    const auto d = differs(play(ops, live.net, nn, *live.data), play(ops, plain, other, *live.data));
    c.check(d.empty(), "inference is changed: " + d);
    if (configured(live.net)) for (auto& o : live.past) if (o.kind == Op::TRAIN_ONCE) c.nontrivial();
}

PROPERTY(C18, limited, 6000, 200000, "the added optimizer changes its layer, and another layer comes after")
{
    // an optimizer added to a layer has no effect on the step of the layers after it
    stir(c);
    auto g = generator(c);
    g.noLc1dBug = false;
    Net net = genNet(c, g);
    for (auto& l : net.layers) if (l.kind == GRU) l.kind = REC;
    net.finalize();
    const size_t k = c.draw((uint32_t)net.layers.size());
    if (net.layers[k].kind == POOL) c.discard();
    Net with = net;
    const Opt o = c.chance(40) ? Opt{MULT, c.pick(vector<float>{0, 2, -1, 0.5f})} : Opt{c.chance(50) ? L1 : L2, (float)c.range(1, 40) / 50.0f};
    const bool last = c.chance(50);
    if (last) with.layers[k].opts.push_back(o);
    else addOption(c, with.layers[k], o);
    c.text(with.text());
    c.text(pbt::cat("added to layer ", k));
    auto nn = net.build(), other = with.build();
    const auto w = genWeights(c, net, 0.8);
    writeWeights(*nn, net, w);
    writeWeights(*other, with, w);
    for (int i = c.range(0, 2); i > 0; --i) // the state of recurrent layers
    {
        const auto in = genVector(c, net.nIn(), 1);
        (void)nn->computeOutput(in, false);
        (void)other->computeOutput(in, false);
    }
    const auto in = genVector(c, net.nIn(), 1), desired = genVector(c, net.nOut(), 1);
    c.text(pbt::cat("train ", pbt::str(in, 6), " -> ", pbt::str(desired, 6)));
    const bool reset = c.chance(50);
    nn->trainOnce(in, desired, reset);
    other->trainOnce(in, desired, reset);
    const auto a = readWeights(*nn, net), b = readWeights(*other, with);
    const auto d = firstDifference(b, a, k + 1);
    c.check(d.empty(), pbt::cat("the optimizer of layer ", k, " changes the learning of the layers after it: ", d));
    if (!firstDifference(b, a, 0).empty() && k + 1 < net.layers.size()) c.nontrivial();
    // the error multiplier of a layer multiplies the step of this layer and those before (no momentum yet)
    if (o.type == MULT && last && !net.temporal())
    {
        bool simple = true; // convolutions learn position after position; the regularization of another layer does not follow
        for (size_t l = 0; l <= k; ++l) { if (net.layers[l].kind == CONV) simple = false; if (l < k) for (auto& x : net.layers[l].opts) if (x.type != MULT) simple = false; }
        for (size_t l = 0; simple && l <= k; ++l)
            for (size_t n = 0; n < w[l].size(); ++n)
                for (size_t i = 0; i < w[l][n].size(); ++i)
                {
                    const double step = (double)a[l][n][i] - w[l][n][i], multiplied = (double)b[l][n][i] - w[l][n][i];
                    c.check(fabs(multiplied - o.value * step) <= 1e-5 * max({1.0, fabs((double)w[l][n][i]), fabs(step)}),
                            pbt::cat("layer ", l, " neuron ", n, " weight ", i, " moves by ", multiplied, " with a multiplier of ", o.value, " and ", step, " without"));
                }
    }
}
