// C03 One training step follows the gradient of the squared error
#include "model.hpp"
using namespace m;
using namespace std;

static void oneStep(pbt::Case& c, const Net& net, bool big)
{
    c.text(net.text());
    auto nn = net.build();
    if (c.chance(85)) writeWeights(*nn, net, genWeights(c, net, c.pick(vector<double>{1, 0.3, 2})));
    if (c.chance(20))
    {
        setRate(*nn, 0.25f, 0.5f);
        c.label("rate changed after the construction");
    }
    const auto before = readWeights(*nn, net);
    c.text("weights " + m::str(before));
    for (int i = c.weighted({6, 2, 1}); i > 0; --i)
    {
        (void)nn->computeOutput(genVector(c, net.nIn(), 2), c.chance(50));
        c.label("inference before");
    }
    c.check(readWeights(*nn, net) == before, "an inference changed a weight");
    const auto in = genVector(c, net.nIn(), c.pick(vector<double>{1, 0.2, 4})), desired = genVector(c, net.nOut(), c.pick(vector<double>{1, 10}));
    c.text("inputs " + pbt::str(in) + " desired " + pbt::str(desired));
    const auto inCopy = in, desiredCopy = desired;
    Variants v(net, relevant(net, true), true);
    for (auto& s : v.sims)
    {
        if (auto* sgd = dynamic_cast<snn::internal::StochasticGradientDescent*>(nn->optimizer.get())) { s.lr = sgd->learningRate; s.momentum = sgd->momentum; }
        s.setWeights(before);
        s.train(in, desired, true);
    }
    if (v.ambiguous()) { c.label("not differentiable there"); c.discard(); }
    if (v.fuzzy()) { c.label("error bound too big"); c.discard(); }
    reincarnate(c, nn, 20);
    nn->trainOnce(in, desired, c.chance(50));
    c.check(same(in, inCopy) && same(desired, desiredCopy), "the inputs or the desired outputs were modified");
    const auto after = readWeights(*nn, net);
    v.each([&](Sim& s) { return s.compare(after, &before); });
    c.check(nn->getNumberOfTraining() == 1, "the number of trainings is not 1");
    size_t changed = 0;
    for (size_t l = 0; l < after.size(); ++l)
        if (after[l] != before[l]) ++changed;
    if (changed > 0 && (big || changed > 1 || net.layers[0].kind != FC)) c.nontrivial();
    for (size_t i = 0; i < net.layers.size(); ++i)
    {
        static const char* names[] = {"FullyConnected", "Recurrence", "GruLayer", "Convolution", "LocallyConnected", "MaxPooling"};
        auto& l = net.layers[i];
        c.label(pbt::cat(names[l.kind], l.in.size() == 3 ? "2D" : l.in.size() == 2 ? "1D" : "", i ? "" : " first"));
    }
    v.finish(c);
}

PROPERTY(C03, step, 9000, 400000, "weights of at least two layers, or of a filter layer, changed")
{
    stir(c);
    Gen g;
    g.maxLayers = 5;
    g.momentum = true;
    g.lrMax = 0.9f;
    oneStep(c, genNet(c, g), false);
}

PROPERTY(C03, large, 300, 8000, "at least one weight changed")
{
    stir(c);
    Gen g;
    g.maxLayers = 3;
    g.maxInputs = 300;
    g.maxNeurons = 40;
    g.acts = {activation::sigmoid, activation::tanh, activation::iSigmoid, activation::GELU};
    oneStep(c, genNet(c, g), true);
}

PROPERTY(C03, huge, 15, 300, "more than 32768 inputs or outputs and a weight changed")
{
    const Net net = genHuge(c, true);
    c.text(net.text());
    auto nn = net.build();
    const auto before = genWeights(c, net, 0.5);
    writeWeights(*nn, net, before);
    const auto in = genVector(c, net.nIn(), 1), desired = genVector(c, net.nOut(), 1);
    Variants v(net, relevant(net, true), true);
    for (auto& s : v.sims)
    {
        s.setWeights(before);
        s.train(in, desired, true);
    }
    if (v.ambiguous()) { c.label("not differentiable there"); c.discard(); }
    nn->trainOnce(in, desired, c.chance(50));
    const auto after = readWeights(*nn, net);
    v.each([&](Sim& s) { return s.compare(after, &before); });
    if (after != before && (net.nIn() > 32768 || net.layers[0].nOut > 32768)) c.nontrivial();
    if (net.nIn() > 65536) c.label("more than 65536 inputs");
    if (v.fuzzy()) c.label("wide error bound");
    v.finish(c);
}

PROPERTY(C03, descent, 2000, 60000, "the step changed the squared error by more than rounding")
{
    // independent of the reference model: a finite difference of the squared error, computed by the network itself
    stir(c);
    Gen g;
    g.maxLayers = 3;
    g.noLc1dBug = true;
    g.maxInputs = 24;
    g.acts = {activation::sigmoid, activation::tanh, activation::identity, activation::gaussian, activation::iSigmoid};
    Net net = genNet(c, g);
    net.lr = 0.001f;
    c.text(net.text());
    auto nn = net.build();
    writeWeights(*nn, net, genWeights(c, net, 1));
    const auto in = genVector(c, net.nIn(), 1), desired = genVector(c, net.nOut(), 1);
    const auto before = readWeights(*nn, net);
    Sim sim(net, 0);
    auto loss = [&](const Weights& w)
    {
        sim.setWeights(w);
        double s = 0;
        auto out = sim.forward(in, false, false);
        for (size_t i = 0; i < out.size(); ++i) s += (out[i].v - desired[i]) * (out[i].v - desired[i]);
        return s;
    };
    const double start = loss(before);
    reincarnate(c, nn, 20);
    nn->trainOnce(in, desired);
    const auto after = readWeights(*nn, net);
    // one parameter: finite difference of the exact function
    size_t l = c.draw((uint32_t)net.layers.size());
    while (before[l].empty()) l = (l + 1) % net.layers.size();
    const size_t n = c.draw((uint32_t)before[l].size()), j = c.draw((uint32_t)before[l][n].size());
    auto moved = before;
    const double h = 1.0 / 1024;
    moved[l][n][j] = (float)(before[l][n][j] + h);
    const double h1 = (double)moved[l][n][j] - before[l][n][j];
    const double up = loss(moved);
    moved[l][n][j] = (float)(before[l][n][j] - h);
    const double h2 = (double)before[l][n][j] - moved[l][n][j];
    const double down = loss(moved);
    const double gradient = (up - down) / (h1 + h2);
    const double curvature = fabs((up - start) / h1 - (start - down) / h2);
    const double scale = net.layers[l].kind == CONV ? net.layers[l].positions : 1;
    const double delta = (double)after[l][n][j] - before[l][n][j];
    const double expected = -net.lr * gradient / scale;
    // the finite difference is wrong by less than the change of the slope, the conv update by the second order in lr
    const double tolerance = net.lr / scale * (2 * curvature + 1e-4 * (1 + fabs(gradient)) + 5e-3 * fabs(gradient)) + 2e-7 * (fabs(before[l][n][j]) + 1e-3) + (net.has(CONV) ? 1e-4 * net.lr * (1 + fabs(gradient)) * (1 + start) * 50 : 0);
    bool pools = net.has(POOL);
    if (pools && curvature > 1e-2 * (1 + fabs(gradient))) { c.label("kink"); c.discard(); }
    c.text(pbt::cat("layer ", l, " neuron ", n, " weight ", j, " gradient ", gradient, " delta ", delta));
    c.check(fabs(delta - expected) <= tolerance, pbt::cat("weight ", j, " of neuron ", n, " of layer ", l, " moved by ", delta, " instead of ", expected, " (tolerance ", tolerance, ")"));
    if (fabs(delta) > 4 * tolerance) c.nontrivial();
}
