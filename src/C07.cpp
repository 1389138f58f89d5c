// C07 A copy is equal and independent, and equality tells networks apart
#include "model.hpp"
using namespace m;
using namespace std;

static const vector<Op::Kind> uses{Op::TRAIN_ONCE, Op::INFER, Op::CLUSTER, Op::EVALUATE, Op::TRAIN, Op::RATE, Op::SET};

static void equal(pbt::Case& c, const StraightforwardNeuralNetwork& a, const StraightforwardNeuralNetwork& b, bool expected, const string& what)
{
    c.check((a == b) == expected, what + (expected ? ": not equal" : ": equal"));
    c.check((b == a) == expected, what + ": equality is not symmetric");
    c.check((a != b) == !expected && (b != a) == !expected, what + ": inequality is not the negation of equality");
}

PROPERTY(C07, copy, 4000, 120000, "the copied network was used before and both are used afterwards, with at least one training")
{
    LiveGen g;
    if (c.chance(60)) g.net.opts = {DROPOUT, L1, L2, MULT, SOFTMAX};
    Live live = genLive(c, g);
    auto& nn = *live.nn;
    if (c.chance(30)) nn.autoSaveFilePath = "somewhere.snn";
    if (c.chance(20)) nn.autoSaveWhenBetter = true, nn.autoSaveFilePath = c.scratch() + "/auto.snn";
    equal(c, nn, nn, true, "a network and itself");
    const auto next = genOps(c, live.net, live.spec, c.ranged(1, 5), uses);
    const auto other = genOps(c, live.net, live.spec, c.ranged(1, 5), uses);
    c.text("next: " + m::text(next) + " / other: " + m::text(other));
    const auto reference = pbt::inFork([&] { return play(next, live.net, nn, *live.data); });
    auto copy = make_unique<StraightforwardNeuralNetwork>(nn);
    equal(c, nn, *copy, true, "a network and its copy");
    c.check(copy->autoSaveFilePath == nn.autoSaveFilePath && copy->autoSaveWhenBetter == nn.autoSaveWhenBetter, "the automatic save of the copy is different");
    auto d = differs(observe(live.net, nn), observe(live.net, *copy));
    c.check(d.empty(), "the copy has other values: " + d);
    c.check(nn.summary() == copy->summary(), "the copy has another summary");
    d = differs(reference, pbt::inFork([&] { return play(next, live.net, nn, *live.data); }));
    c.check(d.empty(), "a network behaves in another way once it was copied: " + d);
    d = differs(reference, pbt::inFork([&] { return play(next, live.net, *copy, *live.data); }));
    c.check(d.empty(), "the copy behaves in another way: " + d);
    // nothing done to one changes the other
    StraightforwardNeuralNetwork witness(*copy);
    const auto seen = observe(live.net, *copy);
    vector<float> log;
    const bool copyIsUsed = c.chance(50);
    auto& used = copyIsUsed ? *copy : nn;
    auto& kept = copyIsUsed ? nn : *copy;
    for (auto& op : other) apply(op, live.net, used, *live.data, log);
    equal(c, kept, witness, true, "a network after its copy was used");
    d = differs(seen, observe(live.net, kept));
    c.check(d.empty(), "using one of them changed the other: " + d);
    auto again = live.spec.build();
    auto play2 = [&](StraightforwardNeuralNetwork& n) { return pbt::inFork([&] { return play(next, live.net, n, *again); }); };
    const auto expected = play2(witness);
    d = differs(expected, play2(kept));
    c.check(d.empty(), "using one of them changed the behaviour of the other: " + d);
    if (copyIsUsed) copy.reset();
    else live.nn.reset();
    vector<vector<float>> garbage; // the freed memory is used again
    for (int i = 0; i < 64; ++i) garbage.emplace_back(8 + i % 32, 1e20f);
    d = differs(expected, play2(kept));
    c.check(d.empty(), "destroying one of them changed the other: " + d);
    bool trained = false;
    for (auto& o : other) trained |= o.kind == Op::TRAIN || o.kind == Op::TRAIN_ONCE;
    if (!live.past.empty() && trained) c.nontrivial();
}

PROPERTY(C07, diverged, 2500, 80000, "a value of the network is not finite or greater than 1e15")
{
    LiveGen g;
    if (c.chance(60)) g.net.opts = {DROPOUT, L1, L2, MULT, SOFTMAX};
    g.maxPast = 2;
    g.net.acts = {activation::identity, activation::ReLU, activation::sigmoid, activation::tanh, activation::GELU};
    Live live = genLive(c, g);
    auto& nn = *live.nn;
    diverge(c, live);
    auto next = genOps(c, live.net, live.spec, c.ranged(1, 4), {Op::TRAIN_ONCE, Op::EVALUATE, Op::INFER});
    c.text("then: " + m::text(next));
    const auto reference = pbt::inFork([&] { return play(next, live.net, nn, *live.data); });
    StraightforwardNeuralNetwork copy(nn);
    auto d = differs(observe(live.net, nn), observe(live.net, copy));
    c.check(d.empty(), "the copy has other values: " + d);
    d = differs(reference, pbt::inFork([&] { return play(next, live.net, copy, *live.data); }));
    c.check(d.empty(), "the copy behaves in another way: " + d);
    // what happens to the network leaves its copy as it was
    const auto seen = observe(live.net, nn);
    diverge(c, live);
    d = differs(seen, observe(live.net, copy));
    c.check(d.empty(), "the copy changed when the network it was made from diverged: " + d);
    const bool dropout = ranges::any_of(live.net.layers, [](auto& x) { return ranges::any_of(x.opts, [](auto& o) { return o.type == DROPOUT; }); });
    if (dropout) return; // the next masks are others
    d = differs(reference, pbt::inFork([&] { return play(next, live.net, copy, *live.data); }));
    c.check(d.empty(), "the copy behaves in another way once the network it was made from diverged: " + d);
}

PROPERTY(C07, different, 6000, 200000, "all: the two networks differ in one thing")
{
    stir(c);
    Gen g;
    g.kinds = {FC, REC, GRU, CONV, LC, POOL};
    g.maxInputs = 16;
    g.maxNeurons = 4;
    g.momentum = true;
    if (c.chance(70)) g.opts = {DROPOUT, L1, L2, MULT, SOFTMAX};
    const Net net = genNet(c, g);
    c.text(net.text());
    Net changed = net;
    auto a = net.build();
    if (c.chance(70)) writeWeights(*a, net, genWeights(c, net, 1));
    const auto w = readWeights(*a, net);
    unique_ptr<StraightforwardNeuralNetwork> b;
    auto withSameWeights = [&] // GRU weights cannot be set
    {
        if (net.has(GRU)) c.discard();
        b = changed.build();
        writeWeights(*b, changed, w);
    };
    const size_t l = c.draw((uint32_t)net.layers.size());
    auto& layer = changed.layers[l];
    string what;
    switch (c.range(0, 11))
    {
    case 0: // one weight, by one unit in the last place or much
    {
        b = make_unique<StraightforwardNeuralNetwork>(*a);
        if (layer.kind == POOL || layer.kind == GRU) c.discard();
        auto v = w;
        auto& x = v[l][c.draw((uint32_t)v[l].size())];
        auto& y = x[c.draw((uint32_t)x.size())];
        y = c.chance(50) ? nextafterf(y, 10.0f) : y + 1.0f;
        writeWeights(*b, net, v);
        what = "weight";
        break;
    }
    case 1:
        if (layer.kind == POOL || layer.kind == GRU) c.discard();
        layer.act = (activation)(((int)layer.act + c.range(1, 6)) % 7);
        withSameWeights();
        what = "activation";
        break;
    case 2:
        changed.lr = net.lr * (c.chance(50) ? 0.5f : 1.0001f);
        b = make_unique<StraightforwardNeuralNetwork>(*a);
        setRate(*b, changed.lr, changed.momentum);
        what = "learning rate";
        break;
    case 3:
        changed.momentum = net.momentum > 0.5f ? net.momentum - 0.25f : net.momentum + 0.25f;
        b = make_unique<StraightforwardNeuralNetwork>(*a);
        setRate(*b, changed.lr, changed.momentum);
        what = "momentum";
        break;
    case 4: // value of an optimizer
    {
        if (layer.opts.empty()) c.discard();
        auto& o = layer.opts[c.draw((uint32_t)layer.opts.size())];
        if (o.type == SOFTMAX) c.discard();
        o.value += o.value > 0.5f ? -0.25f : 0.25f;
        withSameWeights();
        what = "value of a layer optimizer";
        break;
    }
    case 5: // one more or one less
        if (layer.kind == POOL) c.discard();
        if (!layer.opts.empty() && c.chance(50)) layer.opts.erase(layer.opts.begin() + c.draw((uint32_t)layer.opts.size()));
        else layer.opts.insert(layer.opts.begin() + c.draw((uint32_t)layer.opts.size() + 1), Opt{(OptType)c.draw(5), 0.25f});
        withSameWeights();
        what = "number of layer optimizers";
        break;
    case 6: // type of an optimizer
    {
        if (layer.opts.empty()) c.discard();
        auto& o = layer.opts[c.draw((uint32_t)layer.opts.size())];
        o.type = (OptType)(((int)o.type + c.range(1, 4)) % 5);
        withSameWeights();
        what = "type of a layer optimizer";
        break;
    }
    case 7: // order of two optimizers
    {
        if (layer.opts.size() < 2 || (layer.opts[0].type == layer.opts[1].type && (layer.opts[0].value == layer.opts[1].value || layer.opts[0].type == SOFTMAX))) c.discard();
        swap(layer.opts[0], layer.opts[1]);
        withSameWeights();
        what = "order of the layer optimizers";
        break;
    }
    case 8: // training state
        b = make_unique<StraightforwardNeuralNetwork>(*a);
        b->setNumberOfTrainingsBetweenTwoEvaluations(a->getNumberOfTrainingsBetweenTwoEvaluations() + 1 + c.range(0, 9));
        what = "number of trainings between two evaluations";
        break;
    case 9: // one more training
    {
        b = make_unique<StraightforwardNeuralNetwork>(*a);
        const auto in = genVector(c, net.nIn(), 1), out = genVector(c, net.nOut(), 1);
        const bool dropout = ranges::any_of(net.layers, [](auto& x) { return ranges::any_of(x.opts, [](auto& o) { return o.type == DROPOUT; }); }); // each draws its own mask
        if (c.chance(50) && !dropout)
        {
            a->trainOnce(in, out);
            b->trainOnce(in, out);
            equal(c, *a, *b, true, "the same training");
        }
        const auto x = readWeights(*b, net);
        b->trainOnce(in, out);
        if (readWeights(*b, net) == x) c.discard(); // nothing to learn
        what = "training";
        break;
    }
    case 10: // shape
    {
        if (layer.kind == POOL) c.discard();
        layer.n += 1;
        if (!changed.finalize()) c.discard();
        b = changed.build();
        what = "number of neurons or filters";
        break;
    }
    case 11: // one layer more
        changed.layers.push_back(L{FC, net.nOut(), 0, activation::identity});
        changed.finalize();
        b = changed.build();
        if (!net.has(GRU))
        {
            auto v = readWeights(*b, changed);
            for (size_t i = 0; i < w.size(); ++i) v[i] = w[i];
            writeWeights(*b, changed, v);
        }
        what = "number of layers";
        break;
    }
    c.text("the other: " + changed.text());
    c.label(what);
    equal(c, *a, *b, false, "networks that differ in " + what);
    StraightforwardNeuralNetwork ca(*a), cb(*b);
    equal(c, ca, cb, false, "copies of networks that differ in " + what);
    equal(c, ca, *a, true, "a copy");
    c.nontrivial();
}

PROPERTY(C07, shapes, 1500, 50000, "all: same parameters, other shapes")
{
    // filter layers with the same weights and other arrangements
    stir(c);
    struct Pair { vector<int> a, b; Kind ka, kb; int na, nb, k1, k2; };
    const int k = c.range(1, 3), f = c.range(1, 3), ch = c.range(1, 3);
    Pair p{};
    switch (c.range(0, 4))
    {
    case 0: p = {{ch, k + 2}, {ch, k + 3}, CONV, CONV, f, f, k, k}; break; // other number of positions
    case 1: p = {{ch, k + 1, k + 3}, {ch, k + 3, k + 1}, CONV, CONV, f, f, k, k}; break; // x and y exchanged
    case 2: p = {{ch, k, 2 * k}, {ch, 2 * k, k}, LC, LC, f, f, k, k}; break;
    case 3: p = {{ch, 6}, {ch, 6}, POOL, POOL, 0, 0, 2, 3}; break;
    case 4: p = {{1, k}, {1, k}, CONV, LC, f, f, k, k}; break; // one position: the same computation
    }
    Net a{p.a, {L{p.ka, p.na, p.k1, activation::sigmoid}}}, b{p.b, {L{p.kb, p.nb, p.k2, activation::sigmoid}}};
    if (!a.finalize() || !b.finalize()) c.discard();
    c.text(a.text() + " and " + b.text());
    auto x = a.build(), y = b.build();
    if (a.layers[0].neurons == b.layers[0].neurons) writeWeights(*y, b, readWeights(*x, a));
    equal(c, *x, *y, false, "networks of different shapes");
    auto x2 = a.build();
    writeWeights(*x2, a, readWeights(*x, a));
    equal(c, *x, *x2, true, "networks built twice with the same parameters");
    c.nontrivial();
}

PROPERTY(C07, future, 5000, 200000, "the two networks, whose past differs, behave differently from the same point on")
{
    // whatever two networks went through, equal ones behave in the same way
    stir(c);
    Gen g;
    g.kinds = {FC, REC, GRU, CONV, LC, POOL};
    if (c.chance(50)) g.kinds = {FC, REC};
    g.maxInputs = 9;
    g.maxNeurons = 3;
    g.maxLayers = 3;
    g.momentum = true;
    g.lrMax = 0.2f;
    if (c.chance(40)) g.opts = {L1, L2, MULT, SOFTMAX};
    const Net net = genNet(c, g);
    auto a = net.build();
    auto b = make_unique<StraightforwardNeuralNetwork>(*a);
    string said;
    struct Step { vector<float> in, out; bool reset, learn; };
    auto step = [&](int learn)
    {
        Step s{genVector(c, net.nIn(), 1), genVector(c, net.nOut(), 1), c.chance(30), c.chance(learn)};
        if (c.chance(20)) s.in.assign(s.in.size(), 0.0f);
        return s;
    };
    auto play = [&](StraightforwardNeuralNetwork& n, const Step& s)
    {
        if (!s.learn) return n.computeOutput(s.in, s.reset);
        n.trainOnce(s.in, s.out, s.reset);
        return vector<float>{};
    };
    auto show = [&](const Step& s) { return pbt::cat(s.learn ? "trainOnce" : "computeOutput", s.reset ? " with reset " : " ", pbt::str(s.in, 4), s.learn ? " -> " + pbt::str(s.out, 4) : ""); };
    const int before = c.range(1, 3);
    for (int i = 0; i < before; ++i)
    {
        auto s = step(80);
        play(*a, s);
        said += "both: " + show(s) + "; ";
        if (c.chance(30)) { play(*b, s); continue; }
        auto t = s;
        t.out = genVector(c, net.nOut(), 1);
        if (c.chance(40)) t.in = genVector(c, net.nIn(), 1);
        if (c.chance(20)) t.learn = !t.learn;
        said += "the second instead: " + show(t) + "; ";
        play(*b, t);
    }
    if (!net.has(GRU) && c.chance(80))
    {
        writeWeights(*b, net, readWeights(*a, net));
        said += "same weights; ";
    }
    const int common = c.range(0, 2);
    for (int i = 0; i < common; ++i)
    {
        const auto s = step(25);
        said += "both: " + show(s) + "; ";
        play(*a, s);
        play(*b, s);
    }
    vector<Step> next;
    for (int i = c.range(1, 3); i > 0; --i) next.push_back(step(70));
    const auto last = step(0);
    for (auto& s : next) said += "then: " + show(s) + "; ";
    c.text(net.text() + ": " + said + "then " + show(last));
    const bool same = *a == *b;
    equal(c, *a, *b, same, "two networks");
    auto future = [&](StraightforwardNeuralNetwork& n)
    {
        StraightforwardNeuralNetwork x(n);
        vector<float> r;
        for (auto& s : next)
        {
            auto o = play(x, s);
            r.insert(r.end(), o.begin(), o.end());
        }
        auto o = play(x, last);
        r.insert(r.end(), o.begin(), o.end());
        for (auto& v : readWeights(x, net)) for (auto& w : v) r.insert(r.end(), w.begin(), w.end());
        return r;
    };
    const auto fa = future(*a), fb = future(*b);
    bool finite = true, differ = false;
    for (size_t i = 0; i < fa.size(); ++i)
    {
        finite &= isfinite(fa[i]) && isfinite(fb[i]) && fabsf(fa[i]) < 1e4f && fabsf(fb[i]) < 1e4f;
        differ |= fabsf(fa[i] - fb[i]) > 1e-3f * (1.0f + fabsf(fa[i]));
    }
    if (!finite) c.discard();
    c.label(differ ? same ? "equal and different" : "different, not equal" : same ? "equal and same future" : "same future, not equal");
    if (differ)
    {
        c.check(!same, "two networks are equal though they do not behave in the same way from then on");
        c.nontrivial();
    }
}
