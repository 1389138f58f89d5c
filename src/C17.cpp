// C17 Dropout and softmax transform outputs and errors as defined
#include "model.hpp"
using namespace m;
using namespace std;

namespace
{
    // Chernoff: the probability to see this rate or a rarer one is less than 1e-15
    bool plausible(double hits, double n, double p)
    {
        if (n == 0) return true;
        const double q = hits / n;
        if (p <= 0) return hits == 0;
        if (p >= 1) return hits == n;
        auto kl = [](double a, double b) { return a == 0 ? 0 : a * log(a / b); };
        return n * (kl(q, p) + kl(1 - q, 1 - p)) < 35;
    }

    vector<float> chain(StraightforwardNeuralNetwork& nn, size_t upTo, vector<float> in, bool reset, bool training)
    {
        for (size_t l = 0; l < upTo; ++l) in = training ? nn.layers[l]->outputForTraining(in, reset) : nn.layers[l]->output(in, reset);
        return in;
    }

    Net without(const Net& net, OptType type)
    {
        Net r = net;
        for (auto& l : r.layers) erase_if(l.opts, [&](const Opt& o) { return o.type == type; });
        return r;
    }
    Net bare(const Net& net)
    {
        Net r = net;
        for (auto& l : r.layers) l.opts.clear();
        return r;
    }

    // which outputs of a layer were dropped, from its outputs with and without its optimizers
    // empty: it cannot be told
    bool maskOf(const L& l, const vector<float>& raw, const vector<float>& out, vector<float>& mask)
    {
        const size_t n = raw.size();
        bool dropout = false, before = false, after = false;
        float p = 0;
        for (auto& o : l.opts)
        {
            if (o.type == DROPOUT) { if (dropout) return false; dropout = true; p = o.value; }
            if (o.type == SOFTMAX) { if (dropout) after = true; else before = true; }
        }
        mask.assign(n, 1);
        if (!dropout || p <= 0) return true;
        if (p >= 1) { mask.assign(n, 0); return true; }
        if (!after)
        {
            for (size_t j = 0; j < n; ++j)
            {
                if (!before && fabs(raw[j]) < 1e-6f) return false;
                if (before)
                {
                    double sum = 0;
                    for (auto x : raw) sum += exp((double)x - raw[j]);
                    if (!(1 / sum > 1e-5)) return false;
                }
                mask[j] = out[j] == 0 ? 0.0f : 1.0f;
            }
            return true;
        }
        if (n > 10 || before) return false;
        int found = 0;
        for (uint32_t k = 0; k < 1u << n; ++k)
        {
            double sum = 0, mx = -INFINITY;
            for (size_t j = 0; j < n; ++j) mx = max(mx, (double)(k >> j & 1 ? raw[j] : 0.0f));
            for (size_t j = 0; j < n; ++j) sum += exp((k >> j & 1 ? raw[j] : 0.0f) - mx);
            bool ok = true;
            for (size_t j = 0; j < n && ok; ++j) ok = fabs(exp((k >> j & 1 ? raw[j] : 0.0f) - mx) / sum - out[j]) < 1e-4;
            if (!ok) continue;
            if (++found > 1) return false;
            for (size_t j = 0; j < n; ++j) mask[j] = (float)(k >> j & 1);
        }
        return found == 1;
    }
}

PROPERTY(C17, mask, 800, 20000, "dropout of at least three outputs with a probability strictly between 0 and 1")
{
    // the distribution of the dropped outputs, and how long the choice lasts
    stir(c);
    Gen g;
    g.kinds = {FC, REC, GRU, CONV, LC};
    g.acts = {activation::sigmoid, activation::iSigmoid, activation::gaussian, activation::identity};
    g.maxInputs = 24;
    g.maxLayers = 3;
    Net net = genNet(c, g);
    for (auto& l : net.layers) if (l.kind == REC) l.act = activation::sigmoid; // stays far from 0
    const size_t layer = c.draw((uint32_t)net.layers.size());
    const float p = c.weighted({4, 1, 1, 2}) == 0 ? (float)c.range(0, 20) / 20.0f : c.pick(vector<float>{0.0f, 1.0f, 0.5f, 0.001f, 0.999f, 0.33333f});
    net.layers[layer].opts = {{DROPOUT, p}};
    const bool second = c.chance(30) && net.layers.size() > layer + 1;
    if (second) net.layers[layer + 1].opts = {{DROPOUT, 0.5f}};
    c.text(net.text());
    auto nn = net.build();
    Net raw = net;
    for (auto& l : raw.layers) l.opts.clear();
    const bool rnn = net.temporal();
    if (!net.has(GRU))
    {
        auto w = genWeights(c, net, 0.8);
        for (auto& l : w) for (auto& n : l) n.back() += 2; // no output is zero by itself
        writeWeights(*nn, net, w);
    }
    reincarnate(c, nn, 20);
    auto& target = *nn->layers[layer];
    auto in = chain(*nn, layer, genVector(c, net.nIn(), 1), true, false);
    const int n = net.layers[layer].nOut;
    const vector<float> inference = target.output(in, true);
    // values that are kept, from an inference: times 1 - p
    vector<float> kept = inference;
    if (p < 1) for (auto& x : kept) x /= 1 - p;
    for (auto& x : kept) if (p < 1 && fabs(x) < 1e-4f) c.discard();
    const int resets = c.size < 20 ? 200 : 1200;
    vector<double> dropped(n);
    double total = 0;
    const int a = c.range(0, n - 1), b = c.range(0, n - 1);
    double both = 0, lag = 0, across = 0;
    vector<char> previous(n), mask(n);
    for (int t = 0; t < resets; ++t)
    {
        auto out = target.outputForTraining(in, true);
        c.check((int)out.size() == n, "number of outputs");
        for (int j = 0; j < n; ++j)
        {
            mask[j] = out[j] == 0;
            if (!mask[j] && !rnn)
                c.check(fabs(out[j] - kept[j]) <= 1e-4f * max(1.0f, fabs(kept[j])), pbt::cat("output ", j, " is ", out[j], ", neither dropped nor ", kept[j]));
            dropped[j] += mask[j];
            total += mask[j];
        }
        if (mask[a] && mask[b]) ++both;
        if (t % 2 && mask[a] && previous[a]) ++lag;
        if (second)
        {
            const auto after = nn->layers[layer + 1]->outputForTraining(out, true);
            if (mask[a] && after[0] == 0) ++across;
        }
        previous = mask;
        if (t % 16 == 0) // lasts until the next reset, whatever is computed
        {
            for (int k = c.range(0, 2); k > 0; --k)
            {
                if (c.chance(30)) (void)target.output(in, false);
                if (c.chance(15)) (void)nn->computeOutput(genVector(c, net.nIn(), 1), false);
                out = target.outputForTraining(in, false);
                for (int j = 0; j < n; ++j)
                    c.check((out[j] == 0) == (mask[j] != 0), pbt::cat("output ", j, " was ", mask[j] ? "" : "not ", "dropped, and no longer without any reset"));
            }
        }
    }
    c.check(plausible(total, (double)n * resets, p), pbt::cat("outputs are dropped with the probability ", total / n / resets, " instead of ", p));
    for (int j = 0; j < n; ++j)
        c.check(plausible(dropped[j], resets, p), pbt::cat("output ", j, " is dropped with the probability ", dropped[j] / resets, " instead of ", p));
    if (a != b) c.check(plausible(both, resets, (double)p * p), pbt::cat("outputs ", a, " and ", b, " are dropped together with the probability ", both / resets, " instead of ", p * p));
    c.check(plausible(lag, resets / 2, (double)p * p), pbt::cat("output ", a, " is dropped twice in a row with the probability ", lag / (resets / 2), " instead of ", p * p));
    if (second && net.layers[layer + 1].act != activation::identity && net.layers[layer + 1].act != activation::iSigmoid)
        c.check(plausible(across, resets, p * 0.5), pbt::cat("outputs of two layers are dropped together with the probability ", across / resets, " instead of ", p * 0.5));
    if (n >= 3 && p > 0 && p < 1) c.nontrivial();
    c.label(rnn ? "temporal" : "feed-forward");
}

PROPERTY(C17, resets, 800, 20000, "several layers with dropout")
{
    // a training step draws the choice again when it is a reset, and only then
    stir(c);
    Gen g;
    g.kinds = {FC, CONV, LC, REC};
    g.acts = {activation::sigmoid, activation::gaussian};
    g.maxInputs = 24;
    g.maxLayers = 3;
    Net net = genNet(c, g);
    net.layers.push_back({FC, c.range(24, 40), 0, activation::sigmoid});
    net.finalize();
    int with = 0;
    for (auto& l : net.layers) if (&l == &net.layers.back() || c.chance(50)) { l.opts = {{DROPOUT, 0.5f}}; ++with; }
    c.text(net.text());
    auto nn = net.build();
    setRate(*nn, 0, 0); // the parameters do not move
    const auto in = genVector(c, net.nIn(), 1);
    auto masks = [&]
    {
        string r;
        vector<float> x = in;
        for (auto& l : nn->layers)
        {
            x = l->outputForTraining(x, false);
            for (auto v : x) r += v == 0 ? '0' : '1';
            r += ' ';
        }
        return r;
    };
    auto lastOf = [](const string& s) { const auto t = s.substr(0, s.size() - 1); return t.substr(t.rfind(' ') + 1); };
    (void)masks();
    string now = masks();
    int same = 0, drawn = 0;
    for (int i = c.ranged(2, 12, 40); i > 0; --i)
    {
        const bool reset = c.chance(50);
        nn->trainOnce(genVector(c, net.nIn(), 1), genVector(c, net.nOut(), 1), reset);
        const string next = masks();
        if (!reset) c.check(next == now, "a training step without reset changed the dropped outputs from " + now + " to " + next);
        else { ++drawn; if (lastOf(next) == lastOf(now)) ++same; }
        now = next;
    }
    // 2^-24 for each
    c.check(same < 2, "a reset does not change the dropped outputs " + now);
    if (with > 1 && drawn) c.nontrivial();
}

PROPERTY(C17, learning, 6000, 200000, "an output was dropped and another one kept in a training step")
{
    // every training step with the outputs that were dropped for it, with any other layer optimizer
    stir(c);
    Gen g;
    g.kinds = c.chance(60) ? vector<Kind>{FC, CONV, LC, POOL} : vector<Kind>{FC, REC, GRU};
    g.maxInputs = 16;
    g.maxNeurons = 5;
    g.maxLayers = 3;
    g.momentum = true;
    g.lrMax = 0.2f;
    g.noLc1dBug = true;
    g.opts = {DROPOUT, DROPOUT, DROPOUT, SOFTMAX, MULT, L1, L2};
    Net net = genNet(c, g);
    c.text(net.text());
    auto nn = net.build();
    if (c.chance(70)) writeWeights(*nn, net, genWeights(c, net, c.pick(vector<double>{1, 0.4})));
    StraightforwardNeuralNetwork plain(bare(net).models(), net.optimizer());
    Variants v(net, relevant(net, true), true);
    v.report = false;
    auto weights = readWeights(*nn, net);
    bool some = false, kept = false;
    const int steps = c.ranged(1, 5, 30);
    for (int i = 0; i < steps; ++i)
    {
        reincarnate(c, nn, 12);
        const auto in = genVector(c, net.nIn(), 1), desired = genVector(c, net.nOut(), 1);
        const bool reset = i == 0 || c.chance(50);
        // find what is dropped: the layers are run one at a time
        vector<vector<float>> masks;
        {
            vector<float> x = in;
            for (size_t l = 0; l < nn->layers.size(); ++l)
            {
                StraightforwardNeuralNetwork before(*nn);
                const auto out = nn->layers[l]->outputForTraining(x, reset);
                // the outputs of the layer before its optimizers
                vector<float> raw;
                if (net.layers[l].opts.empty()) { masks.push_back(vector<float>(out.size(), 1)); x = out; continue; }
                raw = before.layers[l]->output(x, reset); // only for dropout of 0 < p < 1 without softmax, times 1 - p
                bool softmax = false;
                float p = 0;
                for (auto& o : net.layers[l].opts) { if (o.type == SOFTMAX) softmax = true; if (o.type == DROPOUT) p = o.value; }
                if (softmax && !net.temporal() && !net.has(GRU))
                {
                    writeWeights(plain, net, weights);
                    raw = plain.layers[l]->output(x, reset);
                }
                else if (softmax && p > 0 && p < 1) { c.label("cannot tell what is dropped"); c.discard(); }
                vector<float> mask;
                if (!maskOf(net.layers[l], raw, out, mask)) { c.label("cannot tell what is dropped"); c.discard(); }
                for (auto k : mask) { if (k == 0) some = true; else kept = true; }
                masks.push_back(mask);
                x = out;
            }
        }
        v.each([&](Sim& s)
        {
            s.setWeights(weights);
            for (size_t l = 0; l < masks.size(); ++l) s.st[l].mask = masks[l];
            (void)s.forward(in, reset, true);
            return string();
        });
        nn->trainOnce(in, desired, false);
        const auto after = readWeights(*nn, net);
        c.text(pbt::cat("train ", pbt::str(in, 6), " -> ", pbt::str(desired, 6)));
        v.each([&](Sim& s)
        {
            s.train(in, desired, false);
            if (s.ambiguous) return string();
            const auto d = s.compare(after, &weights);
            return d.empty() ? d : pbt::cat("step ", i, ": ", d);
        });
        if (v.ambiguous()) { c.label("not differentiable there"); break; }
        weights = after;
        v.stopIfDead(c);
        if (v.fuzzy()) { c.label("error bound too big"); break; }
        // and the inference that follows
        const auto probe = genVector(c, net.nIn(), 1);
        const auto out = nn->computeOutput(probe, false);
        v.each([&](Sim& s)
        {
            s.setWeights(weights);
            const auto d = compare(out, s.forward(probe, false, false));
            return d.empty() ? d : pbt::cat("inference after step ", i, ": ", d);
        });
        v.stopIfDead(c);
        if (some && kept) c.nontrivial();
    }
    v.finish(c);
}

PROPERTY(C17, inference, 6000, 200000, "a layer with dropout, or softmax, of several outputs")
{
    // the outputs of every kind of layer with any list of optimizers
    stir(c);
    Gen g;
    g.kinds = c.chance(70) ? vector<Kind>{FC, CONV, LC, POOL} : vector<Kind>{FC, REC, GRU, CONV};
    g.maxInputs = 40;
    g.opts = {DROPOUT, SOFTMAX, DROPOUT, SOFTMAX, MULT, L1, L2};
    Net net = genNet(c, g);
    c.text(net.text());
    auto nn = net.build();
    if (c.chance(80)) writeWeights(*nn, net, genWeights(c, net, c.pick(vector<double>{1, 3})));
    Variants v(net, relevant(net, false), false);
    v.report = false;
    const auto weights = readWeights(*nn, net);
    for (auto& s : v.sims) s.setWeights(weights);
    for (int i = c.ranged(1, 4); i > 0; --i)
    {
        reincarnate(c, nn, 20);
        const auto in = genVector(c, net.nIn(), c.pick(vector<double>{1, 1, 5}));
        const bool reset = c.chance(50);
        const auto out = nn->computeOutput(in, reset);
        v.each([&](Sim& s)
        {
            const auto d = compare(out, s.forward(in, reset, false));
            return d.empty() ? d : "inference: " + d;
        });
        v.stopIfDead(c);
    }
    for (auto& l : net.layers)
        for (auto& o : l.opts) if (l.nOut > 1 && ((o.type == DROPOUT && o.value > 0) || o.type == SOFTMAX)) c.nontrivial();
    v.finish(c);
}

PROPERTY(C17, softmax, 8000, 300000, "several outputs whose exponentials would overflow or underflow")
{
    // any finite values
    stir(c);
    Gen g;
    g.kinds = {FC, CONV, LC};
    g.maxLayers = 1;
    g.maxInputs = 20;
    g.maxNeurons = c.chance(20) ? 300 : 8;
    g.acts = {activation::identity, activation::ReLU, activation::iSigmoid, activation::sigmoid};
    Net net = genNet(c, g);
    Net with = net;
    with.layers[0].opts = {{SOFTMAX, 0}};
    float keep = 1;
    const int dropout = c.weighted({4, 1, 1});
    if (dropout)
    {
        const Opt o{DROPOUT, (float)c.range(0, 4) / 8.0f};
        keep = 1 - o.value;
        with.layers[0].opts.insert(dropout == 1 ? with.layers[0].opts.begin() : with.layers[0].opts.end(), o);
    }
    c.text(with.text());
    auto raw = net.build(), nn = with.build();
    const double amplitude = c.pick(vector<double>{1, 20, 100, 1000, 1e10, 1e30, 3e37});
    auto w = genWeights(c, net, 1);
    for (auto& l : w)
        for (auto& n : l)
        {
            const double a = c.chance(30) ? c.pick(vector<double>{1, 10, 100, 1e20}) : amplitude;
            for (auto& x : n) x = (float)(x * a);
        }
    writeWeights(*raw, net, w);
    writeWeights(*nn, net, w);
    const auto in = genVector(c, net.nIn(), 1);
    const auto values = raw->computeOutput(in, true);
    for (auto x : values) if (!(fabs((double)x) < 3.3e38)) c.discard();
    const bool training = c.chance(40) && dropout == 0;
    const auto out = training ? nn->layers[0]->outputForTraining(in, true) : nn->computeOutput(in, true);
    const size_t n = values.size();
    c.check(out.size() == n, "number of outputs");
    c.text("values " + pbt::str(values, 12) + " outputs " + pbt::str(out, 12));
    double mx = -INFINITY, sum = 0, total = 0;
    const double scale = dropout == 1 ? keep : 1, after = dropout == 2 ? keep : 1;
    for (auto x : values) mx = max(mx, x * scale);
    for (auto x : values) sum += exp(x * scale - mx);
    for (size_t i = 0; i < n; ++i)
    {
        uint32_t u;
        memcpy(&u, &out[i], 4);
        c.check((u & 0x7f800000u) != 0x7f800000u, pbt::cat("output ", i, " is not finite"));
        c.check(out[i] >= 0 && out[i] <= 1.00001f, pbt::cat("output ", i, " is ", out[i]));
        const double expected = exp(values[i] * scale - mx) / sum * after;
        const double error = 2e-7 * (fabs(values[i]) + fabs(mx)) * 3 + 2e-6 + 1e-7 * n; // of the exponent
        if (error < 30) c.check(fabs(out[i] - expected) <= max(expected, (double)out[i]) * min(1.0, expm1(error)) + 1e-37, pbt::cat("output ", i, " is ", out[i], " instead of ", expected));
        else if (values[i] * scale < mx - 0.001 * fabs(mx) - 1e3) c.check(out[i] == 0, pbt::cat("output ", i, " is ", out[i], " instead of 0"));
        total += out[i];
        for (size_t j = 0; j < i && j < 40; ++j)
        {
            if (values[i] > values[j]) c.check(out[i] >= out[j] * (1 - 1e-6f), pbt::cat("outputs ", i, " and ", j, " are in the wrong order: ", out[i], " ", out[j]));
            if (values[i] < values[j]) c.check(out[i] * (1 - 1e-6f) <= out[j], pbt::cat("outputs ", i, " and ", j, " are in the wrong order: ", out[i], " ", out[j]));
        }
    }
    c.check(fabs(total - after) <= 1e-5 + 2e-7 * n, pbt::cat("the outputs sum to ", total));
    double lo = INFINITY;
    for (auto x : values) lo = min(lo, (double)x);
    if (n > 1 && (mx > 88 || lo < -88)) c.nontrivial();
    c.label(mx > 88 ? "overflow" : lo < -88 ? "underflow" : "moderate");
}
