// C08 Every architecture is built with exact dimensions or cleanly refused
#include "model.hpp"
#include <sstream>
using namespace m;
using namespace std;

namespace
{
    struct Summary
    {
        struct Section { string name; vector<pair<string, string>> values; };
        vector<pair<string, string>> head;
        vector<Section> layers;
    };
    string trim(const string& s)
    {
        const auto b = s.find_first_not_of(" \t\r");
        return b == string::npos ? "" : s.substr(b, s.find_last_not_of(" \t\r") - b + 1);
    }
    vector<int> numbers(const string& s)
    {
        vector<int> r;
        for (size_t i = 0; i < s.size();)
            if (isdigit((unsigned char)s[i]))
            {
                size_t n = 0;
                r.push_back(stoi(s.substr(i), &n));
                i += n;
            }
            else ++i;
        return r;
    }
    const char* typeName(const L& l)
    {
        const bool two = l.in.size() == 3;
        switch (l.kind)
        {
        case FC: return "FullyConnected";
        case REC: return "Recurrence";
        case GRU: return "GruLayer";
        case CONV: return two ? "Convolution2D" : "Convolution1D";
        case LC: return two ? "LocallyConnected2D" : "LocallyConnected1D";
        default: return two ? "MaxPooling2D" : "MaxPooling1D";
        }
    }
    Summary parse(const string& text)
    {
        Summary s;
        istringstream in(text);
        for (string line; getline(in, line);)
        {
            line = trim(line);
            for (const char* n : {"FullyConnected", "Recurrence", "GruLayer", "Convolution1D", "Convolution2D", "LocallyConnected1D", "LocallyConnected2D", "MaxPooling1D", "MaxPooling2D"})
                if (line == n) s.layers.push_back({n, {}});
            if (line.find("Optimizer  ") != string::npos) break;
            const auto colon = line.find(':');
            if (colon == string::npos) continue;
            auto& v = s.layers.empty() ? s.head : s.layers.back().values;
            v.emplace_back(trim(line.substr(0, colon)), trim(line.substr(colon + 1)));
        }
        return s;
    }
    string value(const vector<pair<string, string>>& v, const string& key)
    {
        for (auto& [k, x] : v) if (k == key) return x;
        return "?";
    }

    // the description of a network that may be invalid
    struct Raw
    {
        Net net;
        vector<snn::LayerModel> models;
        snn::NeuralNetworkOptimizerModel optimizer;
        bool valid = true;
        string why;
    };

    void dimensions(pbt::Case& c, const Net& net, StraightforwardNeuralNetwork& nn)
    {
        auto is = [&](long actual, long expected, const string& what) { c.check(actual == expected, pbt::cat(what, " is ", actual, " instead of ", expected)); };
        is(nn.isValid(), 0, "isValid");
        is(nn.getNumberOfLayers(), (long)net.layers.size(), "number of layers");
        is(nn.getNumberOfInputs(), net.nIn(), "number of inputs");
        is(nn.getNumberOfOutputs(), net.nOut(), "number of outputs");
        is(nn.getNumberOfParameters(), net.parameters(), "number of parameters");
        long neurons = 0;
        for (size_t i = 0; i < net.layers.size(); ++i)
        {
            const L& l = net.layers[i];
            auto& layer = *nn.layers[i];
            neurons += l.neurons;
            is(layer.getNumberOfInputs(), l.nIn, pbt::cat("number of inputs of layer ", i));
            is(layer.getNumberOfNeurons(), l.neurons, pbt::cat("number of neurons of layer ", i));
            is(layer.getNumberOfParameters(), (long)l.neurons * l.perNeuron * (l.kind == GRU ? 3 : 1), pbt::cat("number of parameters of layer ", i));
            c.check(layer.getShapeOfInput() == l.in, pbt::cat("shape of the input of layer ", i, " is ", pbt::str(layer.getShapeOfInput()), " instead of ", pbt::str(l.in)));
            c.check(layer.getShapeOfOutput() == l.out, pbt::cat("shape of the output of layer ", i, " is ", pbt::str(layer.getShapeOfOutput()), " instead of ", pbt::str(l.out)));
        }
        is(nn.getNumberOfNeurons(), neurons, "number of neurons");
    }

    void initialWeights(pbt::Case& c, const Net& net, StraightforwardNeuralNetwork& nn)
    {
        const auto w = readWeights(nn, net);
        for (size_t l = 0; l < w.size(); ++l)
            for (size_t n = 0; n < w[l].size(); ++n)
            {
                const auto& v = w[l][n];
                c.check((int)v.size() == net.layers[l].perNeuron, pbt::cat("layer ", l, " neuron ", n, " has ", v.size(), " weights instead of ", net.layers[l].perNeuron));
                const double bound = 2.4 / sqrt((double)v.size()) * (1 + 1e-5);
                for (size_t i = 0; i < v.size(); ++i)
                    if (!(fabs((double)v[i]) <= bound)) c.fail(pbt::cat("layer ", l, " neuron ", n, " initial weight ", i, " is ", v[i], ", more than ", bound));
                c.check(v.back() >= 0, pbt::cat("layer ", l, " neuron ", n, " has the initial bias ", v.back()));
            }
    }

    void summary(pbt::Case& c, const Net& net, StraightforwardNeuralNetwork& nn)
    {
        const string text = nn.summary();
        const Summary s = parse(text);
        auto is = [&](const string& actual, const vector<int>& expected, const string& what)
        {
            c.check(numbers(actual) == expected, "the summary tells " + what + " " + actual + " instead of " + pbt::str(expected) + "\n" + text);
        };
        is(value(s.head, "Parameters"), {net.parameters()}, "parameters");
        is(value(s.head, "Epochs"), {nn.getCurrentEpoch()}, "epochs");
        c.check(s.layers.size() == net.layers.size(), pbt::cat("the summary has ", s.layers.size(), " layers instead of ", net.layers.size(), "\n", text));
        for (size_t i = 0; i < net.layers.size(); ++i)
        {
            const L& l = net.layers[i];
            auto& v = s.layers[i].values;
            c.check(s.layers[i].name == typeName(l), "the summary tells " + s.layers[i].name + " instead of " + typeName(l));
            is(value(v, "Input shape"), l.in, "input shape");
            is(value(v, "Output shape"), l.out, "output shape");
            if (l.kind != POOL) is(value(v, "Parameters"), {l.neurons * l.perNeuron * (l.kind == GRU ? 3 : 1)}, "parameters");
            if (l.kind == FC || l.kind == REC || l.kind == GRU) is(value(v, "Neurons"), {l.neurons}, "neurons");
            if (l.kind == CONV || l.kind == LC) is(value(v, "Filters"), {l.n}, "filters");
            if (l.kind == CONV || l.kind == LC || l.kind == POOL)
                for (int k : numbers(value(v, "Kernel size"))) is(pbt::cat(k), {l.k}, "kernel size");
        }
    }

    void accepted(pbt::Case& c, const Raw& r)
    {
        unique_ptr<StraightforwardNeuralNetwork> nn;
        try { nn = make_unique<StraightforwardNeuralNetwork>(r.models, r.optimizer); }
        catch (const exception& e) { c.fail(string("a valid description is refused: ") + e.what()); }
        dimensions(c, r.net, *nn);
        initialWeights(c, r.net, *nn);
        summary(c, r.net, *nn);
        // the network can be used
        if (r.net.nIn() <= 2000 && r.net.parameters() < 100000)
        {
            const auto out = nn->computeOutput(vector<float>((size_t)r.net.nIn(), 0.25f), true);
            c.check((int)out.size() == r.net.nOut(), pbt::cat(out.size(), " outputs computed instead of ", r.net.nOut()));
            nn->trainOnce(vector<float>((size_t)r.net.nIn(), 0.25f), vector<float>((size_t)r.net.nOut(), 0.5f));
        }
    }
    void refused(pbt::Case& c, const Raw& r)
    {
        try { StraightforwardNeuralNetwork nn(r.models, r.optimizer); }
        catch (const exception&) { c.count(); return; }
        c.fail("an invalid description is accepted: " + r.why);
    }
    void decide(pbt::Case& c, const Raw& r)
    {
        c.text(r.net.text());
        c.label(r.valid ? "valid" : "invalid: " + r.why);
        if (!r.valid) c.text("invalid: " + r.why);
        if (r.valid) accepted(c, r);
        else refused(c, r);
    }
    Gen generator()
    {
        Gen g;
        g.kinds = {FC, REC, GRU, CONV, LC, POOL};
        g.opts = {DROPOUT, L1, L2, MULT, SOFTMAX};
        g.momentum = true;
        g.needParameters = false;
        g.maxLayers = 6;
        g.maxInputs = 120;
        g.maxNeurons = 9;
        return g;
    }
}

PROPERTY(C08, valid, 5000, 200000, "at least two layers, or a layer of filters")
{
    stir(c);
    Raw r;
    r.net = genNet(c, generator());
    r.models = r.net.models();
    r.optimizer = r.net.optimizer();
    if (c.chance(15)) r.optimizer.momentum = c.pick(vector<float>{0.0f, 1.0f}), r.net.momentum = r.optimizer.momentum;
    if (c.chance(15)) r.optimizer.learningRate = c.pick(vector<float>{1e-6f, 0.9999f}), r.net.lr = r.optimizer.learningRate;
    decide(c, r);
    for (auto& l : r.net.layers) c.label(typeName(l));
    if (r.net.layers.size() > 1 || r.net.layers[0].in.size() > 1) c.nontrivial();
}

PROPERTY(C08, refused, 5000, 200000, "all: the description has one defect")
{
    stir(c);
    Raw r;
    Gen g = generator();
    r.net = genNet(c, g);
    r.optimizer = r.net.optimizer();
    const size_t at = c.draw((uint32_t)r.net.layers.size());
    L& l = r.net.layers[at];
    auto bad = [&](const string& why) { r.valid = false; r.why = why; };
    // the models are made here when the defect is in the layers
    vector<snn::LayerModel> models = r.net.models();
    switch (c.range(0, 13))
    {
    case 0: bad("no input layer"); models.erase(models.begin()); break;
    case 1: bad("no layer"); models.resize(c.chance(70) ? 1 : 0); break;
    case 2:
        bad("input layer not in first position");
        models.insert(models.begin() + 1 + (long)c.draw((uint32_t)models.size()), inputModel({c.range(1, 3)}));
        break;
    case 3:
        bad("empty dimension of the input");
        r.net.input[c.draw((uint32_t)r.net.input.size())] = c.pick(vector<int>{0, -1, -7});
        models[0] = inputModel(r.net.input);
        break;
    case 4:
        bad("input without dimension");
        models[0] = inputModel({});
        break;
    case 5:
        if (l.kind != FC && l.kind != REC && l.kind != GRU) c.discard();
        bad("layer without neuron");
        l.n = c.pick(vector<int>{0, -1, -100, INT32_MIN});
        models[at + 1] = model(l);
        break;
    case 6:
        if (l.kind != CONV && l.kind != LC) c.discard();
        bad("layer without filter");
        l.n = c.pick(vector<int>{0, -1, -5});
        models[at + 1] = model(l);
        break;
    case 7:
    {
        if (l.kind != CONV && l.kind != LC && l.kind != POOL) c.discard();
        bad("empty kernel");
        l.k = c.pick(vector<int>{0, -1, -3});
        models[at + 1] = model(l);
        break;
    }
    case 8:
    {
        if (l.kind != CONV && l.kind != LC && l.kind != POOL) c.discard();
        bad("kernel that is too big");
        const int most = l.in.size() == 3 ? min(l.in[1], l.in[2]) : l.in[1];
        l.k = most + (c.chance(70) ? 1 : c.pick(vector<int>{2, 100, INT32_MAX - most}));
        models[at + 1] = model(l);
        break;
    }
    case 9:
    {
        bad("too many dimensions");
        vector<int> shape;
        for (int i = c.range(4, 5); i > 0; --i) shape.push_back(c.range(1, 3));
        L f{c.pick(vector<Kind>{CONV, LC, POOL}), 1, 1};
        models = {inputModel(shape), model(f)};
        r.net.input = shape;
        r.net.layers = {f};
        break;
    }
    case 10: bad("learning rate"); r.optimizer.learningRate = c.pick(vector<float>{0.0f, -0.1f, 1.0f, 1.5f, -1e30f, 1e30f}); break;
    case 11: bad("momentum"); r.optimizer.momentum = c.pick(vector<float>{-0.001f, -1.0f, 1.001f, 2.0f, 1e30f}); break;
    case 12:
        bad("unknown type");
        switch (c.range(0, 3))
        {
        case 0: models[at + 1].type = (snn::layerType)c.range(50, 60); break;
        case 1:
            if (l.kind == GRU || l.kind == POOL) c.discard();
            models[at + 1].neuron.activationFunction = (activation)c.range(50, 60);
            break;
        case 2: models[at + 1].optimizers.push_back({(snn::layerOptimizerType)c.range(50, 60), 0.1f}); break;
        default: r.optimizer.type = (snn::neuralNetworkOptimizerType)c.range(50, 60); break;
        }
        break;
    default: // no defect: the same path accepts
        r.valid = true;
        break;
    }
    r.models = models;
    if (r.valid) { r.net.finalize(); }
    decide(c, r);
    c.nontrivial();
}

PROPERTY(C08, limits, 320, 4000, "all: a size on one side or the other of a limit")
{
    Raw r;
    auto bad = [&](const string& why) { r.valid = false; r.why = why; };
    const int side = c.range(0, 2); // 0 below, 1 at, 2 above
    switch (c.range(0, 6))
    {
    case 0: // number of layers
    {
        const int n = 998 + side;
        r.net.input = {c.range(1, 3)};
        for (int i = 0; i < n; ++i) r.net.layers.push_back({FC, 1});
        if (n > 999) bad("too many layers");
        break;
    }
    case 1: // inputs of a layer: one weight each and one for the bias
    {
        const Kind kind = c.pick(vector<Kind>{FC, REC, GRU});
        const int n = (kind == FC ? 999998 : 999997) + side;
        r.net.input = {n};
        r.net.layers = {{kind, 1}};
        if (n + (kind == FC ? 1 : 2) > 1000000) bad("too many weights");
        break;
    }
    case 2:
    {
        const int n = 999999 + side;
        r.net.input = {n};
        r.net.layers = {{POOL, 1, 1000}};
        if (n > 1000000) bad("too many inputs");
        break;
    }
    case 3: // product of dimensions
    {
        r.net.input = c.pick(vector<vector<int>>{{3, 1920, 1080}, {1000, 1000, 2}, {65536, 65536}, {46341, 46341, 2}, {2, 1 << 30, 2}, {1 << 16, 1 << 16, 1 << 16, 1 << 16}, {3, 715827883}, {2073601}});
        r.net.layers = {{c.pick(vector<Kind>{FC, CONV, POOL, LC, REC}), 1, 1}};
        bad("too big input");
        break;
    }
    case 4:
    {
        const int x = c.pick(vector<int>{500, 1000, 333});
        r.net.input = {1000000 / x, x};
        r.net.layers = {{POOL, 1, x}};
        break;
    }
    case 5: // neurons
    {
        const int n = 999999 + side;
        r.net.input = {1};
        r.net.layers = {{FC, n}};
        if (n > 1000000) bad("too many neurons");
        if (side != 2 || !c.chance(30)) c.discard(); // takes much memory
        break;
    }
    default: // outputs of a layer are the inputs of the next one
    {
        const int n = 1000 + side;
        r.net.input = {1, 1000};
        r.net.layers = {{CONV, n, 1}, {POOL, 1, 1000}};
        r.net.input = {1000};
        if (n * 1000 > 1000000) bad("too many inputs");
        break;
    }
    }
    r.net.lr = 0.1f;
    if (r.valid && !r.net.finalize()) c.fail("the generator made an impossible layer");
    r.models = r.net.models();
    r.optimizer = r.net.optimizer();
    decide(c, r);
    c.nontrivial();
}
