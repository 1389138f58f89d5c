// C25 The summary describes exactly the network and its settings
#include "model.hpp"
#include <regex>
#include <sstream>
using namespace m;
using namespace std;

namespace
{
    string trim(const string& s)
    {
        const auto a = s.find_first_not_of(" \t|\r"), b = s.find_last_not_of(" \t|\r");
        return a == string::npos ? "" : s.substr(a, b - a + 1);
    }

    string lower(string s)
    {
        for (auto& x : s) x = (char)tolower(x);
        return s;
    }

    struct Section
    {
        string title;
        vector<pair<string, string>> values;
        vector<string> options; // Dropout(0.5), Softmax...

        const string* get(const string& key) const
        {
            for (auto& [k, v] : values) if (k.starts_with(key)) return &v;
            return nullptr;
        }
    };

    const vector<string> LAYERS{"FullyConnected", "Recurrence", "GruLayer", "Convolution1D", "Convolution2D", "LocallyConnected1D", "LocallyConnected2D", "MaxPooling1D", "MaxPooling2D"};

    // the sections of a summary: what is before the first layer, each layer, the optimizer
    vector<Section> parse(const string& text)
    {
        static const regex option("(Dropout|L1Regularization|L2Regularization|ErrorMultiplier)\\(([^)]*)\\)|Softmax");
        vector<Section> r(1);
        istringstream in(text);
        for (string line; getline(in, line);)
        {
            line = trim(line);
            if (line.empty() || line.find_first_not_of("=-") == string::npos) continue;
            if (ranges::find(LAYERS, line) != LAYERS.end() || line == "StochasticGradientDescent") { r.push_back({line, {}, {}}); continue; }
            if (r.size() > 1)
                for (sregex_iterator i(line.begin(), line.end(), option), end; i != end; ++i) r.back().options.push_back(i->str());
            const auto colon = line.find(':');
            if (colon != string::npos) r.back().values.emplace_back(lower(trim(line.substr(0, colon))), trim(line.substr(colon + 1)));
        }
        return r;
    }

    vector<double> numbers(const string& s)
    {
        static const regex number("[-+]?[0-9]+(\\.[0-9]*)?([eE][-+]?[0-9]+)?");
        vector<double> r;
        for (sregex_iterator i(s.begin(), s.end(), number), end; i != end; ++i) r.push_back(stod(i->str()));
        return r;
    }

    bool near(double a, double b) { return fabs(a - b) <= 2e-5 * fabs(b) + 1e-12; }

    string title(const L& l)
    {
        const string dimension = l.in.size() == 3 ? "2D" : "1D";
        switch (l.kind)
        {
        case FC: return "FullyConnected";
        case REC: return "Recurrence";
        case GRU: return "GruLayer";
        case CONV: return "Convolution" + dimension;
        case LC: return "LocallyConnected" + dimension;
        default: return "MaxPooling" + dimension;
        }
    }

    string option(const Opt& o)
    {
        switch (o.type)
        {
        case DROPOUT: return "Dropout";
        case L1: return "L1Regularization";
        case L2: return "L2Regularization";
        case MULT: return "ErrorMultiplier";
        default: return "Softmax";
        }
    }

    void has(pbt::Case& c, const Section& s, const string& key, const vector<int>& expected, const string& where)
    {
        const auto* v = s.get(key);
        c.check(v != nullptr, where + " has no value " + key);
        const auto n = numbers(*v);
        c.check(n == vector<double>(expected.begin(), expected.end()), where + ": " + key + " is " + *v + " instead of " + pbt::str(expected));
    }

    void describes(pbt::Case& c, const Net& net, StraightforwardNeuralNetwork& nn, float lr, float momentum)
    {
        const string text = nn.summary();
        const auto sections = parse(text);
        c.check(sections.size() == net.layers.size() + 2, pbt::cat("the summary has ", (int)sections.size() - 2, " layers instead of ", net.layers.size(), ":\n", text));
        const auto& head = sections.front();
        const auto* name = head.get("name");
        c.check(name != nullptr && *name == nn.autoSaveFilePath, "the name is not " + nn.autoSaveFilePath + ":\n" + text);
        has(c, head, "parameters", {net.parameters()}, "the network");
        has(c, head, "epochs", {nn.getCurrentEpoch()}, "the network");
        has(c, head, "train", {(int)nn.getNumberOfTraining()}, "the network");
        static const char* NAMES[] = {"sigmoid", "iSigmoid", "tanh", "ReLU", "GELU", "gaussian", "identity"};
        for (size_t i = 0; i < net.layers.size(); ++i)
        {
            const L& l = net.layers[i];
            const auto& s = sections[i + 1];
            const string where = pbt::cat("layer ", i);
            const bool filter = l.kind == CONV || l.kind == LC || l.kind == POOL;
            c.check(s.title == title(l), where + " is named " + s.title + " instead of " + title(l));
            vector<int> in = filter ? l.in : vector<int>{l.nIn}, out = filter ? l.out : vector<int>{l.nOut};
            if (in.size() == 1 && filter) in.insert(in.begin(), 1);
            has(c, s, "input shape", in, where);
            has(c, s, "output shape", out, where);
            if (!filter) has(c, s, "neurons", {l.n}, where);
            else has(c, s, "kernel size", l.in.size() == 3 ? vector<int>{l.k, l.k} : vector<int>{l.k}, where);
            if (l.kind == CONV || l.kind == LC) has(c, s, "filters", {l.n}, where);
            if (l.kind != POOL) has(c, s, "parameters", {l.neurons * l.perNeuron * (l.kind == GRU ? 3 : 1)}, where);
            if (l.kind != POOL && l.kind != GRU)
            {
                const auto* a = s.get("activation");
                c.check(a != nullptr && *a == NAMES[(int)l.act], where + ": the activation is " + (a ? *a : "missing") + " instead of " + NAMES[(int)l.act]);
            }
            c.check(s.options.size() == l.opts.size(), pbt::cat(where, " has ", s.options.size(), " optimizers instead of ", l.opts.size()));
            for (size_t o = 0; o < l.opts.size(); ++o)
            {
                const string expected = option(l.opts[o]);
                c.check(s.options[o].starts_with(expected), where + ": an optimizer is " + s.options[o] + " instead of " + expected);
                if (l.opts[o].type == SOFTMAX) continue;
                const auto n = numbers(s.options[o].substr(expected.size()));
                c.check(n.size() == 1 && near(n[0], l.opts[o].value), where + ": an optimizer is " + s.options[o] + pbt::cat(" instead of ", expected, "(", l.opts[o].value, ")"));
            }
        }
        const auto& sgd = sections.back();
        c.check(sgd.title == "StochasticGradientDescent", "the optimizer is named " + sgd.title);
        for (auto& [key, expected] : {pair<string, float>{"learning rate", lr}, {"momentum", momentum}})
        {
            const auto* v = sgd.get(key);
            const auto n = v ? numbers(*v) : vector<double>{};
            c.check(n.size() == 1 && near(n[0], expected), key + " is " + (v ? *v : "missing") + pbt::cat(" instead of ", expected));
        }
    }
}

PROPERTY(C25, summary, 6000, 200000, "at least two layers, and one of them has an optimizer or the network was trained")
{
    LiveGen g;
    g.net.opts = {DROPOUT, L1, L2, MULT, SOFTMAX};
    Live live = genLive(c, g);
    auto& nn = *live.nn;
    float lr = live.net.lr, momentum = live.net.momentum;
    for (auto& o : live.past) if (o.kind == Op::RATE) { lr = o.lr; momentum = o.momentum; }
    describes(c, live.net, nn, lr, momentum);
    for (int i = c.ranged(0, 4); i > 0; --i)
    {
        switch (c.weighted({5, 2, 2}))
        {
        case 0:
        {
            const auto op = genOp(c, live.net, live.spec, {Op::TRAIN_ONCE, Op::TRAIN, Op::EVALUATE, Op::INFER, Op::RATE});
            c.text(op.text());
            vector<float> log;
            apply(op, live.net, *live.nn, *live.data, log);
            if (op.kind == Op::RATE) { lr = op.lr; momentum = op.momentum; }
            break;
        }
        case 1:
            c.text("saveAs");
            live.nn->saveAs(c.scratch() + "/network" + to_string(i) + ".snn");
            break;
        default:
            reincarnate(c, live.nn, 100);
        }
        describes(c, live.net, *live.nn, lr, momentum);
    }
    if (live.net.layers.size() > 1 && (live.net.hasOpts() || live.nn->getNumberOfTraining() > 0)) c.nontrivial();
}
