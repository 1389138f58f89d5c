#include "model.hpp"
#include <algorithm>
#include <bit>
#include <cmath>
#include <numeric>

using namespace std;
using namespace m;
namespace I = snn::internal;

static const double U = 6e-8;

// ---------------------------------------------------------------------------------------------
static int product(const vector<int>& v) { return accumulate(v.begin(), v.end(), 1, multiplies<>()); }

bool Net::finalize()
{
    vector<int> shape = input;
    for (L& l : layers)
    {
        l.idx.clear();
        l.nIn = product(shape);
        l.positions = 1;
        l.bias = 1.0f;
        if (l.kind == FC || l.kind == REC || l.kind == GRU)
        {
            l.in = {l.nIn};
            l.out = {l.n};
            l.neurons = l.n;
            l.perNeuron = l.nIn + (l.kind == FC ? 1 : 2);
        }
        else
        {
            if (shape.size() == 1) shape = {1, shape[0]};
            if (shape.size() > 3 || l.k < 1) return false;
            const bool two = shape.size() == 3;
            const int C = shape[0], X = shape[1], Y = two ? shape[2] : 1, k = l.k, ky = two ? k : 1;
            if (k > X || (two && k > Y)) return false;
            l.in = shape;
            const int stride = l.kind == CONV ? 1 : k;
            const int outX = l.kind == CONV ? X - k + 1 : (X + k - 1) / k;
            const int outY = !two ? 1 : l.kind == CONV ? Y - k + 1 : (Y + k - 1) / k;
            l.positions = outX * outY;
            l.out = {l.kind == POOL ? C : l.n, outX};
            if (two) l.out.push_back(outY);
            for (int py = 0; py < outY; ++py)
                for (int px = 0; px < outX; ++px)
                {
                    vector<int> w;
                    for (int y = 0; y < ky; ++y)
                        for (int x = 0; x < k; ++x)
                            for (int ch = 0; ch < C; ++ch)
                            {
                                const int ix = px * stride + x, iy = py * stride + y;
                                w.push_back(ix < X && iy < Y ? (iy * X + ix) * C + ch : -1);
                            }
                    l.idx.push_back(w);
                }
            l.bias = 0.001f;
            l.perNeuron = l.kind == POOL ? 0 : C * k * ky + 1;
            l.neurons = l.kind == POOL ? 0 : l.kind == CONV ? l.n : l.n * l.positions;
        }
        l.nOut = product(l.out);
        shape = l.out;
    }
    return true;
}

int Net::nIn() const { return product(input); }

int Net::parameters() const
{
    int n = 0;
    for (auto& l : layers) n += l.neurons * l.perNeuron * (l.kind == GRU ? 3 : 1);
    return n;
}
bool Net::has(Kind k) const { return ranges::any_of(layers, [k](auto& l) { return l.kind == k; }); }
bool Net::hasOpts() const { return ranges::any_of(layers, [](auto& l) { return !l.opts.empty(); }); }

static const char* actName(activation a)
{
    static const char* names[] = {"sigmoid", "iSigmoid", "tanh", "ReLU", "GELU", "gaussian", "identity"};
    return names[(int)a];
}

string Net::text() const
{
    ostringstream s;
    s << "Input" << pbt::str(input);
    for (auto& l : layers)
    {
        static const char* names[] = {"FullyConnected", "Recurrence", "GruLayer", "Convolution", "LocallyConnected", "MaxPooling"};
        s << " > " << names[l.kind] << "(";
        if (l.kind == POOL) s << l.k;
        else
        {
            s << l.n;
            if (l.kind == CONV || l.kind == LC) s << ", " << l.k;
            if (l.kind != GRU) s << ", " << actName(l.act);
        }
        for (auto& o : l.opts)
        {
            static const char* on[] = {"Dropout", "L1", "L2", "ErrorMultiplier", "Softmax"};
            s << ", " << on[o.type];
            if (o.type != SOFTMAX) s << "(" << o.value << ")";
        }
        s << ")";
    }
    s << " lr=" << lr << " momentum=" << momentum;
    return s.str();
}

snn::LayerOptimizerModel m::model(const Opt& o)
{
    switch (o.type)
    {
    case DROPOUT: return snn::Dropout(o.value);
    case L1: return snn::L1Regularization(o.value);
    case L2: return snn::L2Regularization(o.value);
    case MULT: return snn::ErrorMultiplier(o.value);
    default: return snn::Softmax();
    }
}

snn::LayerModel m::model(const L& l)
{
    // up to two optimizers are given the way a user does
    auto make = [&](auto... o) -> snn::LayerModel
    {
        switch (l.kind)
        {
        case FC: return snn::FullyConnected(l.n, l.act, o...);
        case REC: return snn::Recurrence(l.n, l.act, o...);
        case GRU: return snn::GruLayer(l.n, o...);
        case CONV: return snn::Convolution(l.n, l.k, l.act, o...);
        case LC: return snn::LocallyConnected(l.n, l.k, l.act, o...);
        default: return snn::MaxPooling(l.k);
        }
    };
    if (l.opts.size() == 1) return make(model(l.opts[0]));
    if (l.opts.size() == 2) return make(model(l.opts[0]), model(l.opts[1]));
    snn::LayerModel r = make();
    for (auto& o : l.opts) r.optimizers.push_back(model(o));
    return r;
}

snn::LayerModel m::inputModel(const vector<int>& s)
{
    switch (s.size())
    {
    case 0: return snn::Input();
    case 1: return snn::Input(s[0]);
    case 2: return snn::Input(s[0], s[1]);
    case 3: return snn::Input(s[0], s[1], s[2]);
    case 4: return snn::Input(s[0], s[1], s[2], s[3]);
    default: return snn::Input(s[0], s[1], s[2], s[3], s[4]);
    }
}

vector<snn::LayerModel> Net::models() const
{
    vector<snn::LayerModel> r{inputModel(input)};
    for (auto& l : layers) r.push_back(model(l));
    return r;
}

// ---------------------------------------------------------------------------------------------
Net m::genNet(pbt::Case& c, const Gen& limits)
{
    Net net;
    Gen g = limits;
    int channels = 4, filtersMost = 4, side = 7, length = 12, line = 20;
    switch (g.big ? c.weighted({93, 2, 2, 3}) : 0)
    {
    case 1: if (g.maxLayers >= 3) g.maxLayers = 10; break;
    case 2: g.maxNeurons = 48; channels = filtersMost = 9; break;
    case 3: g.maxInputs = max(g.maxInputs, 150); side = 14; length = 70; line = 150; break;
    default: break;
    }
    const bool filters = ranges::any_of(g.kinds, [](Kind k) { return k == CONV || k == LC || k == POOL; });
    const int dims = g.in2D ? 3 : filters ? c.weighted({2, 3, 4}) + 1 : c.weighted({8, 1, 1}) + 1;
    if (dims == 1)
        net.input = {c.ranged(1, min(line, g.maxInputs))};
    else if (dims == 2)
    {
        const int ch = c.ranged(1, channels);
        net.input = {ch, c.ranged(1, max(1, min(length, g.maxInputs / ch)))};
    }
    else
    {
        const int ch = c.ranged(1, channels);
        const int x = c.ranged(1, max(1, min(side, g.maxInputs / ch)));
        net.input = {ch, x, c.ranged(1, max(1, min(side, g.maxInputs / ch / x)))};
    }
    const int count = c.ranged(1, g.maxLayers);
    for (int i = 0; i < count; ++i)
    {
        const bool last = i == count - 1;
        L l;
        l.kind = c.pick(g.kinds);
        if (last && g.outputs > 0) l.kind = g.kinds.front();
        l.act = g.acts[c.draw((uint32_t)g.acts.size())];
        l.n = last && g.outputs > 0 ? g.outputs : c.ranged(1, g.maxNeurons);
        const vector<int> shape = net.layers.empty() ? net.input : net.layers.back().out;
        if (l.kind == CONV || l.kind == LC || l.kind == POOL)
        {
            const int x = shape.size() == 1 ? shape[0] : shape[1];
            const int most = shape.size() == 3 ? min(x, shape[2]) : x;
            l.k = c.ranged(1, most);
            l.n = min(l.n, filtersMost);
        }
        for (int o = g.opts.empty() || l.kind == POOL ? 0 : c.weighted({4, 3, 2, 1}); o > 0; --o)
        {
            Opt opt{g.opts[c.draw((uint32_t)g.opts.size())], 0};
            switch (opt.type)
            {
            case DROPOUT: opt.value = (float)c.range(0, 10) / 10.0f; break;
            case L1: case L2: opt.value = (float)c.range(0, 40) / 200.0f; break;
            case MULT: opt.value = (float)(c.range(0, 24) - 8) / 8.0f; break;
            default: break;
            }
            l.opts.push_back(opt);
        }
        net.layers.push_back(l);
        if (!net.finalize()) c.fail("the generator made an impossible layer"); // cannot happen
        if (g.noLc1dBug && lc1dBug(net, net.layers.size() - 1)) { net.layers.back().n = 1; net.finalize(); }
    }
    if (g.needParameters && net.parameters() == 0)
    {
        L l{FC, c.ranged(1, g.maxNeurons), 0, g.acts[c.draw((uint32_t)g.acts.size())]};
        net.layers.push_back(l);
        net.finalize();
    }
    net.lr = g.lrMax * (float)c.range(1, 64) / 64.0f;
    net.momentum = g.momentum && c.chance(80) ? (float)c.range(0, 16) / 16.0f : 0.0f;
    return net;
}

Net m::genHuge(pbt::Case& c, bool training)
{
    Net net;
    const bool two = c.chance(50);
    const int C = c.range(1, 3), limit = training ? 70000 : 140000;
    if (two)
    {
        const int X = c.range(60, 260), most = max(60, min(600, limit / C / X));
        net.input = {C, X, c.range(60, most)};
    }
    else net.input = {C, c.range(20000, limit / C)};
    const int count = c.range(1, 2);
    for (int i = 0; i < count; ++i)
    {
        const auto& shape = i ? net.layers.back().out : net.input;
        L l;
        l.kind = c.pick(i ? vector<Kind>{FC, FC, POOL, CONV, LC} : vector<Kind>{CONV, LC, POOL, FC});
        l.act = c.pick(vector<activation>{activation::identity, activation::tanh, activation::sigmoid});
        l.n = c.range(1, i || l.kind == FC ? 2 : 3);
        const int least = shape.size() == 1 ? shape[0] : shape.size() == 2 ? shape[1] : min(shape[1], shape[2]);
        const bool filter = l.kind == CONV || l.kind == LC || l.kind == POOL;
        if (filter) l.k = min(least, c.range(1, shape.size() == 3 ? 3 : 7));
        net.layers.push_back(l);
        net.finalize();
        if (net.layers.back().positions * net.layers.back().n > 200000) { net.layers.back().n = 1; net.finalize(); }
    }
    if (training && net.parameters() == 0)
    {
        net.layers.push_back(L{FC, 1, 0, activation::identity});
        net.finalize();
    }
    net.lr = 0.125f * (float)c.range(1, 7);
    return net;
}

bool m::lc1dBug(const Net& net, size_t i)
{
    const L& l = net.layers[i];
    return i > 0 && l.kind == LC && l.in.size() == 2 && l.n > 1 && l.positions > 1;
}

void m::stir(pbt::Case& c)
{
    const int n = (int)c.draw(256);
    for (int i = 0; i < n; ++i) (void)snn::tools::randomBetween(0.0f, 1.0f);
    snn::vector2D<float> in(3, vector<float>{0.0f}), out(3, vector<float>{0.0f});
    snn::Data d(snn::problem::regression, in, out);
    for (int i = 0; i < n % 16; ++i) d.shuffle();
    StraightforwardNeuralNetwork nn({snn::Input(1), snn::FullyConnected(1 + n / 8, activation::sigmoid, snn::Dropout(0.5f))});
}

static vector<float> fill(pbt::Case& c, size_t n, double amplitude)
{
    vector<float> v(n);
    if (n <= 40)
        for (auto& x : v) x = c.realf(amplitude);
    else // too many for one choice each
    {
        uint64_t s = (uint64_t)c.draw(1u << 30) + 1;
        const double a = amplitude * (1 + c.draw(4)) / 4;
        const bool coarse = c.chance(50); // few bits: sums of many products are exact
        const double power = exp2(floor(log2(amplitude))) / 16;
        for (auto& x : v)
        {
            s = s * 6364136223846793005ull + 1442695040888963407ull;
            if (coarse) { x = (float)(power * ((int)(s >> 59) - 16 + (int)(s >> 58 & 1))); continue; }
            x = (float)(a * ((double)(int32_t)(s >> 32) / 2147483648.0));
        }
    }
    return v;
}

vector<float> m::genVector(pbt::Case& c, int n, double amplitude) { return fill(c, (size_t)n, amplitude); }

Weights m::genWeights(pbt::Case& c, const Net& net, double amplitude)
{
    Weights w(net.layers.size());
    for (size_t i = 0; i < net.layers.size(); ++i)
    {
        const L& l = net.layers[i];
        const int gates = l.kind == GRU ? 3 : 1;
        const auto flat = fill(c, (size_t)(l.neurons * gates * l.perNeuron), amplitude);
        const bool unbiased = l.bias != 1.0f && c.chance(25); // the product of such a bias is never exact
        for (int n = 0; n < l.neurons * gates; ++n)
        {
            w[i].emplace_back(flat.begin() + n * l.perNeuron, flat.begin() + (n + 1) * l.perNeuron);
            if (l.bias != 1.0f) w[i].back().back() *= unbiased ? 0 : 400; // or the bias could not be seen
        }
    }
    return w;
}

Weights m::readWeights(I::NeuralNetwork& nn, const Net& net)
{
    Weights w(net.layers.size());
    for (size_t i = 0; i < net.layers.size(); ++i)
    {
        const L& l = net.layers[i];
        for (int n = 0; n < l.neurons; ++n)
        {
            void* p = nn.layers[i]->getNeuron(n);
            if (l.kind == REC) w[i].push_back(static_cast<I::RecurrentNeuron*>(p)->getWeights());
            else if (l.kind == GRU)
            {
                const auto all = static_cast<I::GatedRecurrentUnit*>(p)->getWeights();
                for (int g = 0; g < 3; ++g) w[i].emplace_back(all.begin() + g * l.perNeuron, all.begin() + (g + 1) * l.perNeuron);
            }
            else w[i].push_back(static_cast<I::SimpleNeuron*>(p)->getWeights());
        }
    }
    return w;
}

void m::writeWeights(I::NeuralNetwork& nn, const Net& net, const Weights& w)
{
    for (size_t i = 0; i < net.layers.size(); ++i)
    {
        const L& l = net.layers[i];
        if (l.kind == GRU) continue;
        for (int n = 0; n < l.neurons; ++n)
        {
            void* p = nn.layers[i]->getNeuron(n);
            if (l.kind == REC) static_cast<I::RecurrentNeuron*>(p)->setWeights(w[i][n]);
            else static_cast<I::SimpleNeuron*>(p)->setWeights(w[i][n]);
        }
    }
}

void m::setRate(I::NeuralNetwork& nn, float lr, float momentum)
{
    auto* sgd = dynamic_cast<I::StochasticGradientDescent*>(nn.optimizer.get());
    if (sgd == nullptr) throw runtime_error("the optimizer is not a stochastic gradient descent");
    sgd->learningRate = lr;
    sgd->momentum = momentum;
}

// ---------------------------------------------------------------------------------------------
// a result that single precision holds is exact
static bool held(double v) { return (double)(float)v == v && (v == 0 || fabs(v) > 1e-30) && fabs(v) < 1e30; }
E m::operator+(E a, E b)
{
    const double v = a.v + b.v;
    if (a.e == 0 && b.e == 0 && held(a.v) && held(b.v) && held(v) && v - a.v == b.v && v - b.v == a.v) return {v, 0};
    return {v, a.e + b.e + U * (fabs(v) + a.e + b.e)};
}
E m::operator-(E a, E b)
{
    const double v = a.v - b.v;
    if (a.e == 0 && b.e == 0 && held(a.v) && held(b.v) && held(v) && v + b.v == a.v && a.v - v == b.v) return {v, 0};
    return {v, a.e + b.e + U * (fabs(v) + a.e + b.e)};
}
E m::operator*(E a, E b)
{
    if (a.e == 0 && b.e == 0 && held(a.v) && held(b.v) && held(a.v * b.v)) return {a.v * b.v, 0};
    const double e = fabs(a.v) * b.e + fabs(b.v) * a.e + a.e * b.e;
    return {a.v * b.v, e + U * (fabs(a.v * b.v) + e) + 1e-38};
}
double Sum::lowest(double x)
{
    const auto bits = bit_cast<uint64_t>(x);
    const int exponent = (int)(bits >> 52 & 0x7ff);
    if (exponent == 0) return 1e-300;
    return ldexp(1.0, exponent - 1075 + countr_zero((bits & ((1ull << 52) - 1)) | 1ull << 52));
}

double m::exact(activation a, double x)
{
    switch (a)
    {
    case activation::sigmoid: return 1 / (1 + exp(-x));
    case activation::iSigmoid: return 1 / (1 + exp(-x)) + 0.05 * x;
    case activation::tanh: return tanh(x);
    case activation::ReLU: return x > 0 ? x : 0;
    case activation::GELU: return x / (1 + exp(-1.702 * x));
    case activation::gaussian: return exp(-x * x);
    default: return x;
    }
}

double m::exactDerivative(activation a, double x)
{
    const double s = 1 / (1 + exp(-x));
    switch (a)
    {
    case activation::sigmoid: return s * (1 - s);
    case activation::iSigmoid: return s * (1 - s) + 0.05;
    case activation::tanh: return 1 - tanh(x) * tanh(x);
    case activation::ReLU: return x > 0 ? 1 : 0;
    case activation::GELU:
    {
        const double g = 1 / (1 + exp(-1.702 * x));
        return g + 1.702 * x * g * (1 - g);
    }
    case activation::gaussian: return -2 * x * exp(-x * x);
    default: return 1;
    }
}

E m::activate(activation a, E x)
{
    static const double lipschitz[] = {0.25, 0.3, 1, 1, 1.2, 0.86, 1};
    E r{exact(a, x.v), lipschitz[(int)a] * x.e};
    switch (a)
    {
    case activation::ReLU:
        if (x.v + x.e < 0) r.e = 0;
        break;
    case activation::identity: break;
    case activation::GELU: r.e += 5e-7 * fabs(x.v); break;
    case activation::iSigmoid: r.e += 4e-7 + 1e-7 * fabs(x.v); break;
    default: r.e += 4e-7;
    }
    return r;
}

E m::derivative(activation a, E x, bool& ambiguous)
{
    static const double second[] = {0.1, 0.1, 0.77, 0, 1.5, 2, 0};
    if (a == activation::ReLU && fabs(x.v) <= 4 * x.e + 1e-30)
        ambiguous = true;
    E r{exactDerivative(a, x.v), second[(int)a] * x.e};
    switch (a)
    {
    case activation::ReLU: case activation::identity: break;
    case activation::GELU: r.e += 5e-7 + 1e-6 * fabs(x.v); break;
    default: r.e += 5e-7;
    }
    return r;
}

bool m::close(float actual, E expected, double slack)
{
    if (!(expected.e < 1e300)) return true; // not known: single precision overflows on the way
    return fabs((double)actual - expected.v) <= 4 * expected.e + 1e-6 * fabs(expected.v) + 1e-37 + slack;
}

vector<float> m::values(const vector<E>& v)
{
    vector<float> r;
    for (auto& x : v) r.push_back((float)x.v);
    return r;
}

string m::compare(const vector<float>& actual, const vector<E>& expected, double slack)
{
    if (actual.size() != expected.size()) return pbt::cat(actual.size(), " values instead of ", expected.size());
    for (size_t i = 0; i < actual.size(); ++i)
        if (!close(actual[i], expected[i], slack))
            return pbt::cat("value ", i, " is ", actual[i], " instead of ", expected[i].v, " (error bound ", expected[i].e, ")");
    return "";
}

bool m::same(const vector<float>& a, const vector<float>& b)
{
    return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(float)) == 0);
}

string m::str(const Weights& w)
{
    ostringstream s;
    for (auto& l : w)
    {
        s << "{";
        size_t shown = 0;
        for (auto& n : l)
        {
            if (shown++ == 6) { s << "..."; break; }
            s << pbt::str(n, 12);
        }
        s << "}";
    }
    return s.str();
}

// ---------------------------------------------------------------------------------------------
Sim::Sim(const Net& net, unsigned flags) : net(net), flags(flags), lr(net.lr), momentum(net.momentum)
{
    st.resize(net.layers.size());
    for (size_t i = 0; i < st.size(); ++i)
    {
        const L& l = net.layers[i];
        const int gates = l.kind == GRU ? 3 : 1;
        st[i].rec.resize((size_t)(l.neurons * gates));
        st[i].h.resize((size_t)l.neurons);
        st[i].u.resize((size_t)l.neurons);
        st[i].o.resize((size_t)l.neurons);
    }
    forget();
}

void Sim::forget()
{
    for (size_t i = 0; i < st.size(); ++i)
    {
        const L& l = net.layers[i];
        const int gates = l.kind == GRU ? 3 : 1;
        const int positions = l.kind == CONV ? l.positions : 1;
        st[i].prev.assign((size_t)(l.neurons * gates), vector<vector<E>>((size_t)positions, vector<E>((size_t)l.perNeuron)));
    }
}

void Sim::setWeights(const Weights& w)
{
    for (size_t i = 0; i < st.size(); ++i)
    {
        st[i].w.clear();
        for (auto& n : w[i]) st[i].w.emplace_back(n.begin(), n.end());
    }
}

static E dot(const vector<E>& w, const vector<E>& in, E extra1 = 0, E extra2 = 0)
{
    Sum s;
    for (size_t i = 0; i < in.size(); ++i) s.add(w[i] * in[i]);
    s.add(extra1);
    s.add(extra2);
    return s.get();
}

static vector<E> window(const vector<E>& in, const vector<int>& idx)
{
    vector<E> r;
    r.reserve(idx.size());
    for (int i : idx) r.push_back(i < 0 ? E(0) : in[(size_t)i]);
    return r;
}

static E recurrentOutput(Sim::Rec& r, const vector<E>& w, const vector<E>& in, activation act, E bias, bool reset, unsigned flags)
{
    if (reset)
    {
        r.previousOutput = r.recurrentError = r.previousSum = 0;
        if (!(flags & KF_RESET)) r.lastOutput = r.sum = 0;
    }
    r.previousSum = r.sum;
    r.previousOutput = r.lastOutput;
    r.sum = dot(w, in, w[in.size()] * r.previousOutput, w[in.size() + 1] * bias);
    const E out = activate(act, r.sum);
    r.lastOutput = out;
    return out;
}

vector<E> Sim::forward(const vector<float>& input, bool reset, bool training)
{
    vector<E> x(input.begin(), input.end());
    ambiguous = false;
    for (size_t i = 0; i < st.size(); ++i)
    {
        const L& l = net.layers[i];
        State& s = st[i];
        s.inputs = x;
        s.sums.assign((size_t)l.nOut, 0);
        s.outs.assign((size_t)l.nOut, 0);
        const E bias(l.bias);
        switch (l.kind)
        {
        case FC:
            for (int n = 0; n < l.n; ++n) s.sums[n] = dot(s.w[n], x, s.w[n].back() * bias);
            break;
        case CONV:
        case LC:
            for (int p = 0, o = 0; p < l.positions; ++p)
            {
                const auto in = window(x, l.idx[p]);
                for (int f = 0; f < l.n; ++f, ++o)
                {
                    const auto& w = s.w[l.kind == CONV ? f : o];
                    s.sums[o] = dot(w, in, w.back() * bias);
                }
            }
            break;
        case POOL:
            s.chosen.assign((size_t)l.nOut, 0);
            for (int p = 0; p < l.positions; ++p)
                for (int ch = 0; ch < l.out[0]; ++ch)
                {
                    int best = -1;
                    for (int j : l.idx[p])
                        if (j >= 0 && j % l.in[0] == ch && (best < 0 || x[j].v >= x[best].v)) best = j;
                    E value = x[best];
                    for (int j : l.idx[p])
                        if (j >= 0 && j % l.in[0] == ch && j != best && x[j].v + x[j].e >= x[best].v - x[best].e)
                        {
                            value.e = max(value.e, x[j].e); // any of them
                            const bool dead = i > 0 && net.layers[i - 1].kind != POOL && net.layers[i - 1].act == activation::ReLU && x[j].v == 0 && x[best].v == 0;
                            if (!dead && i > 0) ambiguous = true;
                        }
                    s.chosen[p * l.out[0] + ch] = best;
                    s.outs[p * l.out[0] + ch] = value;
                }
            break;
        case REC:
            for (int n = 0; n < l.n; ++n)
            {
                s.outs[n] = recurrentOutput(s.rec[n], s.w[n], x, l.act, bias, reset, flags);
                s.sums[n] = s.rec[n].sum;
            }
            break;
        case GRU:
            for (int n = 0; n < l.n; ++n)
            {
                Rec& rg = s.rec[3 * n];
                Rec& ug = s.rec[3 * n + 1];
                Rec& og = s.rec[3 * n + 2];
                if (reset) s.h[n] = 0;
                const E r = recurrentOutput(rg, s.w[3 * n], x, activation::sigmoid, bias, reset, flags);
                s.u[n] = recurrentOutput(ug, s.w[3 * n + 1], x, activation::sigmoid, bias, reset, flags);
                og.lastOutput = og.lastOutput * r;
                s.o[n] = recurrentOutput(og, s.w[3 * n + 2], x, activation::tanh, bias, reset, flags);
                const E h = flags & KF_GRU_FORWARD ? E(0) : s.h[n];
                const E out = (E(1) - s.u[n]) * h + s.u[n] * s.o[n];
                rg.lastOutput = ug.lastOutput = og.lastOutput = out;
                s.outs[n] = out;
            }
            break;
        }
        if (l.kind == FC || l.kind == CONV || l.kind == LC)
            for (size_t o = 0; o < s.outs.size(); ++o) s.outs[o] = activate(l.act, s.sums[o]);
        auto great = [](const E& v) { return !(v.e < 1e30) || !(fabs(v.v) < 1e30); };
        overflow = overflow || ranges::any_of(s.sums, great) || ranges::any_of(s.outs, great) || ranges::any_of(s.rec, [&](auto& r) { return great(r.sum) || great(r.lastOutput); });
        if (overflow)
            for (auto& v : s.outs) v.e = INFINITY;
        s.raw = s.outs;
        x = s.outs;
        for (auto& o : l.opts)
        {
            if (o.type == DROPOUT)
                for (size_t j = 0; j < x.size(); ++j)
                    x[j] = x[j] * (training ? E(s.mask.empty() ? 1.0 : s.mask[j]) : E(1 - (double)o.value, 1e-7));
            if (o.type == SOFTMAX)
            {
                double mx = -INFINITY, e = 0;
                for (auto& v : x) mx = max(mx, v.v);
                for (auto& v : x) e = max(e, v.e + U * (fabs(v.v) + fabs(mx)));
                double sum = 0;
                for (auto& v : x) sum += exp(v.v - mx);
                const double n = (double)x.size();
                for (auto& v : x)
                {
                    const double p = exp(v.v - mx) / sum;
                    v = {p, min(1.0, p * (expm1(2 * e) + U * (n + 20)) + 1e-37)};
                }
            }
        }
        if (overflow)
            for (auto& v : x) v.e = INFINITY;
        s.outs = x;
    }
    // GRU: the output becomes the previous one
    for (size_t i = 0; i < st.size(); ++i)
        if (net.layers[i].kind == GRU)
            st[i].maskApplied = st[i].h, st[i].h = st[i].raw; // maskApplied keeps h_{t-1} for the gradient
    return x;
}

void Sim::recurrentUpdate(State& s, size_t g, E error, const L& l)
{
    // the gate g receives the error of its weighted sum
    auto& w = s.w[g];
    auto& prev = s.prev[g][0];
    Rec& r = s.rec[g];
    const size_t n = (size_t)l.nIn;
    const E rate(lr), mom(momentum);
    vector<E> d(n + 2);
    for (size_t i = 0; i < n; ++i) d[i] = rate * error * s.inputs[i] + mom * prev[i];
    if (flags & KF_REC_SGD)
    {
        const E db = rate * error * E(l.bias) + mom * prev[n];
        w[n] = w[n] + db;
        bool unused = false;
        const activation act = l.kind == GRU ? (g % 3 == 2 ? activation::tanh : activation::sigmoid) : l.act;
        const E rec = r.recurrentError * derivative(act, r.previousSum, unused) * w[n];
        if (unused && (r.recurrentError.v != 0)) ambiguous = true;
        r.recurrentError = error + rec;
        d[n] = rate * r.recurrentError * r.previousOutput + mom * prev[n];
    }
    else
    {
        d[n] = rate * error * r.previousOutput + mom * prev[n];
        d[n + 1] = rate * error * E(l.bias) + mom * prev[n + 1];
    }
    for (size_t i = 0; i < n + 2; ++i) w[i] = w[i] + d[i];
    prev = d;
}

vector<E> Sim::back(size_t i, vector<E> errors, bool first)
{
    const L& l = net.layers[i];
    State& s = st[i];
    for (auto& o : l.opts)
    {
        Sum a;
        if (o.type == L1 || o.type == L2)
        {
            for (auto& n : s.w)
                for (auto& w : n) a.add(o.type == L1 ? E(fabs(w.v), w.e) : w * w);
        }
        for (size_t j = 0; j < errors.size(); ++j)
        {
            if (o.type == DROPOUT && !s.mask.empty()) errors[j] = errors[j] * E(s.mask[j]);
            if (o.type == MULT) errors[j] = errors[j] * E(o.value);
            if (o.type == L1 || o.type == L2)
                errors[j] = errors[j] + E(o.value) * (a.get() * E(1.0 / l.neurons, U / l.neurons));
        }
    }
    vector<Sum> in((size_t)l.nIn);
    const E mom(momentum);
    switch (l.kind)
    {
    case FC:
    case LC:
    case CONV:
    {
        const int shares = l.kind == CONV ? l.positions : 1;
        const E rate((double)lr / shares, shares == 1 ? 0 : U * lr);
        const auto before = s.w;
        for (int p = 0, o = 0; p < (l.kind == FC ? 1 : l.positions); ++p)
            for (int f = 0; f < l.n; ++f, ++o)
            {
                const size_t n = (size_t)(l.kind == CONV ? f : o);
                auto& w = s.w[n];
                const auto& seen = flags & CONV_SEQUENTIAL ? w : before[n];
                const E error = errors[o] * derivative(l.act, s.sums[o], ambiguous);
                const size_t count = w.size() - 1;
                auto& prev = s.prev[n][l.kind == CONV ? p : 0];
                for (size_t j = 0; j < count && !first; ++j)
                {
                    int where = (int)j;
                    if (l.kind != FC)
                    {
                        const size_t place = l.kind == LC && l.in.size() == 2 && (flags & KF_LC1D) ? (size_t)o % (size_t)l.positions : (size_t)p;
                        where = l.idx[place][j];
                    }
                    if (where >= 0) in[where].add(error * seen[j]);
                }
                for (size_t j = 0; j <= count; ++j)
                {
                    E x(l.bias);
                    if (j < count)
                    {
                        const int where = l.kind == FC ? (int)j : l.idx[p][j];
                        x = where < 0 ? E(0) : s.inputs[where];
                    }
                    const E d = rate * error * x + mom * prev[j];
                    w[j] = w[j] + d;
                    prev[j] = d;
                }
            }
        break;
    }
    case POOL:
        for (size_t o = 0; o < errors.size(); ++o) in[s.chosen[o]].add(errors[o]);
        break;
    case REC:
        for (int n = 0; n < l.n; ++n)
        {
            const E error = errors[n] * derivative(l.act, s.sums[n], ambiguous);
            for (int j = 0; j < l.nIn; ++j) in[j].add(error * s.w[n][j]);
            recurrentUpdate(s, (size_t)n, error, l);
        }
        break;
    case GRU:
        for (int n = 0; n < l.n; ++n)
        {
            bool unused = false;
            const E h = flags & KF_GRU_FORWARD ? E(0) : s.maskApplied[n];
            const E e = errors[n];
            const E dO = e * s.u[n];
            const E dU = flags & KF_GRU_GRADIENT ? e * s.o[n] + e * s.u[n] : e * (s.o[n] - h);
            const E eo = dO * derivative(activation::tanh, s.rec[3 * n + 2].sum, unused);
            const E eu = dU * derivative(activation::sigmoid, s.rec[3 * n + 1].sum, unused);
            const auto& wo = s.w[3 * n + 2];
            const E dR = (flags & KF_GRU_GRADIENT ? eo * wo[l.nIn - 1] : eo * wo[l.nIn]) * h;
            const E er = dR * derivative(activation::sigmoid, s.rec[3 * n].sum, unused);
            for (int j = 0; j < l.nIn; ++j)
            {
                in[j].add(eo * wo[j]);
                in[j].add(eu * s.w[3 * n + 1][j]);
                in[j].add(er * s.w[3 * n][j]);
            }
            recurrentUpdate(s, (size_t)(3 * n + 2), eo, l);
            recurrentUpdate(s, (size_t)(3 * n + 1), eu, l);
            recurrentUpdate(s, (size_t)(3 * n), er, l);
        }
        break;
    }
    vector<E> r;
    for (auto& x : in) r.push_back(x.get());
    return r;
}

void Sim::learn(const vector<float>& desired)
{
    vector<E> errors;
    for (size_t i = 0; i < desired.size(); ++i) errors.push_back(E(2) * (E(desired[i]) - st.back().outs[i]));
    for (size_t i = st.size(); i-- > 0;) errors = back(i, errors, i == 0);
}

string Sim::compare(const Weights& actual, const Weights* before) const
{
    // single precision may have overflowed in between
    auto huge = [](const E& x) { return !(x.e < 1e3) || !(fabs(x.v) < 1e12); };
    for (auto& s : st)
    {
        for (auto& n : s.w) if (ranges::any_of(n, huge)) return "";
        if (ranges::any_of(s.outs, huge) || ranges::any_of(s.sums, huge)) return "";
    }
    for (size_t i = 0; i < st.size(); ++i)
        for (size_t n = 0; n < st[i].w.size(); ++n)
        {
            if (actual[i][n].size() != st[i].w[n].size()) return pbt::cat("layer ", i, " neuron ", n, " has ", actual[i][n].size(), " weights instead of ", st[i].w[n].size());
            for (size_t j = 0; j < st[i].w[n].size(); ++j)
            {
                const E& w = st[i].w[n][j];
                const double around = before ? fabs((*before)[i][n][j]) : fabs(w.v);
                if (!(fabs((double)actual[i][n][j] - w.v) <= 4 * w.e + 2 * U * (fabs(w.v) + around) + 1e-37))
                {
                    string r = pbt::cat("layer ", i, net.layers[i].kind == GRU ? " gate " : " neuron ", n, " weight ", j, " is ", actual[i][n][j], " instead of ", w.v, " (error bound ", w.e);
                    if (before) r += pbt::cat(", it was ", (*before)[i][n][j]);
                    return r + ")";
                }
            }
        }
    return "";
}

bool Sim::fuzzy(double limit) const
{
    auto bad = [&](const E& x) { return !(x.e <= limit * max(1.0, fabs(x.v))) || !(fabs(x.v) < 1e4); };
    for (auto& s : st)
    {
        for (auto& x : s.outs) if (bad(x)) return true;
        for (auto& x : s.sums) if (bad(x)) return true;
        for (auto& n : s.w) for (auto& x : n) if (bad(x)) return true;
        for (auto& r : s.rec) if (bad(r.lastOutput) || bad(r.recurrentError) || bad(r.sum)) return true;
    }
    return false;
}

// ---------------------------------------------------------------------------------------------
unique_ptr<snn::Data> DataSpec::build() const
{
    unique_ptr<snn::Data> d;
    auto ti = trainIn, to = trainOut, si = testIn, so = testOut;
    if (nature == snn::nature::sequential)
    {
        auto cut = [](const snn::vector2D<float>& rows, const vector<int>& lengths)
        {
            snn::vector3D<float> r;
            size_t i = 0;
            for (int n : lengths)
            {
                r.emplace_back(rows.begin() + (long)i, rows.begin() + (long)i + n);
                i += (size_t)n;
            }
            return r;
        };
        auto a = cut(ti, trainSeq), b = cut(si, testSeq);
        d = shared ? make_unique<snn::Data>(problem, a, to, nature, recurrences) : make_unique<snn::Data>(problem, a, to, b, so, nature, recurrences);
    }
    else
        d = shared ? make_unique<snn::Data>(problem, ti, to, nature, recurrences) : make_unique<snn::Data>(problem, ti, to, si, so, nature, recurrences);
    if (setOptions)
    {
        if (problem == snn::problem::regression) d->setPrecision(precision);
        else d->setSeparator(separator);
    }
    return d;
}

static bool starts(const vector<int>& seq, int i)
{
    int at = 0;
    for (int n : seq)
    {
        if (i == at) return true;
        at += n;
    }
    return false;
}
static bool ends(const vector<int>& seq, int i)
{
    int at = 0;
    for (int n : seq)
    {
        at += n;
        if (i == at - 1) return true;
    }
    return false;
}
bool DataSpec::resetTrain(int i) const { return nature == snn::nature::nonTemporal || (nature == snn::nature::sequential && starts(trainSeq, i)); }
bool DataSpec::resetTest(int i) const
{
    if (nature == snn::nature::sequential) return starts(testSeq, i);
    return nature == snn::nature::timeSeries && i == 0;
}
bool DataSpec::needTest(int i) const { return nature != snn::nature::sequential || ends(testSeq, i); }

string DataSpec::text() const
{
    static const char* p[] = {"classification", "multipleClassification", "regression"};
    static const char* n[] = {"nonTemporal", "sequential", "timeSeries"};
    ostringstream s;
    s << "data: " << p[(int)problem] << " " << n[(int)nature] << " training " << trainIn.size() << " testing " << testIn.size() << (shared ? " (shared)" : "");
    if (nature == snn::nature::sequential) s << " sequences " << pbt::str(trainSeq) << " / " << pbt::str(testSeq);
    if (nature == snn::nature::timeSeries) s << " recurrences " << recurrences;
    if (setOptions) s << (problem == snn::problem::regression ? " precision " : " separator ") << (problem == snn::problem::regression ? precision : separator);
    return s.str();
}

DataSpec m::genData(pbt::Case& c, int nIn, int nOut, const DataGen& g)
{
    DataSpec d;
    d.problem = c.pick(g.problems);
    if (d.problem == snn::problem::classification && nOut < 2) d.problem = snn::problem::regression; // one class is refused
    d.nature = c.pick(g.natures);
    d.shared = c.chance(25);
    auto rows = [&](int count, int n, double a)
    {
        snn::vector2D<float> r;
        for (int i = 0; i < count; ++i) r.push_back(genVector(c, n, a));
        return r;
    };
    auto labels = [&](int count)
    {
        if (d.problem == snn::problem::regression) return rows(count, nOut, 1);
        snn::vector2D<float> r;
        for (int i = 0; i < count; ++i)
        {
            vector<float> v((size_t)nOut, 0.0f);
            if (d.problem == snn::problem::classification) v[c.draw((uint32_t)nOut)] = 1;
            else for (auto& x : v) x = c.chance(50) ? 1.0f : 0.0f;
            r.push_back(v);
        }
        return r;
    };
    const bool big = g.big && c.chance(6);
    const int longest = big ? 25 : 4;
    auto lengths = [&](int& count)
    {
        vector<int> r;
        int left = count;
        while (left > 0) { r.push_back(c.range(1, min(left, longest))); left -= r.back(); }
        return r;
    };
    int train = c.ranged(1, big ? max(70, g.maxTrain) : g.maxTrain), test = c.ranged(g.emptyTest ? 0 : 1, big ? max(40, g.maxTest) : g.maxTest);
    if (d.nature == snn::nature::sequential)
    {
        // one label for each element of the sequences
        d.trainSeq = lengths(train);
        d.testSeq = d.shared ? d.trainSeq : lengths(test);
    }
    if (d.nature == snn::nature::timeSeries) d.recurrences = c.range(1, big ? 20 : 4);
    d.trainIn = rows(train, nIn, g.amplitude);
    d.trainOut = labels(train);
    if (d.shared) { d.testIn = d.trainIn; d.testOut = d.trainOut; }
    else { d.testIn = rows(test, nIn, g.amplitude); d.testOut = labels(test); }
    d.setOptions = c.chance(40);
    d.separator = (float)c.range(1, 9) / 10.0f;
    d.precision = (float)c.range(1, 16) / 16.0f;
    return d;
}

// ---------------------------------------------------------------------------------------------
unsigned m::relevant(const Net& net, bool learning)
{
    unsigned f = 0;
    if (net.temporal()) f |= KF_RESET;
    if (net.has(GRU)) f |= KF_GRU_FORWARD;
    if (learning && net.temporal()) f |= KF_REC_SGD;
    if (learning && net.has(GRU)) f |= KF_GRU_GRADIENT;
    if (learning)
        for (size_t i = 0; i < net.layers.size(); ++i)
            if (lc1dBug(net, i)) f |= KF_LC1D;
    return f;
}

Variants::Variants(const Net& net, unsigned known, bool learning)
{
    if (learning)
        for (auto& l : net.layers)
            if (l.kind == CONV && l.positions > 1) known |= CONV_SEQUENTIAL;
    // all subsets, those with few known defects first
    vector<unsigned> subsets;
    for (unsigned s = known;; s = (s - 1) & known)
    {
        subsets.push_back(s);
        if (s == 0) break;
    }
    ranges::stable_sort(subsets, {}, [](unsigned s) { return __builtin_popcount(s & ~CONV_SEQUENTIAL); });
    for (unsigned s : subsets) sims.emplace_back(net, s);
    difference.resize(sims.size());
}

void Variants::stopIfDead(pbt::Case& c)
{
    if (!alive()) finish(c);
}

void Variants::finish(pbt::Case& c)
{
    static const pair<unsigned, const char*> names[] = {{KF_RESET, "KF-reset"}, {KF_GRU_FORWARD, "KF-gru-forward"}, {KF_REC_SGD, "KF-rec-sgd"}, {KF_GRU_GRADIENT, "KF-gru-gradient"}, {KF_LC1D, "KF-lc1d-back"}};
    c.count(step);
    for (size_t i = 0; i < sims.size(); ++i)
        if (difference[i].empty())
        {
            for (auto& [f, n] : names)
                if (sims[i].flags & f) { if (report) c.known(n); else c.label(string("with ") + n); }
            return;
        }
    string all;
    for (size_t i = 0; i < sims.size(); ++i)
        if (i == 0 || i + 1 == sims.size()) all += pbt::cat(i == 0 ? "expected: " : "\nwith the known defects: ", difference[i]);
    c.fail(all);
}
