// C24 Every activation function agrees with its derivative, formula and range
#include "model.hpp"
#include <cfloat>
#include <snn/neural_network/layer/neuron/activation_function/ActivationFunction.hpp>
using namespace m;
using namespace std;
using snn::internal::ActivationFunction;

namespace
{
    const vector<activation> ALL{activation::sigmoid, activation::iSigmoid, activation::tanh, activation::ReLU, activation::GELU, activation::gaussian, activation::identity};
    const char* NAMES[] = {"sigmoid", "iSigmoid", "tanh", "ReLU", "GELU", "gaussian", "identity"};

    float fromBits(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
    uint32_t bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
    bool finite(float f) { return (bits(f) & 0x7f800000u) != 0x7f800000u; }

    float genInput(pbt::Case& c)
    {
        switch (c.weighted({4, 3, 3, 2, 2, 2}))
        {
        case 0: return c.realf(4);
        case 1: return c.realf(20);
        case 2: // any exponent
        {
            uint32_t u = c.draw(255) << 23 | (c.draw(1u << 16) << 7);
            return fromBits(u | (c.chance(50) ? 0x80000000u : 0));
        }
        case 3: return c.realf(1e-3);
        case 4: return c.pick(vector<float>{0.0f, fromBits(0x80000000u), FLT_MIN, -FLT_MIN, FLT_MAX, -FLT_MAX, 1e38f, -1e38f, 1.0f, -1.0f, 88.0f, -88.0f, 89.0f, -89.0f, 104.0f, -104.0f, 709.0f, -709.0f, 1e10f, -1e10f, 1e20f, -1e20f});
        default: return c.realf(200);
        }
    }

    double valueError(activation a, double x)
    {
        switch (a)
        {
        case activation::identity: case activation::ReLU: return 0;
        case activation::GELU: return 1e-6 * min(fabs(x), 1e3) + 3e-7 * fabs(exact(a, x));
        case activation::iSigmoid: return 5e-7 + 2e-7 * fabs(x) * 0.05;
        default: return 5e-7;
        }
    }
    double derivativeError(activation a, double x)
    {
        switch (a)
        {
        case activation::identity: case activation::ReLU: return 0;
        case activation::GELU: return 1e-6 + 1e-6 * min(fabs(x), 100.0);
        default: return 1e-6;
        }
    }
    bool monotonic(activation a) { return a != activation::GELU && a != activation::gaussian; }
}

PROPERTY(C24, pointwise, 20000, 1000000, "an input other than 0 where the function is neither constant nor saturated")
{
    const int which = (int)c.draw((uint32_t)ALL.size());
    const auto a = ALL[which];
    const auto f = ActivationFunction::get(a);
    c.label(NAMES[which]);
    float x = genInput(c);
    if (a == activation::GELU && fabs(x) > 1e38f) x /= 4; // x * (1 + tanh(x)) / 2 overflows in between
    c.text(pbt::cat(NAMES[which], "(", x, ")"));
    const float y = f->function(x), d = f->derivative(x);
    const double expected = exact(a, x), slope = exactDerivative(a, x);
    c.check(finite(y) && finite(d), pbt::cat("value ", y, " and derivative ", d, " instead of ", expected, " and ", slope));
    c.check(fabs(y - expected) <= valueError(a, x) + 1e-37, pbt::cat("the value is ", y, " instead of ", expected));
    if (a != activation::ReLU || fabs(x) > 1e-37)
    {
        c.check(fabs(d - slope) <= derivativeError(a, x), pbt::cat("the derivative is ", d, " instead of ", slope));
        // and as the slope of the formula
        const double h = 1e-5;
        if (fabs(x) < 1e3 && (a != activation::ReLU || fabs(x) > 2 * h))
        {
            const double difference = (exact(a, x + h) - exact(a, x - h)) / (2 * h);
            c.check(fabs(d - difference) <= derivativeError(a, x) + 1e-5, pbt::cat("the derivative is ", d, " and the slope of the function ", difference));
        }
    }
    c.check(y >= f->min - 2e-7 && y <= f->max + 2e-7, pbt::cat("the value ", y, " is not between ", f->min, " and ", f->max));
    if (x != 0 && fabs(slope) > 1e-3) c.nontrivial();
}

PROPERTY(C24, pairs, 10000, 500000, "two inputs where the function is not saturated")
{
    const int which = (int)c.draw((uint32_t)ALL.size());
    const auto a = ALL[which];
    const auto f = ActivationFunction::get(a);
    float x = genInput(c), y = c.chance(50) ? genInput(c) : x + c.realf(0.01);
    if (a == activation::GELU && fabs(x) > 1e38f) x /= 4;
    if (a == activation::GELU && fabs(y) > 1e38f) y /= 4;
    if (x > y) swap(x, y);
    c.text(pbt::cat(NAMES[which], " at ", x, " and ", y));
    const double fx = f->function(x), fy = f->function(y);
    if (monotonic(a)) c.check(fx <= fy + valueError(a, x) + valueError(a, y), pbt::cat("not monotonic: ", fx, " then ", fy));
    // the function is even, odd or neither
    const double minus = f->function(-x);
    if (a == activation::gaussian) c.check(fabs(fx - minus) < 1e-6, pbt::cat("not even: ", fx, " and ", minus));
    if (a == activation::tanh) c.check(fabs(fx + minus) < 1e-6, pbt::cat("not odd: ", fx, " and ", minus));
    if (a == activation::sigmoid) c.check(fabs(fx + minus - 1) < 1e-6, pbt::cat("f(x) + f(-x) is not 1: ", fx, " and ", minus));
    // the mean value theorem: the increase is that of the derivatives in between
    if (fabs(x) < 30 && fabs(y) < 30 && y - x < 0.5 && y - x > 1e-3 && (a != activation::ReLU || x * y > 0))
    {
        double sum = 0;
        const int n = 200;
        for (int i = 0; i < n; ++i) sum += f->derivative((float)(x + (y - (double)x) * (i + 0.5) / n)) / n;
        c.check(fabs((fy - fx) - sum * (y - (double)x)) <= 1e-5 + 1e-6 * fabs(x), pbt::cat("increases by ", fy - fx, " while the integral of the derivative is ", sum * (y - (double)x)));
        c.nontrivial();
    }
}

PROPERTY(C24, identities, 300, 1000, "two different activations")
{
    const int i = (int)c.draw((uint32_t)ALL.size()), j = (int)c.draw((uint32_t)ALL.size());
    const auto f = ActivationFunction::get(ALL[i]), g = ActivationFunction::get(ALL[j]);
    c.text(pbt::cat(NAMES[i], " and ", NAMES[j]));
    c.check(f->getName() == NAMES[i], pbt::cat(NAMES[i], " is reported as ", f->getName()));
    c.check(f->getType() == ALL[i], pbt::cat(NAMES[i], " has the type ", (int)f->getType()));
    c.check((*f == *g) == (i == j) && (*f != *g) == (i != j), "equality");
    if (i != j) c.nontrivial();
    // the bounds are the least and greatest values
    double least = INFINITY, greatest = -INFINITY;
    for (double x = -60; x <= 60; x += 0.001) { least = min(least, exact(ALL[i], x)); greatest = max(greatest, exact(ALL[i], x)); }
    const bool down = ALL[i] == activation::iSigmoid || ALL[i] == activation::identity, up = down || ALL[i] == activation::ReLU || ALL[i] == activation::GELU;
    if (down) c.check(bits(f->min) == 0xff800000u, pbt::cat("the minimum is ", f->min));
    else c.check(fabs(f->min - least) < 1e-4, pbt::cat("the minimum is ", f->min, " instead of ", least));
    if (up) c.check(bits(f->max) == 0x7f800000u, pbt::cat("the maximum is ", f->max));
    else c.check(fabs(f->max - greatest) < 1e-4, pbt::cat("the maximum is ", f->max, " instead of ", greatest));
}

PROPERTY(C24, layers, 3000, 100000, "a layer of several neurons")
{
    // the activation of a layer is the one that was asked for, in every kind of layer, and is named in the summary
    stir(c);
    Gen g;
    g.kinds = {FC, CONV, LC, REC};
    g.maxLayers = 1;
    g.maxInputs = 8;
    Net net = genNet(c, g);
    auto nn = net.build();
    const auto in = genVector(c, net.nIn(), 1);
    auto w = genWeights(c, net, c.pick(vector<double>{1, 10, 100}));
    writeWeights(*nn, net, w);
    c.text(net.text());
    const auto out = nn->computeOutput(in, true);
    const L& l = net.layers[0];
    for (int o = 0; o < l.nOut; ++o)
    {
        const int n = l.kind == CONV ? o % l.n : o, p = l.kind == FC || l.kind == REC ? 0 : o / l.n;
        double sum = w[0][n].back() * (double)l.bias, abs = fabs(sum);
        const int inputs = l.kind == FC || l.kind == REC ? l.nIn : (int)l.idx[p].size();
        for (int i = 0; i < inputs; ++i)
        {
            const int from = l.kind == FC || l.kind == REC ? i : l.idx[p][i];
            const double t = from < 0 ? 0 : (double)in[from] * w[0][n][i];
            sum += t;
            abs += fabs(t);
        }
        const double expected = exact(l.act, sum), error = 2e-6 * abs * 1.3 + valueError(l.act, sum);
        if (l.act == activation::ReLU && fabs(sum) < 1e-6 * abs) continue;
        c.check(fabs(out[o] - expected) <= error + 1e-6 * fabs(expected), pbt::cat("output ", o, " is ", out[o], " instead of ", expected, " = ", NAMES[(int)l.act], "(", sum, ")"));
    }
    c.check(nn->summary().find(NAMES[(int)l.act]) != string::npos, string("the summary does not name ") + NAMES[(int)l.act]);
    if (l.neurons > 1) c.nontrivial();
}
