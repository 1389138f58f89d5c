#include "model.hpp"
#include <bit>
#include <cmath>
#include <filesystem>
#include <fstream>
using namespace std;
using namespace m;

string Op::text() const
{
    switch (kind)
    {
    case INFER: return pbt::cat("computeOutput", reset ? " with reset " : " ", pbt::str(in, 4));
    case CLUSTER: return pbt::cat("computeCluster", reset ? " with reset " : " ", pbt::str(in, 4));
    case TRAIN_ONCE: return pbt::cat("trainOnce", reset ? " with reset " : " ", pbt::str(in, 4), " -> ", pbt::str(desired, 4));
    case EVALUATE: return "evaluate";
    case TRAIN: return pbt::cat("train ", n, " epochs, batch ", batch, ", evaluation frequency ", frequency);
    case SHUFFLE: return "shuffle";
    case RATE: return pbt::cat("learning rate ", lr, " momentum ", momentum);
    case SET: return pbt::cat("setNumberOfTrainingsBetweenTwoEvaluations ", n);
    case SUMMARY: return "summary";
    }
    return "";
}

Op m::genOp(pbt::Case& c, const Net& net, const DataSpec& d, const vector<Op::Kind>& kinds)
{
    Op op{c.pick(kinds)};
    switch (op.kind)
    {
    case Op::TRAIN_ONCE:
        op.desired = genVector(c, net.nOut(), 1);
        [[fallthrough]];
    case Op::INFER: case Op::CLUSTER:
        op.in = genVector(c, net.nIn(), 1);
        op.reset = c.chance(40);
        break;
    case Op::TRAIN:
        op.n = c.chance(5) ? c.range(3, 12) : c.range(1, 2);
        op.batch = d.nature == snn::nature::nonTemporal ? c.range(1, min(c.chance(10) ? 40 : 3, (int)d.trainIn.size())) : 1;
        op.frequency = c.range(0, 2);
        break;
    case Op::RATE:
        op.lr = 0.1f * (float)c.range(1, 16) / 16.0f;
        op.momentum = (float)c.range(0, 8) / 16.0f;
        break;
    case Op::SET: op.n = c.range(0, 50); break;
    default: break;
    }
    return op;
}

vector<Op> m::genOps(pbt::Case& c, const Net& net, const DataSpec& d, int count, const vector<Op::Kind>& kinds)
{
    vector<Op> r;
    for (int i = 0; i < count; ++i) r.push_back(genOp(c, net, d, kinds));
    return r;
}

string m::text(const vector<Op>& ops)
{
    string r;
    for (auto& o : ops) r += (r.empty() ? "" : "; ") + o.text();
    return r.empty() ? "nothing" : r;
}

vector<float> m::stats(const StraightforwardNeuralNetwork& nn)
{
    return {nn.getGlobalClusteringRate(), nn.getWeightedClusteringRate(), nn.getF1Score(), nn.getMeanAbsoluteError(), nn.getRootMeanSquaredError(),
            nn.getGlobalClusteringRateMax(), nn.getWeightedClusteringRateMax(), nn.getF1ScoreMax(), nn.getMeanAbsoluteErrorMin(), nn.getRootMeanSquaredErrorMin()};
}
string m::statsText(const StraightforwardNeuralNetwork& nn) { return pbt::str(stats(nn)); }

vector<float> m::observe(const Net& net, StraightforwardNeuralNetwork& nn)
{
    vector<float> r = stats(nn);
    for (double x : {(double)nn.getNumberOfTraining(), (double)nn.getCurrentEpoch(), (double)nn.getCurrentIndex(), (double)nn.getNumberOfTrainingsBetweenTwoEvaluations(),
                     (double)nn.getNumberOfLayers(), (double)nn.getNumberOfInputs(), (double)nn.getNumberOfOutputs(), (double)nn.getNumberOfNeurons(),
                     (double)nn.getNumberOfParameters(), (double)nn.isTraining(), (double)nn.hasNan(), (double)nn.isValid(), (double)nn.autoSaveWhenBetter})
        r.push_back((float)x);
    if (auto* sgd = dynamic_cast<snn::internal::StochasticGradientDescent*>(nn.optimizer.get())) { r.push_back(sgd->learningRate); r.push_back(sgd->momentum); }
    for (auto& l : readWeights(nn, net))
        for (auto& n : l) r.insert(r.end(), n.begin(), n.end());
    return r;
}

void m::apply(const Op& op, const Net& net, StraightforwardNeuralNetwork& nn, snn::Data& data, vector<float>& log)
{
    switch (op.kind)
    {
    case Op::INFER:
    {
        const auto out = nn.computeOutput(op.in, op.reset);
        log.insert(log.end(), out.begin(), out.end());
        break;
    }
    case Op::CLUSTER: log.push_back((float)nn.computeCluster(op.in, op.reset)); break;
    case Op::TRAIN_ONCE: nn.trainOnce(op.in, op.desired, op.reset); break;
    case Op::EVALUATE: nn.evaluate(data); break;
    case Op::TRAIN: nn.train(data, snn::operator""_ep((unsigned long long)op.n), op.batch, op.frequency); break;
    case Op::SHUFFLE: data.shuffle(); break;
    case Op::RATE: setRate(nn, op.lr, op.momentum); break;
    case Op::SET: nn.setNumberOfTrainingsBetweenTwoEvaluations(op.n); break;
    case Op::SUMMARY: (void)nn.summary(); break;
    }
}

vector<float> m::play(const vector<Op>& ops, const Net& net, StraightforwardNeuralNetwork& nn, snn::Data& data)
{
    vector<float> log = observe(net, nn);
    for (auto& op : ops)
    {
        apply(op, net, nn, data, log);
        const auto o = observe(net, nn);
        log.insert(log.end(), o.begin(), o.end());
    }
    return log;
}

void m::reincarnate(pbt::Case& c, unique_ptr<StraightforwardNeuralNetwork>& nn, int percent)
{
    if (!c.chance(percent)) return;
    if (c.chance(50))
    {
        c.text("replaced by a copy");
        nn = make_unique<StraightforwardNeuralNetwork>(as_const(*nn));
        c.label("copied");
        return;
    }
    c.text("replaced by its saved and loaded network");
    const string path = c.scratch() + "/reincarnated.snn", previous = nn->autoSaveFilePath;
    nn->saveAs(path);
    nn.reset(&StraightforwardNeuralNetwork::loadFrom(path));
    nn->autoSaveFilePath = previous;
    filesystem::remove(path);
    c.label("loaded");
}

Live m::genLive(pbt::Case& c, const LiveGen& g)
{
    stir(c);
    Live live;
    live.net = genNet(c, g.net);
    live.spec = genData(c, live.net.nIn(), live.net.nOut(), g.data);
    c.text(live.net.text());
    c.text(live.spec.text());
    live.nn = live.net.build();
    live.data = live.spec.build();
    if (c.chance(50)) writeWeights(*live.nn, live.net, genWeights(c, live.net, 0.8));
    live.past = genOps(c, live.net, live.spec, c.ranged(0, g.maxPast), g.ops);
    c.text("past: " + text(live.past));
    vector<float> log;
    // a network may have learned something else before and may be a copy or a loaded network
    vector<Op::Kind> kinds;
    for (auto k : g.ops)
        if (k == Op::TRAIN || k == Op::EVALUATE) kinds.push_back(k);
    if (!kinds.empty() && c.chance(25))
    {
        const auto other = genData(c, live.net.nIn(), live.net.nOut(), g.data);
        c.text("before, on another " + other.text());
        const auto data = other.build();
        const auto ops = genOps(c, live.net, other, c.ranged(1, 2), kinds);
        c.text("there: " + text(ops));
        for (auto& op : ops) apply(op, live.net, *live.nn, *data, log);
        c.label("another data set before");
    }
    const size_t when = c.ranged(0, (int)live.past.size());
    for (size_t i = 0; i <= live.past.size(); ++i)
    {
        if (i == when) reincarnate(c, live.nn, 30);
        if (i < live.past.size()) apply(live.past[i], live.net, *live.nn, *live.data, log);
    }
    // values that are not finite are the subject of C16
    if (live.nn->hasNan()) { c.label("not finite"); c.discard(); }
    for (auto& l : readWeights(*live.nn, live.net))
        for (auto& n : l)
            for (auto x : n)
                if (!(fabs((double)x) < 1e4)) { c.label("too big weights"); c.discard(); }
    for (auto& l : live.net.layers)
    {
        if (!l.opts.empty()) c.label("layer optimizers");
        if (l.kind == REC || l.kind == GRU) c.label("recurrent");
        if (l.kind == CONV || l.kind == LC || l.kind == POOL) c.label("filters");
    }
    for (auto& op : live.past)
        if (op.kind == Op::TRAIN || op.kind == Op::TRAIN_ONCE) c.label("trained");
        else if (op.kind == Op::EVALUATE) c.label("evaluated");
    return live;
}

string m::differs(const vector<float>& a, const vector<float>& b)
{
    if (a.size() != b.size()) return pbt::cat(a.size(), " values and ", b.size());
    auto bits = [](float f) { uint32_t u; memcpy(&u, &f, 4); return u; };
    auto finite = [&](float f) { return (bits(f) & 0x7f800000u) != 0x7f800000u; };
    for (size_t i = 0; i < a.size(); ++i)
    {
        if (bits(a[i]) == bits(b[i])) continue;
        if (!finite(a[i]) && !finite(b[i])) continue;
        if (finite(a[i]) && finite(b[i]) && fabs((double)a[i] - b[i]) <= 1e-5 * max({1.0, fabs((double)a[i]), fabs((double)b[i])})) continue;
        return pbt::cat("value ", i, ": ", a[i], " and ", b[i]);
    }
    return "";
}

string m::readFile(const string& path)
{
    ifstream in(path, ios::binary);
    stringstream s;
    s << in.rdbuf();
    return s.str();
}

void m::diverge(pbt::Case& c, Live& live)
{
    auto& nn = *live.nn;
    const double scale = c.pick(vector<double>{1e6, 1e15, 1e30, 3e38});
    for (int i = c.range(1, 4); i > 0; --i)
    {
        auto in = genVector(c, live.net.nIn(), scale);
        switch (c.range(0, 4))
        {
        case 0: (void)nn.computeOutput(in, c.chance(50)); break;
        case 1: nn.evaluate(*live.data); break;
        case 4: // the parameters stay finite
        {
            const unsigned bits = c.pick(vector<unsigned>{0x7f800000u, 0xff800000u, 0x7fc00000u});
            for (float& x : in) x = c.chance(50) ? bit_cast<float>(bits) : x;
            (void)nn.computeOutput(in, c.chance(50));
            c.label("an input that is not finite");
            break;
        }
        default: nn.trainOnce(in, genVector(c, live.net.nOut(), c.chance(50) ? 1 : scale), c.chance(50));
        }
    }
    bool big = nn.hasNan();
    for (float x : observe(live.net, nn)) big |= !(fabs((double)x) < 1e15);
    c.label(nn.hasNan() ? "not finite outputs" : big ? "big values" : "moderate values");
    if (big) c.nontrivial();
}
