// C28 The log tells what happens in a training and changes nothing
// Built once for each level of the log (SNN_VERBOSE): complete, minimal and, as shipped, none.
#include "model.hpp"
#include <chrono>
#include <ctime>
#include <filesystem>
#include <fcntl.h>
#include <iostream>
#include <regex>
#include <thread>
#include <unistd.h>
using namespace m;
using namespace std;

namespace
{
    constexpr int LEVEL = (int)snn::verbose;

    // the standard output goes to a file, or nowhere
    class Output
    {
        int saved = -1;
        string path;
    public:
        explicit Output(string file = "/dev/null") : path(std::move(file))
        {
            cout.flush();
            fflush(stdout);
            saved = dup(1);
            const int f = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            dup2(f, 1);
            close(f);
        }
        ~Output() { end(); }
        void end()
        {
            if (saved < 0) return;
            cout.flush();
            fflush(stdout);
            dup2(saved, 1);
            close(saved);
            saved = -1;
        }
        string text() { end(); return readFile(path); }
    };

    struct Entry
    {
        enum Kind { MESSAGE, EVALUATION, PROGRESS } kind = MESSAGE;
        string message; // or the phase
        int epoch = 0, percent = 0, time = 0;
        double accuracy = 0, error = 0;
        bool saved = false;
    };

    double number(const string& s) { return s.find("inf") != string::npos ? INFINITY : s.find("nan") != string::npos ? NAN : stod(s); }

    vector<Entry> parse(pbt::Case& c, const string& text)
    {
        static const regex evaluation(R"(^\s*Epoch: +(-?\d+) - Accuracy: +(-?\d+\.\d\d|-?nan|-?inf) - MAE: +(-?\d+\.\d\d\d\d|-?nan|-?inf) - Time: +(-?\d+)s( - Saved)?\n)");
        static const regex progress(R"(^\s*Epoch: +(-?\d+) - (Training|Evaluation) +in progress\.\.\. +(-?\d+)% - Time: +(-?\d+)s)");
        static const regex message(R"(^([^\r\n]+)\n)");
        vector<Entry> r;
        for (auto i = text.begin(); i != text.end();)
        {
            smatch s;
            Entry e;
            if (regex_search(i, text.end(), s, evaluation, regex_constants::match_continuous))
            {
                e.kind = Entry::EVALUATION;
                e.epoch = stoi(s[1]);
                e.accuracy = number(s[2]);
                e.error = number(s[3]);
                e.time = stoi(s[4]);
                e.saved = s[5].matched;
            }
            else if (regex_search(i, text.end(), s, progress, regex_constants::match_continuous))
            {
                e.kind = Entry::PROGRESS;
                e.epoch = stoi(s[1]);
                e.message = s[2];
                e.percent = stoi(s[3]);
                e.time = stoi(s[4]);
            }
            else if (regex_search(i, text.end(), s, message, regex_constants::match_continuous)) e.message = s[1];
            else if (*i == '\n' || *i == '\r' || *i == ' ') { ++i; continue; }
            else c.fail("the log is not made of whole lines: ..." + string(i, text.end()).substr(0, 200));
            r.push_back(e);
            i += s.length(0);
        }
        return r;
    }

    int count(const vector<Entry>& log, const string& message)
    {
        return (int)count_if(log.begin(), log.end(), [&](const Entry& e) { return e.kind == Entry::MESSAGE && e.message == message; });
    }

    bool shows(double printed, double value, double half)
    {
        if (!isfinite((float)value)) return true;
        return fabs(printed - value) <= half + 1e-6 * max(1.0, fabs(value));
    }

    struct Evaluation { int epoch; float accuracy, error; bool saved; };
    string text(const Evaluation& e) { return pbt::cat("epoch ", e.epoch, " accuracy ", e.accuracy, " error ", e.error, e.saved ? " saved" : ""); }
    string text(const Entry& e) { return pbt::cat("epoch ", e.epoch, " accuracy ", e.accuracy, " error ", e.error, e.saved ? " saved" : ""); }

    void compare(pbt::Case& c, const vector<Entry>& log, const vector<Evaluation>& expected, double seconds)
    {
        vector<Entry> actual;
        for (auto& e : log) if (e.kind == Entry::EVALUATION) actual.push_back(e);
        for (size_t i = 0; i < min(actual.size(), expected.size()); ++i)
        {
            const auto& a = actual[i];
            const auto& e = expected[i];
            c.check(a.epoch == e.epoch && a.saved == e.saved && shows(a.accuracy, e.accuracy, 0.005) && shows(a.error, e.error, 0.00005),
                    pbt::cat("evaluation ", i, " is logged as ", text(a), " instead of ", text(e)));
            c.check(a.time >= 0 && a.time <= seconds + 1, pbt::cat("evaluation ", i, " is logged with a time of ", a.time, " s in ", seconds, " s"));
        }
        c.check(actual.size() == expected.size(), pbt::cat(actual.size(), " evaluations are logged instead of ", expected.size()));
        for (auto& e : log)
            if (e.kind == Entry::PROGRESS)
                c.check(e.percent >= 0 && e.percent <= 100 && e.time >= 0 && e.time <= seconds + 1, pbt::cat("the progress is logged as ", e.percent, "%, ", e.time, " s in ", seconds, " s"));
    }

    double now() { return chrono::duration<double>(chrono::steady_clock::now().time_since_epoch()).count(); }

    LiveGen generator(pbt::Case& c)
    {
        LiveGen g;
        g.maxPast = 2;
        g.ops = {Op::TRAIN_ONCE, Op::INFER, Op::EVALUATE, Op::TRAIN, Op::RATE};
        g.data.maxTest = 10;
        g.net.maxLayers = 3;
        if (c.chance(60)) g.net.kinds = {FC, CONV, LC, POOL};
        return g;
    }

    vector<float> weightsOf(StraightforwardNeuralNetwork& nn, const Net& net)
    {
        vector<float> r;
        for (auto& l : readWeights(nn, net)) for (auto& n : l) r.insert(r.end(), n.begin(), n.end());
        return r;
    }
}

PROPERTY(C28, training, 12000, 300000, "at least two evaluations are logged, with different accuracies")
{
    Output nowhere;
    Live live = genLive(c, generator(c));
    auto& nn = *live.nn;
    auto& d = *live.data;
    const int size = (int)live.spec.trainIn.size();
    const int epochs = c.ranged(0, 8, 130);
    const int batch = live.spec.nature == snn::nature::nonTemporal ? c.ranged(1, size) : 1;
    const int frequency = c.range(0, 3);
    if (c.chance(50)) setRate(nn, c.pick(vector<float>{0.05f, 0.3f, 0.9f}), 0);
    nn.autoSaveWhenBetter = c.chance(60);
    nn.autoSaveFilePath = c.scratch() + "/best";
    c.text(pbt::cat("train ", epochs, " epochs, batch ", batch, ", evaluation frequency ", frequency, nn.autoSaveWhenBetter ? ", automatic save" : ""));
    // the same training step by step
    const auto values = pbt::inFork([&]
    {
        vector<float> r{0};
        float best = nn.getGlobalClusteringRateMax();
        const bool save = nn.autoSaveWhenBetter;
        nn.autoSaveWhenBetter = false;
        const auto evaluate = [&](int e)
        {
            nn.evaluate(d);
            if (nn.hasNan()) return;
            const bool better = nn.getGlobalClusteringRate() > best;
            if (better) best = nn.getGlobalClusteringRate();
            ++r[0];
            for (float x : {(float)e, nn.getGlobalClusteringRate(), nn.getMeanAbsoluteError(), (float)(save && better)}) r.push_back(x);
        };
        if (frequency > 0) evaluate(0);
        for (int e = 1; e <= epochs && !nn.hasNan(); ++e)
        {
            d.shuffle();
            for (int i = 0; i + batch <= size && !nn.hasNan(); i += batch)
            {
                const bool reset = d.isFirstTrainingDataOfTemporalSequence(i);
                if (d.needToLearnOnTrainingData(i)) nn.trainOnce(d.getTrainingData(i, batch), d.getTrainingOutputs(i, batch), reset);
                else (void)nn.computeOutput(d.getTrainingData(i), reset);
            }
            if (frequency > 0 && e % frequency == 0) evaluate(e);
        }
        r.push_back(nn.hasNan());
        const auto w = weightsOf(nn, live.net);
        r.insert(r.end(), w.begin(), w.end());
        return r;
    });
    vector<Evaluation> expected;
    size_t v = 1;
    for (; expected.size() < (size_t)values[0]; v += 4) expected.push_back({(int)values[v], values[v + 1], values[v + 2], values[v + 3] != 0});
    const bool nan = values[v] != 0;
    const vector<float> w(values.begin() + (long)v + 1, values.end());

    const double start = now();
    Output output(c.scratch() + "/log");
    nn.train(d, snn::operator""_ep((unsigned long long)epochs), batch, frequency);
    const string written = output.text();
    const double seconds = now() - start;
    if (!nan && !nn.hasNan())
    {
        const auto actual = weightsOf(nn, live.net);
        for (size_t i = 0; i < w.size(); ++i)
            if (isfinite(w[i]) && fabs(w[i]) < 1e6f) c.check(fabs((double)actual[i] - w[i]) <= 1e-3 * max(1.0, fabs((double)w[i])), pbt::cat("weight ", i, " is ", actual[i], " after the training that is logged instead of ", w[i]));
    }
    if (LEVEL == 0)
    {
        c.check(written.empty(), "the library writes without being asked to: " + written.substr(0, 200));
        if (expected.size() >= 2) c.nontrivial();
        return;
    }
    const auto log = parse(c, written);
    compare(c, log, expected, seconds);
    c.check(!log.empty() && log[0].kind == Entry::MESSAGE && log[0].message == "Start training", "the log does not begin with the start of the training: " + written.substr(0, 200));
    c.check(log.back().kind == Entry::MESSAGE && log.back().message == "Stop training", "the log does not end with the end of the training: " + written.substr(written.size() > 200 ? written.size() - 200 : 0));
    c.check(count(log, "Start training") == 1 && count(log, "Stop training") == 1, "the start or the end of the training is logged more than once");
    c.check((count(log, "A NaN value has been detected") > 0) == nan, nan ? "an output that is not finite is not logged" : "an output that is not finite is logged");
    for (auto& e : log)
        if (e.kind == Entry::MESSAGE)
            c.check(e.message == "Start training" || e.message == "Stop training" || e.message == "A NaN value has been detected", "unexpected in the log: " + e.message);
    if (expected.size() >= 2 && expected[0].accuracy != expected.back().accuracy) c.nontrivial();
}

PROPERTY(C28, evaluation, 12000, 300000, "an evaluation that is saved and one that is not")
{
    Output nowhere;
    Live live = genLive(c, generator(c));
    auto& nn = *live.nn;
    nn.autoSaveFilePath = c.scratch() + "/best";
    double best = nn.getGlobalClusteringRateMax();
    int saved = 0, notSaved = 0;
    for (int i = c.ranged(1, 6); i > 0 && !nn.hasNan(); --i)
    {
        nn.autoSaveWhenBetter = c.chance(70);
        const double start = now();
        Output output(c.scratch() + "/log");
        nn.evaluate(*live.data);
        const string written = output.text();
        if (LEVEL == 0) c.check(written.empty(), "the library writes without being asked to: " + written.substr(0, 200));
        const Evaluation e{nn.getCurrentEpoch(), nn.getGlobalClusteringRate(), nn.getMeanAbsoluteError(), nn.autoSaveWhenBetter && nn.getGlobalClusteringRate() > best};
        if (!nn.hasNan())
        {
            best = max(best, (double)e.accuracy);
            (e.saved ? saved : notSaved)++;
        }
        if (LEVEL > 0)
        {
            const auto log = parse(c, written);
            compare(c, log, nn.hasNan() ? vector<Evaluation>{} : vector<Evaluation>{e}, now() - start);
            for (auto& m : log) c.check(m.kind != Entry::MESSAGE, "unexpected in the log of an evaluation: " + m.message);
        }
        if (c.chance(70)) writeWeights(nn, live.net, genWeights(c, live.net, 1));
    }
    if (saved && notSaved) c.nontrivial();
}

PROPERTY(C28, data, 3000, 100000, "a training set and a testing set")
{
    Output nowhere;
    stir(c);
    Live live = genLive(c, generator(c));
    Output output(c.scratch() + "/log");
    auto other = live.spec.build();
    StraightforwardNeuralNetwork copy(*live.nn);
    copy.saveAs(c.scratch() + "/saved");
    unique_ptr<StraightforwardNeuralNetwork> loaded(&StraightforwardNeuralNetwork::loadFrom(c.scratch() + "/saved"));
    other->shuffle();
    for (auto& in : live.spec.trainIn) (void)loaded->computeOutput(in);
    loaded->trainOnce(live.spec.trainIn[0], live.spec.trainOut[0]);
    loaded->stopTrainingAsync(); // there is nothing to stop
    const string written = output.text();
    c.check(written == (LEVEL > 0 ? "Data loaded\n" : ""), "building data, copying, saving, loading, training once and computing are logged as: " + written.substr(0, 200));
    if (!live.spec.testIn.empty()) c.nontrivial();
}

PROPERTY(C28, background, 600, 10000, "the training was stopped after the first epoch")
{
    Output nowhere;
    Live live = genLive(c, generator(c));
    auto& nn = *live.nn;
    const int frequency = c.range(0, 3);
    nn.autoSaveWhenBetter = c.chance(30);
    nn.autoSaveFilePath = c.scratch() + "/best";
    const double start = now();
    Output output(c.scratch() + "/log");
    nn.startTrainingAsync(*live.data, 1, frequency);
    const int ms = c.range(0, 12);
    c.text(pbt::cat("stopped after ", ms, " ms, evaluation frequency ", frequency));
    this_thread::sleep_for(chrono::milliseconds(ms));
    nn.stopTrainingAsync();
    const string written = output.text();
    const double seconds = now() - start;
    if (nn.getCurrentEpoch() > 2) c.nontrivial();
    if (LEVEL == 0)
    {
        c.check(written.empty(), "the library writes without being asked to: " + written.substr(0, 200));
        return;
    }
    // the messages of both threads may be mixed, each of them is written at once
    const auto occurrences = [&](const string& s)
    {
        int n = 0;
        for (size_t i = written.find(s); i != string::npos; i = written.find(s, i + 1)) ++n;
        return n;
    };
    const auto expect = [&](const string& s, int n) { c.check(occurrences(s) == n, pbt::cat("\"", s, "\" is logged ", occurrences(s), " times instead of ", n)); };
    expect("Start a new thread", LEVEL > 1);
    expect("Thread closed", LEVEL > 1);
    expect("Start training", 1);
    expect("Stop training", 2); // asked for by the user, and the end of the training
    if (!nn.hasNan()) expect("A NaN value has been detected", 0);
    if (nn.hasNan()) return;
    const int evaluations = frequency > 0 ? 1 + (nn.getCurrentEpoch() - 1) / frequency : 0;
    expect("Accuracy: ", evaluations);
    // a line that is whole is right
    static const regex line(R"(\rEpoch: +(-?\d+) - Accuracy: +(-?[\d.]+) - MAE: +\S+ - Time: +(-?\d+)s( - Saved)?\n)");
    int whole = 0, last = -1;
    for (sregex_iterator i(written.begin(), written.end(), line), end; i != end; ++i, ++whole)
    {
        const int e = stoi((*i)[1]);
        c.check(e > last && e % frequency == 0 && e < max(1, nn.getCurrentEpoch()), pbt::cat("the epoch ", e, " is logged after ", last, ", every ", frequency, " epochs until ", nn.getCurrentEpoch()));
        c.check(stoi((*i)[3]) >= 0 && stoi((*i)[3]) <= seconds + 1, pbt::cat("a time of ", (*i)[3], " s is logged in ", seconds, " s"));
        last = e;
    }
    c.check(whole >= evaluations - 1, pbt::cat(whole, " whole lines for ", evaluations, " evaluations"));
}

PROPERTY(C28, progress, 40, 500, "progress was logged")
{
    Output nowhere;
    stir(c);
    // slow networks
    const int n = c.range(400, 800);
    const int training = c.range(20, 120), testing = c.chance(50) ? c.range(1, 120) : 500000000 / (n * n) + c.range(0, 300); // the evaluation takes at least 0.3 s in one case of two
    snn::vector2D<float> in, out, tin, tout;
    for (int i = 0; i < training; ++i) { in.push_back(vector<float>((size_t)n, (float)i / 200)); out.push_back({0.5f}); }
    for (int i = 0; i < testing; ++i) { tin.push_back(vector<float>((size_t)n, (float)i / 200)); tout.push_back({0.5f}); }
    snn::Data d(snn::problem::regression, in, out, tin, tout);
    StraightforwardNeuralNetwork nn({snn::Input(n), snn::FullyConnected(n), snn::FullyConnected(1)}, snn::StochasticGradientDescent(1e-4f, 0.0f));
    const int frequency = c.range(0, 2);
    const int ms = c.range(300, 700);
    c.text(pbt::cat(n, " neurons, ", training, " training data, ", testing, " testing data, evaluation frequency ", frequency, ", ", ms, " ms"));
    const double start = now();
    const clock_t used = clock();
    Output output(c.scratch() + "/log");
    nn.train(d, snn::operator""_ms((unsigned long long)ms), 1, frequency);
    const string written = output.text();
    const double seconds = now() - start, cpu = (double)(clock() - used) / CLOCKS_PER_SEC;
    c.check(seconds >= ms / 1000.0 - 0.002, pbt::cat("a training of ", ms, " ms ends after ", seconds, " s"));
    if (LEVEL == 0)
    {
        c.check(written.empty(), "the library writes without being asked to: " + written.substr(0, 200));
        c.nontrivial();
        return;
    }
    const auto log = parse(c, written);
    int epoch = frequency > 0 ? 0 : 1, lines = 0;
    bool evaluating = true;
    int percent = 0, evaluations = 0;
    for (auto& e : log)
    {
        if (e.kind == Entry::MESSAGE) continue;
        c.check(e.time >= 0 && e.time <= seconds + 1, pbt::cat("a time of ", e.time, " s is logged in ", seconds, " s"));
        if (e.kind == Entry::EVALUATION)
        {
            c.check(e.epoch == evaluations * frequency, pbt::cat("the evaluation of the epoch ", e.epoch, " is logged instead of ", evaluations * frequency));
            ++evaluations;
            epoch = max(epoch, e.epoch);
            evaluating = true;
            percent = 0;
            continue;
        }
        ++lines;
        const bool evaluation = e.message == "Evaluation";
        c.check(e.percent >= 0 && e.percent <= 100, pbt::cat("a progress of ", e.percent, "% is logged"));
        c.check(e.epoch >= epoch && e.epoch <= nn.getCurrentEpoch(), pbt::cat("the progress of the epoch ", e.epoch, " is logged in the epoch ", epoch));
        if (evaluation) c.check(frequency > 0 && e.epoch == evaluations * frequency, pbt::cat("an evaluation in the epoch ", e.epoch, " is logged"));
        else c.check(e.epoch > 0 && (frequency == 0 || (e.epoch > (evaluations - 1) * frequency && e.epoch <= evaluations * frequency)), pbt::cat("a training in the epoch ", e.epoch, " is logged after the evaluation of the epoch ", (evaluations - 1) * frequency));
        if (e.epoch == epoch && evaluation == evaluating) c.check(e.percent >= percent, pbt::cat("the progress goes back from ", percent, "% to ", e.percent, "%"));
        epoch = e.epoch;
        evaluating = evaluation;
        percent = e.percent;
    }
    c.check(lines <= seconds * 10 + 1, pbt::cat("the progress is logged ", lines, " times in ", seconds, " s"));
    if (frequency == 0) c.check(cpu < 0.25 || lines > 0, pbt::cat("no progress is logged in ", seconds, " s"));
    c.check(evaluations == (frequency > 0 ? 1 + (nn.getCurrentEpoch() - 1) / frequency : 0), pbt::cat(evaluations, " evaluations are logged in ", nn.getCurrentEpoch() - 1, " epochs"));
    if (lines > 0) c.nontrivial();
}
