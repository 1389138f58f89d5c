// C11 Combined stopping criteria are over exactly when their parts say so
#include "model.hpp"
#include <chrono>
#include <thread>
using namespace m;
using namespace std;
using namespace chrono;
using snn::Wait;

namespace
{
    enum PartKind { EPOCHS, ACCURACY, ERROR, DURATION };
    struct Part
    {
        PartKind kind;
        int n = 0;        // epochs, or milliseconds
        float x = 0;      // accuracy, error
        int unit = 0;     // of the duration: ms, s, min
        string text() const
        {
            switch (kind)
            {
            case EPOCHS: return pbt::cat(n, "_ep");
            case ACCURACY: return pbt::cat(x, "_acc");
            case ERROR: return pbt::cat(x, "_mae");
            default: return pbt::cat(n, " ms (unit ", unit, ")");
            }
        }
        Wait wait() const
        {
            switch (kind)
            {
            case EPOCHS: return snn::operator""_ep((unsigned long long)n);
            case ACCURACY: return snn::operator""_acc((long double)x);
            case ERROR: return snn::operator""_mae((long double)x);
            default: break;
            }
            if (unit == 0) return snn::operator""_ms((unsigned long long)n);
            if (unit == 1) return snn::operator""_s((unsigned long long)n / 1000);
            return snn::operator""_min((unsigned long long)n / 60000);
        }
        bool over(int epochs, float accuracy, float mae, int milliseconds) const
        {
            switch (kind)
            {
            case EPOCHS: return epochs > n;
            case ACCURACY: return accuracy >= x && accuracy >= 0;
            case ERROR: return mae <= x && mae >= 0;
            default: return milliseconds >= n;
            }
        }
    };

    // a number of minutes, so that nothing depends on the speed of the test
    Part genPart(pbt::Case& c, const vector<int>& kinds)
    {
        Part p{(PartKind)c.pick(kinds)};
        switch (p.kind)
        {
        case EPOCHS: p.n = c.chance(20) ? c.range(0, 100000) : c.range(0, 6); break;
        case ACCURACY: p.x = (float)c.range(0, 10) / 10.0f; break;
        case ERROR: p.x = c.chance(20) ? (float)c.range(0, 1000) : (float)c.range(0, 10) / 10.0f; break;
        case DURATION:
            p.n = 60000 * c.range(0, 5);
            p.unit = c.range(0, 2);
            break;
        }
        return p;
    }

    // any tree over the parts first..last, with the same operator
    Wait combine(pbt::Case& c, const vector<Part>& parts, int first, int last, bool all, string& text)
    {
        if (first == last)
        {
            text += parts[first].text();
            return parts[first].wait();
        }
        const int middle = first + (int)c.draw((uint32_t)(last - first));
        text += "(";
        Wait left = combine(c, parts, first, middle, all, text);
        text += all ? " && " : " || ";
        Wait right = combine(c, parts, middle + 1, last, all, text);
        text += ")";
        return all ? left && right : left || right;
    }

    bool over(const vector<Part>& parts, bool all, int epochs, float accuracy, float mae, int ms)
    {
        int n = 0;
        for (auto& p : parts) n += p.over(epochs, accuracy, mae, ms);
        return all ? n == (int)parts.size() : n > 0;
    }

    float genAccuracy(pbt::Case& c) { return c.chance(15) ? -1.0f : (float)c.range(0, 10) / 10.0f + (c.chance(30) ? 0.05f : 0); }
}

PROPERTY(C11, parts, 40000, 1500000, "at least two parts, one that is over and one that is not")
{
    vector<Part> parts;
    for (int i = c.ranged(1, 7); i > 0; --i) parts.push_back(c.chance(15) && !parts.empty() ? parts[c.draw((uint32_t)parts.size())] : genPart(c, {EPOCHS, ACCURACY, ERROR, DURATION}));
    const bool all = c.chance(50);
    string text;
    Wait wait = combine(c, parts, 0, (int)parts.size() - 1, all, text);
    c.text(text);
    for (int q = c.ranged(1, 12); q > 0; --q)
    {
        const int epochs = c.chance(20) ? c.range(0, 100001) : c.range(0, 8);
        const float accuracy = genAccuracy(c);
        const float mae = c.chance(15) ? -1.0f : c.chance(20) ? (float)c.range(0, 1001) : (float)c.range(0, 10) / 10.0f + (c.chance(30) ? 0.05f : 0);
        const int ms = 30000 * c.range(0, 12);
        wait.startClock();
        wait.start = decltype(wait.start)::clock::now() - milliseconds(ms);
        const bool expected = over(parts, all, epochs, accuracy, mae, ms);
        const bool actual = wait.isOver(epochs, accuracy, mae);
        c.check(actual == expected, pbt::cat(text, " at epoch ", epochs, ", accuracy ", accuracy, ", mean absolute error ", mae, ", after ", ms, " ms is ", actual ? "over" : "not over"));
        int n = 0;
        for (auto& p : parts) n += p.over(epochs, accuracy, mae, ms);
        if (n > 0 && n < (int)parts.size()) c.nontrivial();
    }
}

PROPERTY(C11, operands, 15000, 500000, "a wait that was already an operand is used again")
{
    // named waits, combined many times: each of them keeps its meaning
    struct Named { Wait wait; vector<Part> parts; int op = 0; int used = 0; string text; }; // op: 0 none, 1 ||, 2 &&
    vector<Named> pool;
    for (int i = c.ranged(2, 4); i > 0; --i)
    {
        Named n;
        n.parts = {genPart(c, {EPOCHS, ACCURACY, ERROR, DURATION})};
        n.wait = n.parts[0].wait();
        n.text = n.parts[0].text();
        pool.push_back(n);
    }
    for (int i = c.ranged(1, 5); i > 0; --i)
    {
        const int a = (int)c.draw((uint32_t)pool.size()), b = (int)c.draw((uint32_t)pool.size());
        const int op = c.range(1, 2);
        const bool mixed = (pool[a].op && pool[a].op != op) || (pool[b].op && pool[b].op != op);
        Named r;
        r.text = "(" + pool[a].text + (op == 2 ? " && " : " || ") + pool[b].text + ")";
        c.text(r.text);
        if (pool[a].used || pool[b].used) c.nontrivial();
        try
        {
            r.wait = op == 2 ? pool[a].wait && pool[b].wait : pool[a].wait || pool[b].wait;
            c.check(!mixed, "the operators || and && are mixed in " + r.text);
            r.parts = pool[a].parts;
            r.parts.insert(r.parts.end(), pool[b].parts.begin(), pool[b].parts.end());
            r.op = op;
            pool.push_back(r);
        }
        catch (const runtime_error&)
        {
            c.check(mixed, "refused though there is one operator only: " + r.text);
        }
        pool[a].used++;
        pool[b].used++;
    }
    for (int q = c.ranged(1, 6); q > 0; --q)
    {
        const int epochs = c.chance(20) ? c.range(0, 100001) : c.range(0, 8);
        const float accuracy = genAccuracy(c);
        const float mae = c.chance(15) ? -1.0f : c.chance(20) ? (float)c.range(0, 1001) : (float)c.range(0, 10) / 10.0f + (c.chance(30) ? 0.05f : 0);
        const int ms = 30000 * c.range(0, 12);
        for (auto& n : pool)
        {
            n.wait.startClock();
            n.wait.start = decltype(n.wait.start)::clock::now() - milliseconds(ms);
            const bool actual = n.wait.isOver(epochs, accuracy, mae);
            c.check(actual == over(n.parts, n.op == 2, epochs, accuracy, mae, ms), pbt::cat(n.text, n.used ? " (used as an operand)" : "", " at epoch ", epochs, ", accuracy ", accuracy, ", mean absolute error ", mae, ", after ", ms, " ms is ", actual ? "over" : "not over"));
        }
    }
}

PROPERTY(C11, mixed, 10000, 300000, "the refused operator is not the outermost one")
{
    // a tree where each operator is chosen: refused exactly when both are used
    vector<Part> parts;
    for (int i = c.ranged(2, 6); i > 0; --i) parts.push_back(genPart(c, {EPOCHS, ACCURACY, ERROR, DURATION}));
    bool any = false, all = false, thrown = false;
    int depth = 0, thrownAt = -1;
    string text;
    function<Wait(int, int)> build = [&](int first, int last) -> Wait
    {
        if (first == last) { text += parts[first].text(); return parts[first].wait(); }
        ++depth;
        const int middle = first + (int)c.draw((uint32_t)(last - first));
        const bool op = c.chance(50);
        text += "(";
        Wait left = build(first, middle);
        text += op ? " && " : " || ";
        Wait right = build(middle + 1, last);
        text += ")";
        --depth;
        if (thrown) return left;
        const auto kind = [&](int a, int b) { return a == b; };
        (void)kind;
        try
        {
            Wait r = op ? left && right : left || right;
            (op ? all : any) = true;
            c.check(!(any && all) || first != 0 || last != (int)parts.size() - 1, "the operators || and && are mixed in " + text);
            return r;
        }
        catch (const runtime_error&)
        {
            (op ? all : any) = true;
            thrown = true;
            thrownAt = depth;
        }
        return left;
    };
    build(0, (int)parts.size() - 1);
    c.text(text);
    c.check(!thrown || (any && all), "refused though there is one operator only: " + text);
    if (thrownAt > 0) c.nontrivial();
}

PROPERTY(C11, clock, 60, 1500, "a duration ends while the process waits")
{
    // real time: not before the duration, and once it has elapsed
    const int first = c.range(0, 30), second = c.range(0, 30);
    const bool all = c.chance(50);
    Wait a = snn::operator""_ms((unsigned long long)first), b = snn::operator""_ms((unsigned long long)second);
    Wait wait = all ? a && b : a || b;
    const int limit = all ? max(first, second) : min(first, second);
    c.text(pbt::cat(first, " ms ", all ? "&& " : "|| ", second, " ms"));
    wait.startClock();
    if (c.chance(30)) { this_thread::sleep_for(milliseconds(limit + 5)); wait.startClock(); c.label("restarted"); }
    const auto start = steady_clock::now();
    bool over = false;
    do
    {
        over = wait.isOver(0, -1, -1);
        const auto now = duration_cast<milliseconds>(steady_clock::now() - start).count();
        if (over) c.check(now >= limit - 2, pbt::cat("over after ", now, " ms"));
        else c.check(now <= limit + 2000, pbt::cat("not over after ", now, " ms"));
    } while (!over);
    if (limit > 0) c.nontrivial();
}

namespace
{
    LiveGen generator()
    {
        LiveGen g;
        g.maxPast = 2;
        g.net.maxLayers = 2;
        g.data.maxTrain = 5;
        g.ops = {Op::TRAIN_ONCE, Op::EVALUATE, Op::TRAIN};
        return g;
    }
}

PROPERTY(C11, training, 6000, 200000, "the training ends after at least one epoch, not because of the first epochs part alone")
{
    auto g = generator();
    if (c.chance(70)) g.data.natures = {snn::nature::nonTemporal};
    Live live = genLive(c, g);
    auto& nn = *live.nn;
    vector<Part> parts;
    bool all = c.chance(50);
    for (int i = c.ranged(1, 4); i > 0; --i) parts.push_back(genPart(c, {EPOCHS, ACCURACY, ERROR}));
    for (auto& p : parts) if (p.kind == EPOCHS) p.n = p.n % 7;
    string text;
    if (all)
    {
        // it has to end
        for (auto& p : parts) if (p.kind == ACCURACY) p.x = 0; else if (p.kind == ERROR) p.x = 1e9f;
    }
    else parts.push_back({EPOCHS, c.range(0, 8)});
    if (c.chance(15)) { all = true; for (auto& p : parts) p = Part{EPOCHS, p.n % 9}; }
    Wait wait = combine(c, parts, 0, (int)parts.size() - 1, all, text);
    const int batch = live.spec.nature == snn::nature::nonTemporal ? c.range(1, (int)live.spec.trainIn.size()) : 1;
    // without an evaluation an accuracy or an error may never come
    int frequency = c.range(0, 3);
    if (all && nn.getGlobalClusteringRate() < 0) frequency = max(1, frequency);
    c.text(pbt::cat("train until ", text, ", batch ", batch, ", evaluation frequency ", frequency));
    const int trainings = nn.getNumberOfTraining();
    const auto expected = pbt::inFork([&]
    {
        auto& d = *live.data;
        vector<float> r;
        if (frequency > 0) nn.evaluate(d);
        int e = 1;
        const int before = nn.getNumberOfTraining();
        for (; !over(parts, all, e, nn.getGlobalClusteringRate(), nn.getMeanAbsoluteError(), 0) && !nn.hasNan(); ++e)
        {
            if (e > 50) throw pbt::Discarded();
            // one epoch of the library
            nn.train(d, snn::operator""_ep(1ull), batch, 0);
            if (nn.hasNan()) throw pbt::Discarded();
            if (frequency > 0 && e % frequency == 0) nn.evaluate(d);
        }
        return vector<float>{(float)e, (float)(nn.getNumberOfTraining() - before), nn.getGlobalClusteringRate(), nn.getMeanAbsoluteError()};
    });
    // the same with the wait
    nn.train(*live.data, wait, batch, frequency);
    if (nn.hasNan()) c.discard();
    const int done = nn.getNumberOfTraining() - trainings;
    if (live.spec.nature != snn::nature::timeSeries) // the number of data that are learned depends on the shuffle
        c.check(done == (int)expected[1], pbt::cat(done, " training steps instead of ", expected[1], " (", expected[0] - 1, " epochs)"));
    const bool exact = fabs(expected[2] - nn.getGlobalClusteringRate()) < 1e-5 && fabs(expected[3] - nn.getMeanAbsoluteError()) < 1e-4;
    c.check(exact || live.spec.nature == snn::nature::timeSeries, pbt::cat("accuracy ", nn.getGlobalClusteringRate(), " error ", nn.getMeanAbsoluteError(), " instead of ", expected[2], " and ", expected[3]));
    if (expected[0] > 1 && parts.size() > 1) c.nontrivial();
}

PROPERTY(C11, waitFor, 400, 10000, "the wait is not over and a duration ends it")
{
    // on a network that does nothing, its counters and statistics are those the criteria see
    auto g = generator();
    g.net.momentum = false;
    Live live = genLive(c, g);
    auto& nn = *live.nn;
    vector<Part> parts;
    const bool all = c.chance(50);
    for (int i = c.ranged(1, 4); i > 0; --i) parts.push_back(genPart(c, {EPOCHS, ACCURACY, ERROR}));
    string text;
    Wait wait = combine(c, parts, 0, (int)parts.size() - 1, all, text);
    const bool isOver = over(parts, all, nn.getCurrentEpoch(), nn.getGlobalClusteringRate(), nn.getMeanAbsoluteError(), 0);
    const int limit = c.range(5, 40);
    const auto ms = snn::operator""_ms((unsigned long long)limit);
    c.text(pbt::cat("wait for ", text, " with ", limit, " ms at epoch ", nn.getCurrentEpoch(), " accuracy ", nn.getGlobalClusteringRate(), " error ", nn.getMeanAbsoluteError()));
    const auto start = steady_clock::now();
    auto elapsed = [&] { return duration_cast<milliseconds>(steady_clock::now() - start).count(); };
    if (all)
    {
        if (!isOver) c.discard(); // it would wait for ever
        nn.waitFor(wait && ms);
        c.check(elapsed() >= limit - 2, pbt::cat("returned after ", elapsed(), " ms"));
    }
    else if (isOver)
    {
        nn.waitFor(wait || snn::operator""_min(60ull));
        c.label("over at once");
    }
    else
    {
        nn.waitFor(wait || ms);
        c.check(elapsed() >= limit - 2, pbt::cat("returned after ", elapsed(), " ms"));
        c.nontrivial();
    }
}
