// C13 Shuffling permutes the training data without breaking their sequences
#include "model.hpp"
#include <set>
using namespace m;
using namespace std;
using snn::nature;

namespace
{
    struct Shuffled
    {
        DataSpec spec;
        unique_ptr<snn::Data> data;
        int size = 0;
    };

    // every row is recognised by its first value
    Shuffled gen(pbt::Case& c, const vector<nature>& natures, int most, bool huge = false)
    {
        stir(c);
        Shuffled s;
        auto& d = s.spec;
        d.nature = c.pick(natures);
        d.problem = c.pick(vector<snn::problem>{snn::problem::regression, snn::problem::classification, snn::problem::multipleClassification});
        s.size = huge ? c.range(30000, most) : c.ranged(1, most, 10 * most);
        const int longest = huge ? c.pick(vector<int>{3, 60, 5000, most}) : 0; // the choices of a case are limited
        uint64_t seed = huge ? c.draw(1u << 30) + 1 : 0;
        auto next = [&] { seed = seed * 6364136223846793005ull + 1442695040888963407ull; return 1 + (int)((seed >> 33) % (uint64_t)longest); };
        const int inputs = c.range(1, 3), labels = c.range(d.problem == snn::problem::classification ? 2 : 1, 3);
        if (d.nature == nature::timeSeries) d.recurrences = huge ? c.pick(vector<int>{1, 3, 1000, 33000}) : c.chance(20) ? c.range(1, 30) : c.range(1, 5);
        for (int left = s.size; d.nature == nature::sequential && left > 0; left -= d.trainSeq.back()) d.trainSeq.push_back(huge ? min(left, next()) : c.range(1, min(left, c.chance(20) ? 9 : s.size > most ? 80 : 4)));
        for (int i = 0; i < s.size; ++i)
        {
            vector<float> in((size_t)inputs, 0.5f), out((size_t)labels, 0.0f);
            in[0] = (float)i;
            out[(size_t)i % (size_t)labels] = 1;
            if (d.problem == snn::problem::regression) out[0] = (float)i * 2;
            d.trainIn.push_back(in);
            d.trainOut.push_back(out);
        }
        d.shared = c.chance(40);
        if (d.shared) { d.testIn = d.trainIn; d.testOut = d.trainOut; d.testSeq = d.trainSeq; }
        else { d.testIn = {d.trainIn[0]}; d.testOut = {d.trainOut[0]}; d.testSeq = {1}; }
        s.data = d.build();
        c.text(huge ? pbt::cat(s.size, " data, ", d.trainSeq.size(), " sequences, ", d.recurrences, " recurrences") : d.text());
        c.label(vector<string>{"non temporal", "sequential", "time series"}[(int)d.nature]);
        return s;
    }

    vector<int> order(const Shuffled& s)
    {
        vector<int> r;
        for (int i = 0; i < s.size; ++i) r.push_back((int)s.data->getTrainingData(i)[0]);
        return r;
    }

    // what must hold after a shuffle; adds to the learned ones those that are learned
    string broken(const Shuffled& s, std::set<int>& learned)
    {
        const auto o = order(s);
        auto& d = *s.data;
        for (int i = 0; i < s.size; ++i)
        {
            if (o[i] < 0 || o[i] >= s.size) return pbt::cat("datum ", o[i], " of ", s.size);
            const auto& out = d.getTrainingOutputs(i);
            if (out != s.spec.trainOut[o[i]]) return pbt::cat("datum ", o[i], " has the label ", pbt::str(out));
            if (d.getTrainingData(i) != s.spec.trainIn[o[i]]) return pbt::cat("datum ", o[i], " is ", pbt::str(d.getTrainingData(i)));
        }
        if (s.spec.nature != nature::timeSeries)
        {
            auto sorted = o;
            ranges::sort(sorted);
            for (int i = 0; i < s.size; ++i)
                if (sorted[i] != i) return "not a permutation: " + pbt::str(o);
            for (int i = 0; i < s.size; ++i)
            {
                const bool first = s.spec.resetTrain(o[i]);
                if (d.isFirstTrainingDataOfTemporalSequence(i) != first) return pbt::cat("place ", i, " (datum ", o[i], ") ", first ? "is not marked as the start of a sequence" : "is marked as the start of a sequence", " in ", pbt::str(o));
                if (!d.needToLearnOnTrainingData(i)) return pbt::cat("datum ", o[i], " is not learned");
                if (s.spec.nature == nature::sequential && !first && (i == 0 || o[i] != o[i - 1] + 1)) return pbt::cat("the sequence of datum ", o[i], " is broken in ", pbt::str(o));
                learned.insert(o[i]);
            }
            return "";
        }
        const int stretch = s.spec.recurrences + 1;
        std::set<int> now;
        for (int i = 0; i < s.size; ++i)
        {
            if (!d.needToLearnOnTrainingData(i)) continue;
            if (!now.insert(o[i]).second) return pbt::cat("datum ", o[i], " is learned twice");
            int start = i;
            while (start > 0 && !d.isFirstTrainingDataOfTemporalSequence(start))
            {
                if (o[start - 1] != o[start] - 1) return pbt::cat("datum ", o[i], " is not preceded by its predecessors in ", pbt::str(o));
                --start;
            }
            if (!d.isFirstTrainingDataOfTemporalSequence(start)) return pbt::cat("no start before the datum ", o[i], " in ", pbt::str(o));
            const int length = i - start + 1;
            if (length != stretch && !(length < stretch && start == 0 && o[start] == 0)) return pbt::cat("datum ", o[i], " is learned after ", length - 1, " others, with ", s.spec.recurrences, " recurrences, in ", pbt::str(o));
        }
        learned.insert(now.begin(), now.end());
        return "";
    }

    string original(const Shuffled& s)
    {
        auto& d = *s.data;
        const auto o = order(s);
        for (int i = 0; i < s.size; ++i)
        {
            if (o[i] != i) return "the original order is not restored: " + pbt::str(o);
            if (d.getTrainingOutputs(i) != s.spec.trainOut[i]) return pbt::cat("the label of the datum ", i, " is not restored");
            const bool first = s.spec.nature == nature::timeSeries ? i == 0 : s.spec.resetTrain(i);
            if (d.isFirstTrainingDataOfTemporalSequence(i) != first) return pbt::cat("the mark of the start is wrong for the datum ", i);
            if (!d.needToLearnOnTrainingData(i)) return pbt::cat("datum ", i, " is not learned");
        }
        return "";
    }
}

static void permutation(pbt::Case& c, nature n)
{
    Shuffled s = gen(c, {n}, 60);
    c.check(original(s).empty(), "before any shuffle: " + original(s));
    const int stretch = s.spec.recurrences + 1;
    int steps = c.ranged(1, 12, 70), sinceUnshuffle = 0;
    std::set<int> learned;
    for (int i = 0; i < steps; ++i)
    {
        if (c.chance(12))
        {
            s.data->unshuffle();
            const auto b = original(s);
            c.check(b.empty(), "after unshuffle: " + b);
            c.label("unshuffled");
            continue;
        }
        s.data->shuffle();
        ++sinceUnshuffle;
        const auto b = broken(s, learned);
        c.check(b.empty(), pbt::cat("after the shuffle ", i + 1, ": ", b));
        if (s.spec.nature != nature::timeSeries && c.chance(20)) // batches are consecutive
        {
            const int batch = c.range(1, min(s.size, c.chance(10) ? 100 : 4)), at = c.range(0, s.size - batch);
            const auto o = order(s);
            double sum = 0;
            for (int k = 0; k < batch; ++k) sum += o[at + k];
            c.check(fabs(s.data->getTrainingData(at, batch)[0] - sum / batch) < 1e-4, "a batch is not the mean of consecutive data");
        }
    }
    if (n == nature::timeSeries)
    {
        // as many consecutive shuffles as there are steps in a stretch, from any shuffle on
        learned.clear();
        for (int i = 0; i < stretch; ++i)
        {
            s.data->shuffle();
            const auto b = broken(s, learned);
            c.check(b.empty(), pbt::cat("after ", sinceUnshuffle + i + 1, " shuffles: ", b));
        }
        for (int i = 0; i < s.size; ++i) c.check(learned.contains(i), pbt::cat("datum ", i, " of ", s.size, " is not learned in ", stretch, " consecutive shuffles"));
    }
    if (c.chance(40))
    {
        s.data->unshuffle();
        const auto b = original(s);
        c.check(b.empty(), "after unshuffle: " + b);
    }
    if (s.size > 2 * stretch && sinceUnshuffle > 1) c.nontrivial();
}
PROPERTY(C13, nonTemporal, 15000, 400000, "several shuffles of at least three data") { permutation(c, nature::nonTemporal); }
PROPERTY(C13, sequential, 15000, 400000, "several shuffles of at least three data") { permutation(c, nature::sequential); }
PROPERTY(C13, timeSeries, 15000, 400000, "several shuffles of more than two stretches") { permutation(c, nature::timeSeries); }

PROPERTY(C13, huge, 60, 1200, "more than 32768 data, shuffled")
{
    Shuffled s = gen(c, {nature::nonTemporal, nature::sequential, nature::timeSeries}, 80000, true);
    const auto before = original(s);
    c.check(before.empty(), "before any shuffle: " + before);
    std::set<int> learned;
    for (int i = c.range(1, 3); i > 0; --i)
    {
        s.data->shuffle();
        const auto b = broken(s, learned);
        c.check(b.empty(), b);
    }
    s.data->unshuffle();
    const auto after = original(s);
    c.check(after.empty(), "after unshuffle: " + after);
    if (s.size > 32768) c.nontrivial();
    if (s.size > 65536) c.label("more than 65536 data");
}

PROPERTY(C13, everyPlace, 1200, 20000, "at least three data, sequences or stretches")
{
    // each datum, sequence or stretch reaches any place: with 80 n shuffles the probability to miss one is less than n^2 exp(-80)
    Shuffled s = gen(c, {nature::nonTemporal, nature::sequential, nature::timeSeries}, 9);
    auto& d = *s.data;
    const int stretch = s.spec.recurrences + 1;
    vector<int> group((size_t)s.size); // of each datum
    int groups = 0;
    if (s.spec.nature == nature::nonTemporal) for (int i = 0; i < s.size; ++i) group[i] = groups++;
    if (s.spec.nature == nature::sequential) for (int i = 0, g = -1; i < s.size; ++i) { if (s.spec.resetTrain(i)) ++g; group[i] = g; groups = g + 1; }
    if (s.spec.nature == nature::timeSeries)
    {
        // the stretches of the shuffles without offset
        groups = s.size / stretch;
        for (int i = 0; i < s.size; ++i) group[i] = i / stretch;
    }
    if (groups < 1) c.discard();
    vector<vector<int>> seen((size_t)groups, vector<int>((size_t)groups));
    vector<int> previous;
    int moved = 0;
    const int rounds = 80 * groups;
    for (int r = 0; r < rounds; ++r)
    {
        d.shuffle();
        if (s.spec.nature == nature::timeSeries) for (int i = 1; i < stretch; ++i) d.shuffle();
        const auto o = order(s);
        if (r && o != previous) ++moved;
        previous = o;
        int place = 0;
        for (int i = 0; i < s.size && place < groups; ++i)
        {
            if (s.spec.nature == nature::nonTemporal) seen[o[i]][place++] = 1;
            if (s.spec.nature == nature::sequential && d.isFirstTrainingDataOfTemporalSequence(i)) seen[group[o[i]]][place++] = 1;
            if (s.spec.nature == nature::timeSeries && d.needToLearnOnTrainingData(i))
            {
                // the stretches of all offsets are counted by what they end with
                if (i < s.spec.recurrences) continue; // before the first stretch
                const int g = (o[i] - s.spec.recurrences) / stretch;
                if (g < groups) seen[g][place++] = 1;
            }
        }
    }
    for (int a = 0; a < groups; ++a)
        for (int b = 0; b < groups; ++b)
            // the last stretches may not fit with an offset
            if (s.spec.nature != nature::timeSeries || (a < groups - 1 && b < groups - 1))
                c.check(seen[a][b], pbt::cat(s.spec.nature == nature::sequential ? "sequence " : s.spec.nature == nature::timeSeries ? "stretch " : "datum ", a, " never comes at the place ", b, " in ", rounds, " shuffles of ", groups));
    const int movable = s.spec.nature == nature::timeSeries ? groups - 1 : groups;
    if (movable >= 2) c.check(moved > 0, "shuffling moves nothing");
    if (groups >= 3) c.nontrivial();
}

PROPERTY(C13, trained, 2500, 60000, "several epochs were trained")
{
    // the same, when the shuffles are made by trainings
    Shuffled s = gen(c, {nature::nonTemporal, nature::sequential, nature::timeSeries}, 30);
    Net net;
    net.input = {(int)s.spec.trainIn[0].size()};
    L l;
    l.kind = FC;
    l.n = (int)s.spec.trainOut[0].size();
    l.act = activation::tanh;
    net.layers = {l};
    net.finalize();
    net.lr = 1e-6f;
    auto nn = net.build();
    auto& d = *s.data;
    std::set<int> learned;
    int epochs = 0;
    for (int i = c.range(1, 3); i > 0; --i)
    {
        const int n = c.range(1, 4);
        const int batch = s.spec.nature == nature::nonTemporal ? c.range(1, min(3, s.size)) : 1;
        if (c.chance(70)) nn->train(d, snn::operator""_ep((unsigned long long)n), batch, c.range(0, 2));
        else
        {
            nn->startTrainingAsync(d, batch, c.range(0, 2));
            nn->waitFor(snn::operator""_ep((unsigned long long)n) || snn::operator""_ms(20ull));
            nn->stopTrainingAsync();
        }
        epochs += n;
        if (c.chance(30)) nn->evaluate(d);
        if (epochs == 0) continue;
        std::set<int> unused;
        const bool shuffledOnce = !s.data->sets[snn::training].shuffledIndexes.empty();
        c.check(shuffledOnce, "no order");
        const auto b = broken(s, unused);
        c.check(b.empty(), pbt::cat("after ", epochs, " epochs: ", b));
    }
    if (c.chance(50)) { d.unshuffle(); const auto b = original(s); c.check(b.empty(), "after unshuffle: " + b); }
    if (epochs > 2 && s.size > 3) c.nontrivial();
}
