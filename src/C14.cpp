// C14 Data sets hand out what they were given, and refuse what is malformed
#include "model.hpp"
using namespace m;
using namespace std;
using snn::nature;
using snn::problem;

namespace
{
    using Rows = snn::vector2D<float>;

    const char* const PROBLEMS[] = {"classification", "multiple classification", "regression"};

    struct Given
    {
        DataSpec spec;
        unique_ptr<snn::Data> data;
        int nIn = 0, nOut = 0, train = 0, test = 0;
    };

    Given gen(pbt::Case& c, int maxTrain = 16)
    {
        stir(c);
        Given g;
        g.nIn = c.ranged(1, 8, 60);
        g.nOut = c.ranged(1, 5, 30);
        DataGen dg;
        dg.natures = {nature::nonTemporal, nature::sequential, nature::timeSeries};
        dg.maxTrain = maxTrain;
        dg.maxTest = 10;
        dg.amplitude = c.pick(vector<double>{1, 100, 1e-3});
        g.spec = genData(c, g.nIn, g.nOut, dg);
        // some labels of classification problems have several classes, the first one is the label
        if (g.spec.problem == problem::classification && !g.spec.shared && c.chance(30))
            for (auto& row : g.spec.trainOut) if (c.chance(30)) row.back() = 1;
        c.text(g.spec.text());
        c.label(PROBLEMS[(int)g.spec.problem]);
        c.label(vector<string>{"non temporal", "sequential", "time series"}[(int)g.spec.nature]);
        g.train = (int)g.spec.trainIn.size();
        g.test = (int)g.spec.testIn.size();
        return g;
    }

    int classOf(const vector<float>& label)
    {
        for (size_t i = 0; i < label.size(); ++i) if (label[i] == 1) return (int)i;
        return -1;
    }

    template <class F> bool throws(F f)
    {
        try { f(); }
        catch (const exception&) { return true; }
        return false;
    }
}

PROPERTY(C14, handsOut, 20000, 600000, "shuffled, at least two data")
{
    Given g = gen(c);
    auto& s = g.spec;
    // the caller keeps its own rows: what it does with them afterwards does not matter
    auto data = s.build();
    auto& d = *data;
    c.check(d.sizeOfData == g.nIn && d.numberOfLabels == g.nOut, pbt::cat("sizes ", d.sizeOfData, " and ", d.numberOfLabels));
    c.check(d.sets[snn::training].size == g.train && d.sets[snn::testing].size == g.test, pbt::cat("numbers of data ", d.sets[snn::training].size, " and ", d.sets[snn::testing].size));
    c.check(d.typeOfProblem == s.problem && d.typeOfTemporal == s.nature, "kind of problem");
    bool shuffled = false;
    for (int round = c.ranged(1, 6); round > 0; --round)
    {
        const int what = c.range(0, 3);
        if (what == 1) { d.shuffle(); shuffled = true; }
        if (what == 2) { d.shuffle(); d.unshuffle(); shuffled = false; }
        const auto order = d.sets[snn::training].shuffledIndexes;
        for (int i = 0; i < g.train; ++i)
        {
            // the pair must be one of those that were given, whatever the shuffle
            const auto in = d.getTrainingData(i);
            const auto out = d.getTrainingOutputs(i);
            const int o = shuffled ? order[i] : i;
            c.check(in == s.trainIn[o] && out == s.trainOut[o], pbt::cat("training datum ", i, " (", o, ") is ", pbt::str(in), " -> ", pbt::str(out), " instead of ", pbt::str(s.trainIn[o]), " -> ", pbt::str(s.trainOut[o])));
            c.check(d.getData(snn::training, i) == in && d.getOutputs(snn::training, i) == out, "getData or getOutputs is different");
            if (s.problem == problem::classification)
                c.check(d.getTrainingLabel(i) == classOf(s.trainOut[o]) && d.getLabel(snn::training, i) == classOf(s.trainOut[o]), pbt::cat("label of the training datum ", i, " (", o, ") is ", d.getTrainingLabel(i), " instead of ", classOf(s.trainOut[o])));
        }
        for (int i = 0; i < g.test; ++i)
        {
            c.check(d.getTestingData(i) == s.testIn[i] && d.getData(snn::testing, i) == s.testIn[i], pbt::cat("testing datum ", i));
            if (s.problem == problem::classification)
                c.check(d.getTestingLabel(i) == classOf(s.testOut[i]) && d.getLabel(snn::testing, i) == classOf(s.testOut[i]), pbt::cat("label of the testing datum ", i));
            else
                c.check(d.getTestingOutputs(i) == s.testOut[i] && d.getOutputs(snn::testing, i) == s.testOut[i], pbt::cat("outputs of the testing datum ", i));
            c.check(d.isFirstTestingDataOfTemporalSequence(i) == s.resetTest(i), pbt::cat("start of a sequence at the testing datum ", i));
            c.check(d.needToEvaluateOnTestingData(i) == s.needTest(i), pbt::cat("testing datum ", i, " has to be evaluated: ", s.needTest(i)));
        }
        // batches
        for (int k = c.range(0, 3); k > 0; --k)
        {
            const int batch = c.range(1, g.train), at = c.range(0, g.train - batch);
            vector<double> in((size_t)g.nIn), out((size_t)g.nOut);
            vector<double> size((size_t)g.nIn);
            for (int i = at; i < at + batch; ++i)
            {
                const int o = shuffled ? order[i] : i;
                for (int j = 0; j < g.nIn; ++j) { in[j] += (double)s.trainIn[o][j] / batch; size[j] += fabs(s.trainIn[o][j]) / batch; }
                for (int j = 0; j < g.nOut; ++j) out[j] += (double)s.trainOut[o][j] / batch;
            }
            const auto bi = d.getTrainingData(at, batch), bo = d.getTrainingOutputs(at, batch);
            c.check((int)bi.size() == g.nIn && (int)bo.size() == g.nOut, "size of a batch");
            for (int j = 0; j < g.nIn; ++j) c.check(fabs(bi[j] - in[j]) <= 1e-5 * size[j] + 1e-37, pbt::cat("input ", j, " of the batch of ", batch, " at ", at, " is ", bi[j], " instead of ", in[j]));
            for (int j = 0; j < g.nOut; ++j) c.check(fabs(bo[j] - out[j]) <= 1e-5, pbt::cat("label ", j, " of the batch of ", batch, " at ", at, " is ", bo[j], " instead of ", out[j]));
        }
    }
    // the options that apply and those that do not
    if (s.problem == problem::regression)
    {
        c.check(d.getPrecision() == (s.setOptions ? s.precision : 0.1f), "precision");
        d.setPrecision(0.3f);
        c.check(d.getPrecision() == 0.3f, "precision");
        c.check(throws([&] { d.setSeparator(0.4f); }) && throws([&] { (void)d.getSeparator(); }), "a separator is accepted for a regression");
    }
    else
    {
        c.check(d.getSeparator() == (s.setOptions ? s.separator : 0.5f), "separator");
        d.setSeparator(0.3f);
        c.check(d.getSeparator() == 0.3f, "separator");
        c.check(throws([&] { d.setPrecision(0.4f); }) && throws([&] { (void)d.getPrecision(); }), "a precision is accepted for a classification");
    }
    if (s.problem != problem::classification)
    {
        c.check(throws([&] { (void)d.getTrainingLabel(0); }), "a class is given without classification");
        if (g.test) c.check(throws([&] { (void)d.getTestingLabel(0); }), "a class is given without classification");
    }
    if (shuffled && g.train >= 2) c.nontrivial();
}

PROPERTY(C14, normalization, 20000, 600000, "at least two training data with different values")
{
    Given g = gen(c);
    auto& s = g.spec;
    for (int j = 0; j < g.nIn; ++j)
    {
        const int kind = c.range(0, 4); // constant, few values, shifted, as it is
        if (kind == 1) { const float x = c.realf(10); for (auto& r : s.trainIn) r[j] = x; }
        if (kind == 2) for (auto& r : s.trainIn) r[j] = (float)c.range(-2, 2);
        if (kind == 3) { const float x = (float)c.range(-50, 50); for (auto& r : s.trainIn) r[j] += x; }
    }
    if (s.shared) { s.testIn = s.trainIn; s.testOut = s.trainOut; }
    auto data = s.build();
    float lo = c.realf(10), hi = c.realf(10);
    if (c.chance(40)) { lo = c.chance(50) ? 0.0f : -1.0f; hi = 1; }
    if (lo > hi) swap(lo, hi);
    c.text(pbt::cat("normalize between ", lo, " and ", hi));
    const bool before = c.chance(40);
    if (before) data->shuffle();
    double more = 1; // rounding of an earlier normalization
    if (c.chance(25))
    {
        const float a = (float)c.range(-3, 3), b = a + (float)c.range(1, 4);
        c.text(pbt::cat("already between ", a, " and ", b));
        c.label("normalized twice");
        data->normalize(a, b);
        more = 4 * (1 + max(fabs(a), fabs(b)) / (b - a));
    }
    data->normalize(lo, hi);
    if (c.chance(40)) data->shuffle();
    data->unshuffle();
    const double span = (double)hi - lo, around = max(fabs(lo), fabs(hi));
    bool varied = false;
    for (int j = 0; j < g.nIn; ++j)
    {
        double least = INFINITY, most = -INFINITY;
        for (auto& r : s.trainIn) { least = min(least, (double)r[j]); most = max(most, (double)r[j]); }
        // rounding of the subtraction of big values
        const double slack = 1e-6 * more * (around + span) + more * (most > least ? span * 2e-7 * max(fabs(least), fabs(most)) / (most - least) : 0) + 1e-37;
        if (most > least) varied = true;
        float actualLeast = INFINITY, actualMost = -INFINITY;
        for (int i = 0; i < g.train; ++i)
        {
            const double x = data->getTrainingData(i)[j];
            actualLeast = min(actualLeast, (float)x);
            actualMost = max(actualMost, (float)x);
            if (most > least)
            {
                const double e = lo + span * ((double)s.trainIn[i][j] - least) / (most - least);
                c.check(fabs(x - e) <= slack, pbt::cat("feature ", j, " of the training datum ", i, ": ", s.trainIn[i][j], " between ", least, " and ", most, " becomes ", x, " instead of ", e));
            }
            else c.check(x >= lo - slack && x <= hi + slack, pbt::cat("the constant feature ", j, " becomes ", x));
        }
        if (most > least)
        {
            c.check(fabs(actualLeast - lo) <= slack && fabs(actualMost - hi) <= slack, pbt::cat("feature ", j, " is between ", actualLeast, " and ", actualMost));
            for (int i = 0; i < g.test; ++i)
            {
                const double e = lo + span * ((double)s.testIn[i][j] - least) / (most - least);
                const double x = data->getTestingData(i)[j];
                const double far = max(1.0, fabs((double)s.testIn[i][j] - least) / (most - least));
                c.check(fabs(x - e) <= slack * far * 4 + more * span * 2e-7 * fabs(s.testIn[i][j]) / (most - least), pbt::cat("feature ", j, " of the testing datum ", i, ": ", s.testIn[i][j], " becomes ", x, " instead of ", e));
            }
        }
        else
            for (int i = 0; i < g.test; ++i)
            {
                // the same map: what has the constant value of the training becomes the same
                if (s.testIn[i][j] == s.trainIn[0][j]) c.check(fabs(data->getTestingData(i)[j] - data->getTrainingData(0)[j]) <= slack, pbt::cat("the constant feature ", j, " is different in the testing set"));
                c.check(isfinite(data->getTestingData(i)[j]) , "not finite");
            }
    }
    // the labels are what they were
    for (int i = 0; i < g.train; ++i) c.check(data->getTrainingOutputs(i) == s.trainOut[i], "the normalization changed a label");
    if (varied && g.train >= 2) c.nontrivial();
}

PROPERTY(C14, refused, 30000, 900000, "refused")
{
    // any constructor, with zero, one or two mistakes
    stir(c);
    const auto problemKind = c.pick(vector<problem>{problem::classification, problem::multipleClassification, problem::regression});
    const auto natureKind = c.pick(vector<nature>{nature::nonTemporal, nature::sequential, nature::timeSeries});
    const bool three = natureKind == nature::sequential ? !c.chance(10) : c.chance(10);
    const bool shared = c.chance(40);
    const int nIn = c.range(1, 4), nOut = c.chance(15) ? 1 : c.range(2, 4);
    const int recurrences = natureKind == nature::timeSeries ? (c.chance(15) ? c.range(-3, 0) : c.range(1, 6)) : c.range(0, 3);
    vector<int> mistakes;
    bool valid = true;
    if (three != (natureKind == nature::sequential)) valid = false;
    if (problemKind == problem::classification && nOut < 2) valid = false;
    if (natureKind == nature::timeSeries && recurrences < 1) valid = false;
    string text = pbt::cat(PROBLEMS[(int)problemKind], " ", vector<string>{"non temporal", "sequential", "time series"}[(int)natureKind], three ? " 3D" : " 2D", shared ? " one set" : " two sets", " inputs ", nIn, " labels ", nOut, " recurrences ", recurrences);
    Rows in[2], out[2];
    vector<vector<int>> cut(2);
    for (int k = 0; k < (shared ? 1 : 2); ++k)
    {
        const int n = k == 0 ? (c.chance(8) ? 0 : c.range(1, 9)) : c.range(0, 5);
        if (k == 0 && n == 0) valid = false;
        for (int i = 0; i < n; ++i)
        {
            in[k].push_back(genVector(c, nIn, 1));
            vector<float> label((size_t)nOut);
            label[c.draw((uint32_t)nOut)] = 1;
            out[k].push_back(label);
        }
        for (int left = n; left > 0; left -= cut[k].back()) cut[k].push_back(c.range(1, min(left, 4)));
        text += pbt::cat("; ", n, k == 0 ? " training" : " testing", " data");
        if (!c.chance(25)) continue;
        // a mistake in the rows
        const int m = c.range(0, 8);
        auto& rows = c.chance(50) ? in[k] : out[k];
        const string which = &rows == &in[k] ? "inputs" : "labels";
        const size_t at = rows.empty() ? 0 : c.draw((uint32_t)rows.size());
        switch (m)
        {
        case 0: case 1: // one more
            rows.push_back(rows.empty() ? vector<float>((size_t)(&rows == &in[k] ? nIn : nOut), 1.0f) : rows[0]);
            if (&rows == &in[k]) cut[k].push_back(1);
            valid = false;
            text += ", one more in the " + which;
            break;
        case 2: case 3: // one less
            if (rows.empty()) break;
            rows.pop_back();
            if (&rows == &in[k] && --cut[k].back() == 0) cut[k].pop_back();
            valid = false;
            text += ", one less in the " + which;
            break;
        case 4: case 5: // ragged, that may only be a consistent other size
            if (rows.empty()) break;
            if (c.chance(50)) rows[at].push_back(1); else rows[at].pop_back();
            if (!(k == 0 && rows.size() == 1 && (shared || in[1].empty()))) valid = false;
            else if (rows[at].size() == 0) valid = false;
            text += pbt::cat(", the ", which, " ", at, " of another size");
            break;
        case 6: // no label or input at all
            if (rows.empty()) break;
            rows.clear();
            if (&rows == &in[k]) cut[k].clear();
            valid = false;
            text += ", no " + which;
            break;
        case 7: // an empty sequence
            if (!three) break;
            cut[k].insert(cut[k].begin() + (long)c.draw((uint32_t)cut[k].size() + 1), 0);
            valid = false;
            text += ", an empty sequence";
            break;
        default: break;
        }
    }
    // a ragged first set of one row has consequences on the second one: left to the general rule
    auto consistent = [&]
    {
        if (in[0].empty() || out[0].empty()) return false;
        const size_t a = in[0].back().size(), b = out[0].back().size();
        for (int k = 0; k < (shared ? 1 : 2); ++k)
        {
            if (in[k].size() != out[k].size()) return false;
            for (auto& r : in[k]) if (r.size() != a) return false;
            for (auto& r : out[k]) if (r.size() != b) return false;
        }
        if (problemKind == problem::classification && b < 2) return false;
        return true;
    };
    bool noSequence = true;
    for (int k = 0; k < (shared ? 1 : 2); ++k) for (int n : cut[k]) if (three && n == 0) noSequence = false;
    valid = consistent() && noSequence && three == (natureKind == nature::sequential) && !(natureKind == nature::timeSeries && recurrences < 1);
    if (!in[0].empty() && in[0].back().empty()) c.discard(); // rows without any value
    if (!out[0].empty() && out[0].back().empty()) c.discard();
    c.text(text);
    auto build = [&]() -> unique_ptr<snn::Data>
    {
        if (!three)
        {
            if (shared) return make_unique<snn::Data>(problemKind, in[0], out[0], natureKind, recurrences);
            return make_unique<snn::Data>(problemKind, in[0], out[0], in[1], out[1], natureKind, recurrences);
        }
        snn::vector3D<float> seq[2];
        for (int k = 0; k < 2; ++k)
        {
            size_t i = 0;
            for (int n : cut[k])
            {
                seq[k].emplace_back(in[k].begin() + (long)i, in[k].begin() + (long)i + n);
                i += (size_t)n;
            }
        }
        if (shared) return make_unique<snn::Data>(problemKind, seq[0], out[0], natureKind, recurrences);
        return make_unique<snn::Data>(problemKind, seq[0], out[0], seq[1], out[1], natureKind, recurrences);
    };
    unique_ptr<snn::Data> data;
    try
    {
        data = build();
    }
    catch (const exception& e)
    {
        c.check(!valid, pbt::cat("valid data are refused: ", e.what(), "\n", text));
        c.nontrivial();
        return;
    }
    c.check(valid, "malformed data are accepted: " + text);
    c.check(data->isValid() == 0, pbt::cat("error ", data->isValid()));
    data->shuffle();
    c.check(data->isValid() == 0, pbt::cat("error ", data->isValid(), " after a shuffle"));
}

PROPERTY(C14, huge, 60, 1200, "more than 32768 data or values in a datum, which are normalized or batched")
{
    DataSpec s;
    s.problem = c.pick(vector<problem>{problem::classification, problem::multipleClassification, problem::regression});
    s.nature = c.chance(70) ? nature::nonTemporal : nature::timeSeries;
    s.recurrences = s.nature == nature::timeSeries ? c.range(1, 5) : 0;
    const bool wide = c.chance(30);
    const int rows = wide ? c.range(2, 4) : c.range(30000, 80000), nIn = wide ? c.range(30000, 80000) : c.range(1, 3), nOut = s.problem == problem::classification ? 2 : c.range(1, 2);
    uint64_t seed = c.draw(1u << 30) + 1;
    auto next = [&](int most) { seed = seed * 6364136223846793005ull + 1442695040888963407ull; return (int)((seed >> 33) % (uint64_t)most); };
    // the extremes of a column are rare: one or two data among all
    auto make = [&](snn::vector2D<float>& in, snn::vector2D<float>& out, int n)
    {
        for (int i = 0; i < n; ++i)
        {
            vector<float> row, label((size_t)nOut, 0.0f);
            for (int j = 0; j < nIn; ++j) row.push_back((float)(next(1025) - 512) / 64);
            if (s.problem == problem::classification) label[(size_t)next(nOut)] = 1;
            else for (auto& x : label) x = s.problem == problem::regression ? (float)next(65) / 64 : (float)next(2);
            in.push_back(row);
            out.push_back(label);
        }
    };
    make(s.trainIn, s.trainOut, rows);
    make(s.testIn, s.testOut, wide ? 2 : c.range(1, 40000));
    for (int j = 0; j < (wide ? 50 : nIn); ++j)
    {
        const size_t column = wide ? (size_t)next(nIn) : (size_t)j;
        if (c.chance(60)) s.trainIn[(size_t)next(rows)][column] = 20;
        if (c.chance(60)) s.trainIn[(size_t)next(rows)][column] = -30;
    }
    c.text(pbt::cat(rows, " data of ", nIn, " values, ", s.testIn.size(), " testing data, problem ", (int)s.problem, s.nature == nature::timeSeries ? ", time series" : ""));
    auto d = s.build();
    c.check(d->sizeOfData == nIn && d->sets[snn::training].size == rows && d->sets[snn::testing].size == (int)s.testIn.size(), "sizes");
    if (c.chance(50)) d->shuffle();
    const auto order = d->sets[snn::training].shuffledIndexes;
    const bool shuffled = !order.empty();
    for (int k = 0; k < 3 && s.nature == nature::nonTemporal; ++k)
    {
        const int batch = c.chance(30) ? rows : c.range(1, rows), at = c.range(0, rows - batch);
        vector<double> in((size_t)nIn), out((size_t)nOut);
        for (int i = at; i < at + batch; ++i)
        {
            const auto o = (size_t)(shuffled ? order[i] : i);
            for (int j = 0; j < nIn; ++j) in[j] += s.trainIn[o][j]; // exact
            for (int j = 0; j < nOut; ++j) out[j] += s.trainOut[o][j];
        }
        const auto bi = d->getTrainingData(at, batch), bo = d->getTrainingOutputs(at, batch);
        for (int j = 0; j < nIn; ++j) c.check(fabs(bi[j] - in[j] / batch) <= 1e-6 * fabs(in[j] / batch) + 1e-30, pbt::cat("input ", j, " of the batch of ", batch, " at ", at, " is ", bi[j], " instead of ", in[j] / batch));
        for (int j = 0; j < nOut; ++j) c.check(fabs(bo[j] - out[j] / batch) <= 1e-6 * fabs(out[j] / batch) + 1e-30, pbt::cat("label ", j, " of the batch of ", batch, " at ", at, " is ", bo[j], " instead of ", out[j] / batch));
    }
    const float lo = c.pick(vector<float>{0, -1, -5}), hi = c.pick(vector<float>{1, 3});
    d->normalize(lo, hi);
    d->unshuffle();
    snn::vector2D<float> trainRows, testRows;
    for (int i = 0; i < rows; ++i) trainRows.push_back(d->getTrainingData(i));
    for (int i = 0; i < (int)s.testIn.size(); ++i) testRows.push_back(d->getTestingData(i));
    for (int j = 0; j < nIn; ++j)
    {
        double least = INFINITY, most = -INFINITY;
        for (auto& r : s.trainIn) { least = min(least, (double)r[j]); most = max(most, (double)r[j]); }
        if (!(most > least)) continue;
        auto expected = [&](float x) { return lo + ((double)hi - lo) * (x - least) / (most - least); };
        for (int i = 0; i < rows; ++i)
        {
            const double x = trainRows[i][j], e = expected(s.trainIn[i][j]);
            if (!(fabs(x - e) <= 1e-4)) c.fail(pbt::cat("feature ", j, " of the training datum ", i, ": ", s.trainIn[i][j], " between ", least, " and ", most, " becomes ", x, " instead of ", e));
        }
        for (int i = 0; i < (int)s.testIn.size(); ++i)
        {
            const double x = testRows[i][j], e = expected(s.testIn[i][j]);
            if (!(fabs(x - e) <= 1e-4 * max(1.0, fabs(e)))) c.fail(pbt::cat("feature ", j, " of the testing datum ", i, ": ", s.testIn[i][j], " becomes ", x, " instead of ", e));
        }
    }
    for (int i = 0; i < rows; ++i) if (d->getTrainingOutputs(i) != s.trainOut[i]) c.fail(pbt::cat("label of the training datum ", i));
    if (rows > 32768 || nIn > 32768) c.nontrivial();
}
