// C23 Utility functions obey their definitions for all arguments
#include "model.hpp"
#include <chrono>
#include <climits>
#include <snn/tools/Tools.hpp>
using namespace m;
using namespace std;
namespace t = snn::tools;

namespace
{
    // Chernoff: a count this far from its expectation has a probability less than 1e-14
    bool plausible(double hits, double n, double p)
    {
        const double q = hits / n;
        if (p <= 0) return hits == 0;
        if (p >= 1) return hits == n;
        auto kl = [](double a, double b) { return a == 0 ? 0 : a * log(a / b); };
        return n * (kl(q, p) + kl(1 - q, 1 - p)) < 33;
    }

    template <class T> void extrema(pbt::Case& c, const vector<T>& v)
    {
        if (v.empty())
        {
            int thrown = 0;
            try { (void)t::getMinValue(v); } catch (const exception&) { ++thrown; }
            try { (void)t::getMaxValue(v); } catch (const exception&) { ++thrown; }
            c.check(thrown == 2, "the minimum or the maximum of an empty vector is not refused");
            return;
        }
        const T lo = *ranges::min_element(v), hi = *ranges::max_element(v);
        c.check(t::getMinValue(v) == lo, pbt::cat("the minimum of ", pbt::str(v), " is ", t::getMinValue(v)));
        c.check(t::getMaxValue(v) == hi, pbt::cat("the maximum of ", pbt::str(v), " is ", t::getMaxValue(v)));
    }

    template <class F> void number(pbt::Case& c, F format, float value, size_t width, int digits)
    {
        const string s = format(value, width);
        c.text(pbt::cat("number ", value, " width ", width, " digits ", digits, " = '", s, "'"));
        c.check(s.size() >= width, pbt::cat("'", s, "' is shorter than ", width));
        const size_t start = s.find_first_not_of(' ');
        c.check(start != string::npos && s.find(' ', start) == string::npos, "'" + s + "' is not a number");
        const string n = s.substr(start);
        c.check(start == 0 || s.size() == width, "'" + s + "' has useless spaces");
        const size_t point = n.find('.');
        c.check(digits == 0 ? point == string::npos : point != string::npos && n.size() - point - 1 == (size_t)digits, "'" + s + "' has another number of digits");
        const double back = stod(n), unit = pow(10.0, -digits);
        c.check(fabs(back - (double)value) <= unit / 2 * (1 + 1e-9) + fabs(value) * 1e-15, pbt::cat("'", s, "' is not the rounding of ", value));
    }
}

PROPERTY(C23, coordinates, 4000, 200000, "three dimensions greater than one")
{
    const int X = c.ranged(1, 60), Y = c.ranged(1, 60), Z = c.ranged(1, 20);
    c.text(pbt::cat(X, "x", Y, "x", Z));
    // all the indexes, in order
    int index = 0;
    for (int z = 0; z < Z; ++z)
        for (int y = 0; y < Y; ++y)
            for (int x = 0; x < X; ++x, ++index)
            {
                if (t::flatten(x, y, z, X, Y) != index) c.fail(pbt::cat("flatten(", x, ", ", y, ", ", z, ", ", X, ", ", Y, ") is ", t::flatten(x, y, z, X, Y), " instead of ", index));
                if (t::roughenX(index, X, Y) != x || t::roughenY(index, X, Y) != y || t::roughenZ(index, X, Y) != z)
                    c.fail(pbt::cat("index ", index, " of ", X, "x", Y, " is ", t::roughenX(index, X, Y), " ", t::roughenY(index, X, Y), " ", t::roughenZ(index, X, Y), " instead of ", x, " ", y, " ", z));
                if (z == 0)
                {
                    if (t::flatten(x, y, X) != index) c.fail(pbt::cat("flatten(", x, ", ", y, ", ", X, ") is ", t::flatten(x, y, X), " instead of ", index));
                    if (t::roughenX(index, X) != x || t::roughenY(index, X) != y)
                        c.fail(pbt::cat("index ", index, " of width ", X, " is ", t::roughenX(index, X), " ", t::roughenY(index, X)));
                }
            }
    c.count(index);
    // big ones
    const int bx = c.range(1, 1000), by = c.range(1, 1000), bz = c.range(1, 1000);
    const int x = c.range(0, bx - 1), y = c.range(0, by - 1), z = c.range(0, bz - 1);
    const int i = t::flatten(x, y, z, bx, by);
    c.check(i == (z * by + y) * bx + x, pbt::cat("flatten(", x, ", ", y, ", ", z, ", ", bx, ", ", by, ") is ", i));
    c.check(t::roughenX(i, bx, by) == x && t::roughenY(i, bx, by) == y && t::roughenZ(i, bx, by) == z, pbt::cat("index ", i, " of ", bx, "x", by));
    const int wide = c.range(1, 40000), wx = c.range(0, wide - 1), wy = c.range(0, 50000);
    c.check(t::flatten(wx, wy, wide) == wy * wide + wx && t::roughenX(wy * wide + wx, wide) == wx && t::roughenY(wy * wide + wx, wide) == wy, pbt::cat("index of ", wx, " ", wy, " in the width ", wide));
    if (X > 1 && Y > 1 && Z > 1) c.nontrivial();
}

PROPERTY(C23, extrema, 4000, 200000, "at least three values, the least and the greatest being neither first nor last")
{
    const int n = c.chance(5) ? 0 : c.ranged(1, 60);
    const int type = c.range(0, 3);
    auto middle = [&](const auto& v)
    {
        if (v.size() < 3) return;
        const auto lo = ranges::min_element(v) - v.begin(), hi = ranges::max_element(v) - v.begin();
        const auto last = (ptrdiff_t)v.size() - 1;
        if (lo > 0 && hi > 0 && lo < last && hi < last) c.nontrivial();
    };
    auto run = [&]<class T>(T, auto make)
    {
        vector<T> v;
        for (int i = 0; i < n; ++i) v.push_back((T)make());
        c.text(pbt::str(v));
        extrema(c, v);
        middle(v);
    };
    const double amplitude = c.pick(vector<double>{1, 1e-30, 1e38, 1000});
    const bool negative = c.chance(30);
    switch (type)
    {
    case 0: run(0.0f, [&] { const double x = c.real(amplitude); return negative ? -fabs(x) : x; }); break;
    case 1: run(0, [&] { return c.chance(10) ? c.pick(vector<int>{INT_MIN, INT_MAX}) : negative ? -c.range(1, 100) : c.range(-100, 100); }); break;
    case 2: run(0.0, [&] { return c.real(amplitude); }); break;
    default: run((int64_t)0, [&] { return (int64_t)c.range(-1000, 1000) * 10000000000ll; });
    }
}

PROPERTY(C23, concatenation, 2000, 100000, "at least two vectors that are not empty and an empty one")
{
    snn::vector2D<int> v;
    vector<int> expected;
    int full = 0, empty = 0;
    for (int n = c.ranged(0, 20); n > 0; --n)
    {
        vector<int> row;
        for (int k = c.ranged(0, 20); k > 0; --k) row.push_back(c.range(-1000, 1000));
        row.empty() ? ++empty : ++full;
        expected.insert(expected.end(), row.begin(), row.end());
        v.push_back(row);
    }
    const auto copy = v;
    const auto flat = t::flatten(v);
    c.check(flat == expected, "flatten gives " + pbt::str(flat) + " instead of " + pbt::str(expected));
    c.check(v == copy, "flatten changed its argument");
    if (full > 1 && empty) c.nontrivial();
}

PROPERTY(C23, integers, 1500, 40000, "a range of several values that has negative ones")
{
    stir(c);
    int min = c.chance(30) ? c.range(0, 100) : c.range(-100, 100);
    const int width = c.chance(60) ? c.range(1, 12) : c.ranged(1, 3000);
    if (c.chance(10)) min *= 10000000;
    const int max = min + width;
    c.text(pbt::cat("[", min, ", ", max, "["));
    const int n = width <= 12 ? 3000 : 2000;
    vector<int> count((size_t)width);
    double below = 0;
    for (int i = 0; i < n; ++i)
    {
        const int x = t::randomBetween(min, max);
        if (x < min || x >= max) c.fail(pbt::cat(x, " is not in [", min, ", ", max, "["));
        ++count[(size_t)(x - min)];
        if (x - min < width / 2) ++below;
    }
    c.count(n);
    for (int k = 0; k < width; ++k)
        c.check(plausible(count[k], n, 1.0 / width), pbt::cat(min + k, " is drawn ", count[k], " times out of ", n, " in [", min, ", ", max, "["));
    c.check(plausible(below, n, (width / 2) / (double)width), pbt::cat("the first half of the range is drawn ", below, " times out of ", n));
    if (width > 1 && min < 0) c.nontrivial();
}

PROPERTY(C23, reals, 1500, 40000, "a range whose bounds are different and not zero")
{
    stir(c);
    const double scale = c.pick(vector<double>{1, 1, 100, 1e-3, 1e6});
    float min = c.realf(scale), max = min + (c.chance(5) ? 0.0f : (float)(fabs(c.real(scale)) + 0.01 * scale));
    if (c.chance(20)) { min = -fabs(max); max = -min; }
    c.text(pbt::cat("[", min, ", ", max, "["));
    const int n = 2000;
    const bool vectors = c.chance(50);
    vector<float> values;
    if (vectors)
    {
        const int size = c.ranged(0, 40);
        const auto v = t::randomVector(min, max, (size_t)size);
        c.check((int)v.size() == size, pbt::cat(v.size(), " values instead of ", size));
        values = t::randomVector(min, max, (size_t)n);
        c.check((int)values.size() == n, pbt::cat(values.size(), " values instead of ", n));
    }
    else for (int i = 0; i < n; ++i) values.push_back(t::randomBetween(min, max));
    for (auto x : values) c.check(x >= min && x <= max, pbt::cat(x, " is not in [", min, ", ", max, "["));
    if (max > min)
    {
        vector<double> quarter(4);
        double repeated = 0;
        for (size_t i = 0; i < values.size(); ++i)
        {
            ++quarter[(size_t)std::clamp((int)(4 * ((double)values[i] - min) / ((double)max - min)), 0, 3)];
            if (i && values[i] == values[i - 1]) ++repeated;
        }
        for (int q = 0; q < 4; ++q) c.check(plausible(quarter[q], n, 0.25), pbt::cat(quarter[q], " values out of ", n, " in a quarter of [", min, ", ", max, "["));
        c.check(repeated < n / 10, pbt::cat(repeated, " values are the same as the one before"));
        if (min != 0 && max != 0) c.nontrivial();
    }
}

PROPERTY(C23, numbers, 8000, 400000, "a number that is not an integer and a width it does not fill")
{
    float value = c.realf(c.pick(vector<double>{1, 10, 1e4, 1e9, 1e-3}));
    if (c.chance(20)) value = (float)c.range(-4000, 4000) / 8;          // halves
    if (c.chance(5)) value = c.pick(vector<float>{0.0f, 0.99995f, 9.995f, 99.5f, 999.5f, 1e20f, 3e38f, -0.5f, 0.5f, 1.5f, 2.5f});
    const size_t width = (size_t)c.range(0, 20);
    switch (c.range(0, 3))
    {
    case 0: number(c, [](float v, size_t w) { return t::toConstSizeString<0>(v, w); }, value, width, 0); break;
    case 1: number(c, [](float v, size_t w) { return t::toConstSizeString<2>(v, w); }, value, width, 2); break;
    case 2: number(c, [](float v, size_t w) { return t::toConstSizeString<4>(v, w); }, value, width, 4); break;
    default:
    {
        const int i = c.chance(10) ? c.pick(vector<int>{INT_MIN, INT_MAX, 0, -1}) : c.range(-100000, 100000);
        const string s = t::toConstSizeString(i, width), d = to_string(i);
        c.text(pbt::cat("integer ", i, " width ", width, " = '", s, "'"));
        const string expected = d.size() >= width ? d : string(width - d.size(), ' ') + d;
        c.check(s == expected, "'" + s + "' instead of '" + expected + "'");
        if (d.size() < width) c.nontrivial();
        return;
    }
    }
    if (value != floor(value) && width > 12) c.nontrivial();
}

PROPERTY(C23, durations, 8000, 400000, "a duration of more than a minute")
{
    // each part once, from the largest unit
    int64_t ms;
    switch (c.range(0, 5))
    {
    case 0: ms = c.range(0, 3000); break;
    case 1: ms = c.range(0, 200000); break;
    case 2: ms = c.range(0, 20000000); break;
    case 3: ms = (int64_t)c.range(0, 300) * 3600000 + c.range(0, 3600000); break;
    case 4: ms = c.pick(vector<int64_t>{1000, 60000, 3600000, 86400000}) * c.range(1, 70) + c.range(-2, 2); break;
    default: ms = (int64_t)c.range(0, 1000000) * 1000003ll;
    }
    if (ms < 0) ms = 0;
    const string s = t::toString(chrono::milliseconds(ms));
    c.text(pbt::cat(ms, " ms = '", s, "'"));
    if (ms == 0) { c.check(s.find_first_of("123456789") == string::npos, "'" + s + "' for no duration"); return; }
    static const pair<const char*, int64_t> units[] = {{"h", 3600000}, {"min", 60000}, {"s", 1000}, {"ms", 1}};
    int64_t total = 0, smallest = 0;
    size_t at = 0;
    int parts = 0;
    while (at < s.size())
    {
        size_t digits = at;
        while (digits < s.size() && isdigit((unsigned char)s[digits])) ++digits;
        c.check(digits > at, "'" + s + "' is not a duration");
        const int64_t n = stoll(s.substr(at, digits - at));
        size_t end = digits;
        while (end < s.size() && isalpha((unsigned char)s[end])) ++end;
        const string unit = s.substr(digits, end - digits);
        int64_t size = 0;
        for (auto& [name, u] : units) if (unit == name) size = u;
        c.check(size > 0, "'" + s + "' has an unknown unit");
        c.check(parts == 0 || size < smallest, "'" + s + "' repeats or disorders its units");
        c.check(parts == 0 || n * size < smallest, "'" + s + "' repeats some of the time");
        // the largest unit: the next one would be more than one (a whole one may be written in the smaller unit)
        if (parts == 0) for (auto& [name, u] : units) c.check(!(u > size && ms > u), "'" + s + "' is not in its largest unit");
        c.check(parts > 0 || n > 0, "'" + s + "' starts with nothing");
        total += n * size;
        smallest = size;
        ++parts;
        at = end;
        if (at < s.size()) { c.check(s[at] == ' ', "'" + s + "' is not a duration"); ++at; }
    }
    c.check(parts > 0, "nothing is written");
    c.check(total <= ms && ms - total < smallest, pbt::cat("'", s, "' is ", total, " ms instead of ", ms));
    // hours come with minutes and minutes with seconds
    if (ms > 60000) { c.check(parts == 2, "'" + s + "' has one unit only"); c.nontrivial(); }
}
