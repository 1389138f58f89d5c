// C21 Exported images show the data, the filters and their outputs
#include "model.hpp"
#include <array>
#include <filesystem>
using namespace m;
using namespace std;
namespace fs = std::filesystem;

namespace
{
    struct Image
    {
        int w = 0, h = 0;
        vector<array<int, 3>> pixels; // red, green, blue, first row at the top
        const array<int, 3>& at(int x, int y) const { return pixels[(size_t)y * w + x]; }
    };

    // an uncompressed bitmap of 24 bits
    string parse(const string& file, Image& image)
    {
        auto u = [&](size_t at, int n) { uint32_t r = 0; for (int i = n; i-- > 0;) r = r << 8 | (uint8_t)file[at + i]; return r; };
        if (file.size() < 54 || file[0] != 'B' || file[1] != 'M') return "not a bitmap";
        const size_t start = u(10, 4);
        image.w = (int)u(18, 4);
        int h = (int)u(22, 4);
        const bool down = h < 0;
        image.h = abs(h);
        if (u(28, 2) != 24 || u(30, 4) != 0) return "not a bitmap of 24 bits";
        const size_t row = ((size_t)image.w * 3 + 3) / 4 * 4;
        if (image.w < 1 || image.h < 1) return pbt::cat("size ", image.w, "x", image.h);
        if (file.size() < start + row * image.h) return pbt::cat(file.size(), " bytes for ", image.w, "x", image.h);
        image.pixels.resize((size_t)image.w * image.h);
        for (int y = 0; y < image.h; ++y)
            for (int x = 0; x < image.w; ++x)
            {
                const size_t p = start + row * (down ? y : image.h - 1 - y) + 3 * x;
                image.pixels[(size_t)y * image.w + x] = {(int)(uint8_t)file[p + 2], (int)(uint8_t)file[p + 1], (int)(uint8_t)file[p]};
            }
        return "";
    }

    Image read(pbt::Case& c, const string& path)
    {
        Image image;
        c.check(fs::exists(path), "no file " + fs::path(path).filename().string());
        const auto error = parse(readFile(path), image);
        c.check(error.empty(), fs::path(path).filename().string() + ": " + error);
        return image;
    }

    bool isFilter(const L& l) { return (l.kind == CONV || l.kind == LC || l.kind == POOL) && l.in.size() == 3; }

    // the same value in the three channels, within one level
    void grey(pbt::Case& c, const Image& image, int x, int y, double level, const string& what)
    {
        const auto& p = image.at(x, y);
        c.check(p[0] == p[1] && p[1] == p[2], pbt::cat(what, ": pixel ", x, " ", y, " is not grey: ", p[0], " ", p[1], " ", p[2]));
        c.check(fabs(p[0] - level) <= 1.001, pbt::cat(what, ": pixel ", x, " ", y, " is ", p[0], " instead of ", level));
    }

    // the tiles of the filters: values[filter][y][x], NAN for any level
    void tiles(pbt::Case& c, const Image& image, const vector<vector<double>>& values, int w, int h, const string& what)
    {
        const int n = (int)values.size();
        const int side = (int)ceil(sqrt((double)n) - 1e-9), rows = (n + side - 1) / side;
        c.check(image.w == (w + 1) * side - 1 && image.h == (h + 1) * rows - 1, pbt::cat(what, ": the image of ", n, " tiles of ", w, "x", h, " has the size ", image.w, "x", image.h));
        vector<char> seen((size_t)image.w * image.h);
        for (int f = 0; f < n; ++f)
            for (int y = 0; y < h; ++y)
                for (int x = 0; x < w; ++x)
                {
                    const int px = f % side * (w + 1) + x, py = f / side * (h + 1) + y;
                    seen[(size_t)py * image.w + px] = 1;
                    if (!isnan(values[f][(size_t)y * w + x])) grey(c, image, px, py, values[f][(size_t)y * w + x], pbt::cat(what, ", filter ", f));
                }
        for (int y = 0; y < image.h; ++y)
            for (int x = 0; x < image.w; ++x)
                if (!seen[(size_t)y * image.w + x]) c.check(image.at(x, y)[0] == 0 && image.at(x, y)[1] == 0 && image.at(x, y)[2] == 0, pbt::cat(what, ": pixel ", x, " ", y, " between the tiles is not black"));
    }

    void onlyFiles(pbt::Case& c, const string& dir, vector<string> expected)
    {
        for (auto& f : fs::directory_iterator(dir))
        {
            const auto name = f.path().filename().string();
            c.check(ranges::find(expected, name) != expected.end(), "unexpected file " + name);
            erase(expected, name);
        }
        c.check(expected.empty(), "missing file " + (expected.empty() ? "" : expected[0]));
    }

    Net network(pbt::Case& c, int maxFilters)
    {
        Gen g;
        g.in2D = c.chance(90);
        g.kinds = {CONV, LC, POOL, CONV, LC, FC};
        g.maxLayers = 4;
        g.maxInputs = 120;
        g.needParameters = false;
        g.acts = {activation::sigmoid, activation::gaussian, activation::sigmoid, activation::tanh};
        Net net = genNet(c, g);
        for (auto& l : net.layers) // any number of filters
            if ((l.kind == CONV || l.kind == LC) && c.chance(50)) l.n = c.ranged(1, maxFilters);
        net.finalize();
        return net;
    }
}

PROPERTY(C21, data, 3000, 100000, "an image of more than one column, row and channel")
{
    stir(c);
    Net net = network(c, 4);
    if (net.input.size() == 3)
    {
        net.input[0] = c.range(1, 6);
        if (c.chance(30)) net.input[1] = c.range(1, 20);
        net.layers = {{c.pick(vector<Kind>{CONV, LC, POOL}), 1, c.range(1, min(net.input[1], net.input[2]))}};
        if (c.chance(10)) net.layers = {{FC, 2}}; // no longer 2D
    }
    net.finalize();
    DataSpec d;
    d.problem = snn::problem::regression;
    d.nature = snn::nature::nonTemporal;
    const int tests = c.ranged(1, 12), trains = c.ranged(1, 6);
    auto row = [&] { vector<float> r(net.nIn()); for (auto& x : r) x = c.chance(20) ? (float)c.range(0, 1) : (float)c.range(0, 1000) / 1000; return r; };
    for (int i = 0; i < tests; ++i) { d.testIn.push_back(row()); d.testOut.push_back(vector<float>(net.nOut(), 0)); }
    for (int i = 0; i < trains; ++i) { d.trainIn.push_back(row()); d.trainOut.push_back(vector<float>(net.nOut(), 0)); }
    auto data = d.build();
    auto nn = net.build();
    if (c.chance(50)) data->shuffle();
    const string dir = c.scratch();
    const int index = c.range(0, tests - 1);
    c.text(pbt::cat(net.text(), "; datum ", index, " of ", tests));
    nn->saveData2DAsBitmap(dir + "/image", *data, index);
    if (net.layers[0].in.size() != 3 || net.layers[0].kind == FC) { c.label("not 2D"); onlyFiles(c, dir, {}); return; }
    const string name = pbt::cat("image_input", index, ".bmp");
    onlyFiles(c, dir, {name});
    const auto image = read(c, dir + "/" + name);
    const int C = net.input[0], w = net.input[1], h = net.input[2];
    c.check(image.w == w && image.h == h, pbt::cat("the image of a datum of ", w, "x", h, " has the size ", image.w, "x", image.h));
    for (int y = 0; y < h; ++y)
        for (int x = 0; x < w; ++x)
        {
            const float* v = &d.testIn[index][(size_t)(y * w + x) * C];
            if (C < 3) grey(c, image, x, y, v[0] * 255.0, "datum");
            else
                for (int k = 0; k < 3; ++k)
                    c.check(fabs(image.at(x, y)[k] - v[k] * 255.0) <= 1.001, pbt::cat("the ", k == 0 ? "red" : k == 1 ? "green" : "blue", " of the pixel ", x, " ", y, " is ", image.at(x, y)[k], " instead of ", v[k] * 255));
        }
    if (w > 1 && h > 1 && C > 1) c.nontrivial();
    c.label(pbt::cat(C, " channels"));
}

PROPERTY(C21, outputs, 2500, 80000, "a layer of several filters and positions")
{
    stir(c);
    Net net = network(c, c.chance(20) ? 60 : 20);
    c.text(net.text());
    DataSpec d;
    d.problem = snn::problem::regression;
    d.nature = snn::nature::nonTemporal;
    const int tests = c.ranged(1, 5);
    auto row = [&] { vector<float> r(net.nIn()); for (auto& x : r) x = (float)c.range(0, 1000) / 1000; return r; };
    for (int i = 0; i < tests; ++i) { d.testIn.push_back(row()); d.testOut.push_back(vector<float>(net.nOut(), 0)); }
    d.trainIn.push_back(row());
    d.trainOut.push_back(vector<float>(net.nOut(), 0));
    auto data = d.build();
    auto nn = net.build();
    writeWeights(*nn, net, genWeights(c, net, 1));
    const string dir = c.scratch();
    const int index = c.range(0, tests - 1);
    nn->saveFilterLayersAsBitmap(dir + "/out", *data, index);
    vector<string> names;
    vector<vector<float>> outputs;
    vector<float> x = d.testIn[index];
    Sim sim(net, 0);
    sim.setWeights(readWeights(*nn, net));
    (void)sim.forward(x, true, false);
    for (size_t l = 0; l < net.layers.size(); ++l) if (isFilter(net.layers[l])) names.push_back(pbt::cat("out_layer_", l, ".bmp"));
    onlyFiles(c, dir, names);
    for (size_t l = 0; l < net.layers.size(); ++l)
    {
        const L& layer = net.layers[l];
        if (!isFilter(layer)) continue;
        const auto image = read(c, dir + pbt::cat("/out_layer_", l, ".bmp"));
        const int F = layer.out[0], w = layer.out[1], h = layer.out[2];
        vector<vector<double>> values(F, vector<double>((size_t)w * h));
        for (int f = 0; f < F; ++f)
            for (int p = 0; p < w * h; ++p)
            {
                const double v = sim.st[l].outs[(size_t)p * F + f].v;
                values[f][p] = v < 0 || v > 1.0001 ? NAN : v * 255.0; // the others have no defined level
            }
        tiles(c, image, values, w, h, pbt::cat("layer ", l));
        if (F > 1 && w * h > 1) c.nontrivial();
        c.label(layer.kind == CONV ? "convolution" : layer.kind == LC ? "locally connected" : "max pooling");
    }
}

PROPERTY(C21, filters, 2500, 80000, "a layer of several filters with a kernel smaller than its input")
{
    stir(c);
    Net net = network(c, c.chance(20) ? 60 : 20);
    c.text(net.text());
    auto nn = net.build();
    writeWeights(*nn, net, genWeights(c, net, c.pick(vector<double>{1, 4})));
    const auto weights = readWeights(*nn, net);
    const string dir = c.scratch();
    nn->saveFeatureMapsAsBitmap(dir + "/map");
    vector<string> names;
    for (size_t l = 0; l < net.layers.size(); ++l) if (isFilter(net.layers[l])) names.push_back(pbt::cat("map_layer_", l, ".bmp"));
    onlyFiles(c, dir, names);
    for (size_t l = 0; l < net.layers.size(); ++l)
    {
        const L& layer = net.layers[l];
        if (!isFilter(layer)) continue;
        const auto image = read(c, dir + pbt::cat("/map_layer_", l, ".bmp"));
        const int C = layer.in[0], w = layer.in[1], h = layer.in[2], F = layer.out[0];
        vector<vector<double>> values(F, vector<double>((size_t)w * h, 0));
        if (layer.kind != POOL)
            for (int f = 0; f < F; ++f)
                for (int p = 0; p < layer.positions; ++p)
                    for (size_t j = 0; j < layer.idx[p].size(); ++j)
                        if (layer.idx[p][j] >= 0) values[f][layer.idx[p][j] / C] += weights[l][layer.kind == CONV ? f : p * F + f][j];
        for (auto& v : values) for (auto& x : v) x = (tanh(x / 2) + 1) * 127.5;
        tiles(c, image, values, w, h, pbt::cat("layer ", l));
        if (F > 1 && layer.k < w && layer.k < h) c.nontrivial();
        c.label(layer.kind == CONV ? "convolution" : layer.kind == LC ? "locally connected" : "max pooling");
    }
}
