// C06 A saved network loads back as the same network
#include "model.hpp"
#include <filesystem>
#include <fstream>
#include <locale>
using namespace m;
using namespace std;

static LiveGen generator(pbt::Case& c)
{
    LiveGen g;
    g.maxPast = 7;
    if (c.chance(60)) g.net.opts = {DROPOUT, L1, L2, MULT, SOFTMAX};
    return g;
}

static void describe(pbt::Case& c, const StraightforwardNeuralNetwork& a, const StraightforwardNeuralNetwork& b, const string& what)
{
    c.check(a == b && b == a && !(a != b) && !(b != a), what + " is not equal to the network");
}

PROPERTY(C06, roundTrip, 5000, 150000, "the network was used before it was saved and what follows trains it or continues a sequence")
{
    Live live = genLive(c, generator(c));
    auto& nn = *live.nn;
    const string file = c.scratch() + "/" + c.pick(vector<string>{"a.snn", "b", "with space.snn", "accent\xc3\xa9.snn"});
    if (c.chance(30)) nn.autoSaveFilePath = c.chance(50) ? "" : "other name.snn";
    nn.autoSaveWhenBetter = false;
    const bool autoSave = c.chance(20);
    const auto next = genOps(c, live.net, live.spec, c.ranged(1, 6, 20), {Op::TRAIN_ONCE, Op::INFER, Op::CLUSTER, Op::EVALUATE, Op::TRAIN});
    c.text("then: " + m::text(next));
    const auto reference = pbt::inFork([&] { return play(next, live.net, nn, *live.data); });
    StraightforwardNeuralNetwork before(nn);
    nn.saveAs(file);
    c.check(nn.autoSaveFilePath == file, "the path of the automatic save is " + nn.autoSaveFilePath);
    before.autoSaveFilePath = file;
    describe(c, nn, before, "the network before it was saved");
    auto d = differs(observe(live.net, nn), observe(live.net, before));
    c.check(d.empty(), "saving changed the network: " + d);
    auto loaded = unique_ptr<StraightforwardNeuralNetwork>(&StraightforwardNeuralNetwork::loadFrom(file));
    c.check(!loaded->isTraining(), "the loaded network is training");
    describe(c, nn, *loaded, "the loaded network");
    c.check(loaded->autoSaveFilePath == file && !loaded->autoSaveWhenBetter, "the automatic save of the loaded network is different");
    d = differs(observe(live.net, nn), observe(live.net, *loaded));
    c.check(d.empty(), "the loaded network has other values: " + d);
    c.check(loaded->summary() == nn.summary(), "the loaded network has another summary");
    d = differs(reference, pbt::inFork([&] { return play(next, live.net, nn, *live.data); }));
    c.check(d.empty(), "the network behaves in another way after it was saved: " + d);
    d = differs(reference, pbt::inFork([&] { return play(next, live.net, *loaded, *live.data); }));
    c.check(d.empty(), "the loaded network behaves in another way: " + d);
    // again: the same file
    const string first = readFile(file);
    if (autoSave)
    {
        // through another name, in which case only the name differs
        loaded->saveAs(file);
        auto again = unique_ptr<StraightforwardNeuralNetwork>(&StraightforwardNeuralNetwork::loadFrom(file));
        describe(c, *loaded, *again, "the network loaded again");
    }
    loaded->saveAs(file);
    c.check(readFile(file) == first, "saving the loaded network gives another file");
    bool used = false, cont = false;
    for (auto& o : live.past) used |= o.kind != Op::SHUFFLE && o.kind != Op::SET && o.kind != Op::RATE;
    for (auto& o : next) cont |= o.kind == Op::TRAIN || o.kind == Op::TRAIN_ONCE || ((o.kind == Op::INFER || o.kind == Op::CLUSTER) && !o.reset);
    if (used && cont) c.nontrivial();
}

PROPERTY(C06, generations, 1500, 40000, "saved at least three times in a history that uses the network between")
{
    // a network that is saved and loaded between its operations ends as one that never was
    Live live = genLive(c, generator(c));
    const string file = c.scratch() + "/n.snn";
    live.nn->autoSaveFilePath = file;
    const auto next = genOps(c, live.net, live.spec, c.ranged(3, 7, 20), {Op::TRAIN_ONCE, Op::INFER, Op::EVALUATE, Op::TRAIN, Op::RATE, Op::SET});
    c.text("then: " + m::text(next));
    vector<bool> reload;
    int reloads = 0;
    for (size_t i = 0; i < next.size(); ++i) { reload.push_back(c.chance(70)); reloads += reload.back(); }
    const auto a = pbt::inFork([&] { return play(next, live.net, *live.nn, *live.data); });
    const auto b = pbt::inFork([&]
    {
        vector<float> log = observe(live.net, *live.nn);
        auto* nn = live.nn.get();
        for (size_t i = 0; i < next.size(); ++i)
        {
            if (reload[i])
            {
                nn->saveAs(file);
                nn = &StraightforwardNeuralNetwork::loadFrom(file);
            }
            apply(next[i], live.net, *nn, *live.data, log);
            const auto o = observe(live.net, *nn);
            log.insert(log.end(), o.begin(), o.end());
        }
        return log;
    });
    const auto d = differs(a, b);
    c.check(d.empty(), "saving and loading between the operations changes the results: " + d);
    if (reloads >= 3) c.nontrivial();
}

PROPERTY(C06, diverged, 3000, 80000, "a value of the network is not finite or greater than 1e15")
{
    // any value may be stored, also those of a network that diverged
    stir(c);
    LiveGen g = generator(c);
    g.maxPast = 2;
    g.net.acts = {activation::identity, activation::ReLU, activation::sigmoid, activation::tanh, activation::GELU};
    Live live = genLive(c, g);
    auto& nn = *live.nn;
    diverge(c, live);
    const auto before = observe(live.net, nn);
    const string file = c.scratch() + "/n.snn";
    nn.saveAs(file);
    auto loaded = unique_ptr<StraightforwardNeuralNetwork>(&StraightforwardNeuralNetwork::loadFrom(file));
    auto d = differs(before, observe(live.net, *loaded));
    c.check(d.empty(), "the loaded network has other values: " + d);
    const auto next = genOps(c, live.net, live.spec, c.ranged(1, 3), {Op::TRAIN_ONCE, Op::EVALUATE, Op::INFER});
    c.text("then: " + m::text(next));
    const auto a = pbt::inFork([&] { return play(next, live.net, nn, *live.data); });
    d = differs(a, pbt::inFork([&] { return play(next, live.net, *loaded, *live.data); }));
    c.check(d.empty(), "the loaded network behaves in another way: " + d);
}

namespace
{
    struct Numbers : numpunct<char> // as in many countries, or worse
    {
        char point, separator;
        Numbers(char p, char s) : point(p), separator(s) {}
        char do_decimal_point() const override { return point; }
        char do_thousands_sep() const override { return separator; }
        string do_grouping() const override { return "\3"; }
        string do_truename() const override { return "vrai"; }
        string do_falsename() const override { return "faux"; }
    };
    void setLocale(int which)
    {
        const locale classic = locale::classic();
        locale::global(which == 0 ? classic : which == 1 ? locale(classic, new Numbers(',', '.')) : which == 2 ? locale(classic, new Numbers(',', ' ')) : locale(classic, new Numbers('.', '\'')));
    }
}

PROPERTY(C06, environment, 1500, 40000, "saved and loaded under different locales or from different directories, a used network")
{
    // what is in the file does not depend on the locale, on the directory nor on what the file held before
    Live live = genLive(c, generator(c));
    auto& nn = *live.nn;
    const string dir = c.scratch();
    filesystem::create_directories(dir + "/a/b");
    const string name = c.pick(vector<string>{"n.snn", "a/n", "./n.snn", "a/../n.snn", "a/b/.n", "-n", string(200, 'x')});
    const int saving = c.range(0, 3), loading = c.range(0, 3);
    const bool relative = c.chance(50), longer = c.chance(50), moved = c.chance(40);
    c.text(pbt::cat("file ", name.substr(0, 20), relative ? ", relative" : "", longer ? ", over a longer file" : "", moved ? ", moved" : "", ", locales ", saving, " and ", loading));
    const auto next = genOps(c, live.net, live.spec, c.ranged(1, 4), {Op::TRAIN_ONCE, Op::INFER, Op::EVALUATE, Op::TRAIN});
    c.text("then: " + m::text(next));
    const auto reference = pbt::inFork([&] { return play(next, live.net, nn, *live.data); });
    const auto here = filesystem::current_path();
    filesystem::current_path(dir);
    const string path = relative ? name : dir + "/" + name;
    nn.saveAs(path);
    const string expected = readFile(path);
    if (longer) { ofstream f(path, ios::binary); f << expected << string(expected.size() + 100, '7'); }
    else filesystem::remove(path);
    setLocale(saving);
    nn.saveAs(path);
    setLocale(0);
    c.check(readFile(path) == expected, "the file depends on the locale or on what it held before");
    string from = path;
    if (moved)
    {
        from = dir + "/elsewhere.snn";
        filesystem::rename(path, from);
    }
    setLocale(loading);
    unique_ptr<StraightforwardNeuralNetwork> loaded(&StraightforwardNeuralNetwork::loadFrom(from));
    setLocale(0);
    filesystem::current_path(here);
    c.check(loaded->autoSaveFilePath == path, "the path of the automatic save of the loaded network is " + loaded->autoSaveFilePath);
    describe(c, nn, *loaded, "the loaded network");
    auto d = differs(observe(live.net, nn), observe(live.net, *loaded));
    c.check(d.empty(), "the loaded network has other values: " + d);
    d = differs(reference, pbt::inFork([&] { return play(next, live.net, *loaded, *live.data); }));
    c.check(d.empty(), "the loaded network behaves in another way: " + d);
    if (!live.past.empty() && (saving != loading || relative || moved)) c.nontrivial();
}
