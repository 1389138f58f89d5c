// Generated networks and the reference model they are compared with.
#pragma once
#include "engine.hpp"
#include <snn/neural_network/StraightforwardNeuralNetwork.hpp>
#include <memory>

namespace m
{
    using snn::activation;
    using snn::StraightforwardNeuralNetwork;
    using Weights = std::vector<std::vector<std::vector<float>>>; // layer, neuron (or gate for GRU), weight
    using std::string;
    using std::vector;

    enum Kind { FC, REC, GRU, CONV, LC, POOL };
    enum OptType { DROPOUT, L1, L2, MULT, SOFTMAX };
    struct Opt { OptType type; float value; };

    struct L // description of a layer
    {
        Kind kind;
        int n = 0;      // neurons (FC, REC, GRU) or filters (CONV, LC)
        int k = 0;      // size of the kernel
        activation act = activation::sigmoid;
        vector<Opt> opts{};
        // what it implies
        vector<int> in{}, out{}; // shapes
        int nIn = 0, nOut = 0;
        int neurons = 0;         // number of neurons
        int perNeuron = 0;       // number of weights of a neuron (of a gate for GRU)
        int positions = 1;       // of the kernel
        float bias = 1.0f;       // constant that multiplies the weight of the bias
        vector<vector<int>> idx{}; // CONV, LC, POOL: for each position the index of each input of the kernel, -1 = outside
    };

    struct Net
    {
        vector<int> input;
        vector<L> layers;
        float lr = 0.03f, momentum = 0.0f;

        bool finalize();          // computes what the layers imply, false if a layer cannot be built
        int nIn() const;
        int nOut() const { return layers.back().nOut; }
        int parameters() const;
        bool has(Kind k) const;
        bool temporal() const { return has(REC) || has(GRU); }
        bool hasOpts() const;
        string text() const;
        vector<snn::LayerModel> models() const;
        snn::NeuralNetworkOptimizerModel optimizer() const { return snn::StochasticGradientDescent(lr, momentum); }
        std::unique_ptr<StraightforwardNeuralNetwork> build() const { return std::make_unique<StraightforwardNeuralNetwork>(models(), optimizer()); }
    };
    snn::LayerModel model(const L& l);
    snn::LayerOptimizerModel model(const Opt& o);
    snn::LayerModel inputModel(const vector<int>& shape);

    struct Gen // what to generate
    {
        vector<Kind> kinds{FC, CONV, LC, POOL};
        vector<activation> acts{activation::sigmoid, activation::iSigmoid, activation::tanh, activation::ReLU,
                                activation::GELU, activation::gaussian, activation::identity};
        int maxLayers = 4;
        int maxInputs = 60;
        int maxNeurons = 6;
        int maxOutputs = 0;        // of the last layer, 0 = no limit
        vector<OptType> opts{};    // layer optimizers that may be used
        float lrMax = 0.5f;
        bool momentum = false;
        bool needParameters = true;
        int outputs = 0;           // if not 0 the last layer is a fully connected one with this number of outputs
        bool noLc1dBug = false;    // avoid the shapes of the known finding on locally connected 1D
        bool in2D = false;         // the input has three dimensions
        bool big = true;           // a few networks are much deeper, wider or have a larger input than the limits above
    };
    Net genNet(pbt::Case& c, const Gen& g);
    Net genHuge(pbt::Case& c, bool training); // one or two layers with tens of thousands of inputs, positions or outputs
bool lc1dBug(const Net& net, size_t layer); // shape of the known finding on the back propagation of locally connected 1D

    void stir(pbt::Case& c); // moves the random engines of the library
    Weights genWeights(pbt::Case& c, const Net& net, double amplitude);
    Weights readWeights(snn::internal::NeuralNetwork& nn, const Net& net);
    void writeWeights(snn::internal::NeuralNetwork& nn, const Net& net, const Weights& w); // all but GRU
    vector<float> genVector(pbt::Case& c, int n, double amplitude);
    void setRate(snn::internal::NeuralNetwork& nn, float lr, float momentum);

    // ------------------------------------------------------------------ arithmetic with an error bound
    struct E
    {
        double v = 0, e = 0;
        E() = default;
        E(double v) : v(v) {}
        E(double v, double e) : v(v), e(e) {}
    };
    E operator+(E a, E b);
    E operator-(E a, E b);
    E operator*(E a, E b);
    E activate(activation a, E x);
    E derivative(activation a, E x, bool& ambiguous);
    double exact(activation a, double x);
    double exactDerivative(activation a, double x);
    struct Sum // sum of terms, added in any order
    {
        double v = 0, e = 0, abs = 0, quantum = 0; // multiples of the quantum: the sum is exact in any order when it is small enough
        int n = 0;
        void add(E t)
        {
            v += t.v; e += t.e; abs += std::fabs(t.v) + t.e; ++n;
            if (t.v != 0) { const double q = lowest(t.v); if (quantum == 0 || q < quantum) quantum = q; }
        }
        E get() const
        {
            if (e == 0 && abs < 1e30 && (abs == 0 || (quantum > 1e-30 && abs / quantum <= 16777216.0))) return {v, 0};
            return {v, e + 6e-8 * (n + 1) * abs};
        }
        static double lowest(double x); // the value of its lowest bit
    };
    bool close(float actual, E expected, double slack = 0);

    // ------------------------------------------------------------------ reference model
    enum Flag : unsigned // known defects and accepted variants
    {
        KF_RESET = 1,       // a temporal reset leaves the last output of the recurrent neurons
        KF_GRU_FORWARD = 2, // a GRU never keeps its previous output for the blend
        KF_REC_SGD = 4,     // recurrent weight and bias of recurrent neurons are mixed up in the update
        KF_GRU_GRADIENT = 8,// wrong errors for the gates of a GRU
        KF_LC1D = 16,       // locally connected 1D sends back its errors to wrong places
        CONV_SEQUENTIAL = 32 // a convolution updates its weights after each position (instead of all together)
    };
    class Sim
    {
    public:
        Sim(const Net& net, unsigned flags);
        const Net& net;
        unsigned flags;
        float lr, momentum;
        bool ambiguous = false;  // a kink or a tie was met in the last training step: the derivative does not exist
        bool overflow = false;   // a value does not fit in single precision: nothing is known from there on
        struct Rec { E lastOutput, previousOutput, sum, previousSum, recurrentError; };
        struct State
        {
            vector<vector<E>> w;                 // neuron (gate), weight
            vector<vector<vector<E>>> prev;      // neuron, position, weight
            vector<E> inputs, sums, outs, raw;   // last pass: inputs, weighted sums, outputs after and before the layer optimizers
            vector<Rec> rec;                     // neuron (gate)
            vector<E> h, u, o;                   // GRU: output of the previous step, update and output gates
            vector<int> chosen;                  // POOL: index of the maximum
            vector<float> mask;                  // dropout, empty = no dropped output
            vector<E> maskApplied;
        };
        vector<State> st;

        void setWeights(const Weights& w);
        vector<E> forward(const vector<float>& in, bool reset, bool training);
        void learn(const vector<float>& desired);                 // after forward(..., true)
        void train(const vector<float>& in, const vector<float>& desired, bool reset) { forward(in, reset, true); learn(desired); }
        string compare(const Weights& actual, const Weights* before = nullptr) const; // "" or the first difference
        bool fuzzy(double limit = 1e-3) const;                    // the error bounds are too big to be useful, or the values too big to last
        void forget();                                            // no momentum
    private:
        vector<E> back(size_t l, vector<E> errors, bool first);
        void recurrentUpdate(State& s, size_t g, E error, const L& l);
    };

    // The reference model with every subset of the known defects that may matter for a network: the
    // implementation has to agree with at least one, and the smallest subset that agrees is what is reported.
    class Variants
    {
    public:
        Variants(const Net& net, unsigned knownFlags, bool learning);
        template <class F> void each(F f) // f returns "" or a difference
        {
            for (size_t i = 0; i < sims.size(); ++i)
                if (difference[i].empty()) difference[i] = f(sims[i]);
            ++step;
        }
        bool alive() const { for (auto& d : difference) if (d.empty()) return true; return false; }
        bool ambiguous() const { for (size_t i = 0; i < sims.size(); ++i) if (difference[i].empty() && sims[i].ambiguous) return true; return false; }
        bool fuzzy() const { for (size_t i = 0; i < sims.size(); ++i) if (difference[i].empty() && sims[i].fuzzy()) return true; return false; }
        void stopIfDead(pbt::Case& c);
        void finish(pbt::Case& c);
        vector<Sim> sims;
        vector<string> difference;
        int step = 0;
        bool report = true; // false: the known defects are about another property
    };
    unsigned relevant(const Net& net, bool learning); // known defects that this network can show

    vector<float> values(const vector<E>& v);
    string compare(const vector<float>& actual, const vector<E>& expected, double slack = 0); // "" or the first difference
    bool same(const vector<float>& a, const vector<float>& b); // bit for bit
    string str(const Weights& w);

    // ------------------------------------------------------------------ data sets
    struct DataSpec
    {
        snn::problem problem;
        snn::nature nature;
        int recurrences = 0;
        snn::vector2D<float> trainIn, trainOut, testIn, testOut;   // flat rows
        vector<int> trainSeq, testSeq;                             // lengths of the sequences (sequential)
        bool shared = false;                                       // the testing set is the training set
        float separator = 0.5f, precision = 0.1f;
        bool setOptions = false;
        std::unique_ptr<snn::Data> build() const;
        string text() const;
        bool resetTrain(int i) const;  // for an index of the original order
        bool resetTest(int i) const;
        bool needTest(int i) const;
    };
    struct DataGen
    {
        vector<snn::problem> problems{snn::problem::classification, snn::problem::multipleClassification, snn::problem::regression};
        vector<snn::nature> natures{snn::nature::nonTemporal};
        int maxTrain = 12, maxTest = 8;
        bool big = true;           // a few sets are much larger, with longer sequences and more recurrences
        double amplitude = 1;
        bool emptyTest = true;
    };
    DataSpec genData(pbt::Case& c, int nIn, int nOut, const DataGen& g);

    // ------------------------------------------------------------------ a network, its data and things done with them
    struct Op
    {
        enum Kind { INFER, CLUSTER, TRAIN_ONCE, EVALUATE, TRAIN, SHUFFLE, RATE, SET, SUMMARY } kind;
        vector<float> in{}, desired{};
        bool reset = false;
        int n = 0, batch = 1, frequency = 1;
        float lr = 0, momentum = 0;
        string text() const;
    };
    struct Live
    {
        Net net;
        DataSpec spec;
        std::unique_ptr<snn::Data> data;
        std::unique_ptr<StraightforwardNeuralNetwork> nn; // destroyed before its data: it may be training
        vector<Op> past;
    };
    struct LiveGen
    {
        Gen net;
        DataGen data;
        int maxPast = 6;
        vector<Op::Kind> ops{Op::TRAIN_ONCE, Op::INFER, Op::CLUSTER, Op::EVALUATE, Op::TRAIN, Op::SHUFFLE, Op::RATE, Op::SET};
        LiveGen()
        {
            net.kinds = {FC, REC, GRU, CONV, LC, POOL};
            net.maxInputs = 16;
            net.maxNeurons = 4;
            net.momentum = true;
            net.lrMax = 0.1f;
            data.maxTrain = 8;
            data.maxTest = 5;
            data.natures = {snn::nature::nonTemporal, snn::nature::sequential, snn::nature::timeSeries};
            data.emptyTest = false;
        }
    };
    Op genOp(pbt::Case& c, const Net& net, const DataSpec& d, const vector<Op::Kind>& kinds);
    vector<Op> genOps(pbt::Case& c, const Net& net, const DataSpec& d, int count, const vector<Op::Kind>& kinds);
    string text(const vector<Op>& ops);
    void apply(const Op& op, const Net& net, StraightforwardNeuralNetwork& nn, snn::Data& data, vector<float>& log);
    // everything that can be observed of a network, then what it does when the operations are applied
    vector<float> observe(const Net& net, StraightforwardNeuralNetwork& nn);
    vector<float> play(const vector<Op>& ops, const Net& net, StraightforwardNeuralNetwork& nn, snn::Data& data);
    // With some probability the network is replaced by a copy or by itself saved and loaded.
    void reincarnate(pbt::Case& c, std::unique_ptr<StraightforwardNeuralNetwork>& nn, int percent);
    void diverge(pbt::Case& c, Live& live); // uses the network with values that make it diverge
    Live genLive(pbt::Case& c, const LiveGen& g);
    string differs(const vector<float>& a, const vector<float>& b); // "" or the first difference beyond rounding
    string statsText(const StraightforwardNeuralNetwork& nn);
    vector<float> stats(const StraightforwardNeuralNetwork& nn);
    string readFile(const string& path);
}
