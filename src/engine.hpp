// A small property-based testing engine.
// A case is a pure function of a sequence of recorded choices (and of the seed of the random
// engines of the library): failing sequences are shrunk and become the replay file.
// Every case runs in its own process, so that a crash, a hang or an exit is a result like another.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt
{
    constexpr size_t MAX_CHOICES = 1 << 17;

    struct Shared // memory shared by a worker and the process of a case
    {
        uint32_t n;                 // choices consumed
        uint32_t status;            // see enum below, 0 while running
        uint32_t nontrivial;
        uint32_t sub;               // number of elementary comparisons
        char message[4096];
        char text[6000];            // description of the case
        char labels[2048];          // '\n' separated
        char known[512];            // '\n' separated ids of known findings that were met
        uint32_t choices[MAX_CHOICES];
    };

    enum Status : uint32_t { RUNNING = 0, PASS = 1, DISCARD = 2, FAIL = 3, KNOWN = 4, CRASH = 5, HANG = 6 };

    struct Violation { std::string message; };
    struct Discarded {};

    class Case
    {
    public:
        Case(Shared* shared, uint64_t seed, int size, const std::vector<uint32_t>* replay);

        int size; // 0..100, the size of what is generated

        uint32_t draw(uint32_t bound);               // [0, bound[, shrinks to 0
        int range(int lo, int hi);                   // [lo, hi], shrinks to lo
        int ranged(int lo, int hi);                  // [lo, hi], upper part only reached by big sizes, biased to small values
        int ranged(int lo, int hi, int huge);        // the same, and once in 25 times up to huge
        bool chance(int percent);                    // shrinks to false
        double real(double amplitude);               // [-amplitude, amplitude], shrinks to 0
        float realf(double amplitude) { return (float)real(amplitude); }
        int weighted(std::initializer_list<int> weights); // index, shrinks to 0
        template <typename T> const T& pick(const std::vector<T>& v) { return v[draw((uint32_t)v.size())]; }

        void label(const std::string& l);            // classification of the case
        void nontrivial() { shared->nontrivial = 1; }
        void text(const std::string& t);             // description printed with the samples
        void known(const std::string& id);           // the case shows this known finding
        void count(int n = 1) { shared->sub += n; }
        [[noreturn]] void fail(const std::string& message);
        [[noreturn]] void discard() { throw Discarded(); }
        void check(bool ok, const std::string& message) { count(); if (!ok) fail(message); }

        std::string scratch();                       // a directory of this case, removed afterwards
        Shared* shared;

    private:
        uint64_t state;
        const std::vector<uint32_t>* replay;
        std::vector<std::string> labelsSeen;
        std::string scratchDir;
    };

    struct Prop
    {
        const char* check;   // "C01"
        const char* name;
        const char* rule;    // what makes a case non trivial
        void (*fn)(Case&);
        int quick;           // number of cases
        int thorough;
    };
    std::vector<Prop>& props();
    struct Register { Register(Prop p) { props().push_back(p); } };

    template <typename T> std::string str(const std::vector<T>& v, size_t max = 40)
    {
        std::ostringstream s;
        s.precision(9);
        s << "[";
        for (size_t i = 0; i < v.size() && i < max; ++i) s << (i ? " " : "") << v[i];
        if (v.size() > max) s << " ...(" << v.size() << ")";
        s << "]";
        return s.str();
    }
    template <typename... A> std::string cat(const A&... a)
    {
        std::ostringstream s;
        s.precision(9);
        (s << ... << a);
        return s.str();
    }

    // Runs f in a child process that starts from the very same state (random engines included) and
    // returns the floats it produced. Used to compare two runs that must not influence each other.
    // what: "" or the message of a violation thrown inside.
    std::vector<float> inFork(const std::function<std::vector<float>()>& f);
}

#define PROPERTY(CHECK, NAME, QUICK, THOROUGH, RULE)                                        \
    static void prop_##CHECK##_##NAME(pbt::Case& c);                                        \
    static pbt::Register reg_##CHECK##_##NAME({#CHECK, #CHECK "_" #NAME, RULE, prop_##CHECK##_##NAME, QUICK, THOROUGH}); \
    static void prop_##CHECK##_##NAME([[maybe_unused]] pbt::Case& c)
