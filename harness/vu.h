// Executor shared by the unit-level harness libraries: an element that reads cases from a file, runs them
// through a suite function and writes the results to a file.
//   input file:  one line "<suite> <token> <token> ..." per case, tokens are hex or plain
//   output file: "B <i>", result lines, "E <i>" per case (flushed, so that a crash is attributed to its case)
#ifndef VU_H
#define VU_H
#include "sst/core/component.h"
#include "sst/core/link.h"
#include "sst/core/params.h"
#include "sst/core/simulation.h"
#include "sst/core/timeLord.h"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace VU {

typedef std::vector<std::string> Toks;
struct Out
{
    FILE* f;
    void  line(const std::string& s) { fprintf(f, "%s\n", s.c_str()); }
    template <class... A>
    void pf(const char* fmt, A... a)
    {
        fprintf(f, fmt, a...);
        fputc('\n', f);
    }
    // failure found by an oracle inside the harness
    void fail(const std::string& key, const std::string& msg) { fprintf(f, "F %s %s\n", key.c_str(), clean(msg).c_str()); }
    void cls(const std::string& k) { fprintf(f, "C %s\n", k.c_str()); }
    void nontrivial(const std::string& k) { fprintf(f, "N %s\n", clean(k).c_str()); }
    static std::string clean(std::string s)
    {
        for ( auto& c : s )
            if ( c == '\n' || c == '\r' ) c = ' ';
        return s;
    }
};
// gives the suites access to the protected component API
struct Host : public SST::Component
{
    Host(SST::ComponentId_t id) : SST::Component(id) {}
    using SST::BaseComponent::getTimeConverter;
    using SST::BaseComponent::getCurrentSimTime;
    using SST::BaseComponent::getCurrentSimTimeNano;
    using SST::BaseComponent::getCurrentSimTimeMicro;
    using SST::BaseComponent::getCurrentSimTimeMilli;
    using SST::BaseComponent::getCurrentSimCycle;
    using SST::BaseComponent::getElapsedSimTime;
    using SST::BaseComponent::configureSelfLink;
    using SST::BaseComponent::registerTimeBase;
};
typedef std::function<void(Host*, const Toks&, Out&)> Suite;
inline std::map<std::string, Suite>&
suites()
{
    static std::map<std::string, Suite> m;
    return m;
}
struct Reg
{
    Reg(const char* n, Suite s) { suites()[n] = s; }
};

inline std::string
unhex(const std::string& h)
{
    std::string s;
    for ( size_t i = 0; i + 1 < h.size(); i += 2 )
        s.push_back((char)strtol(h.substr(i, 2).c_str(), nullptr, 16));
    return s;
}
inline std::string
hex(const std::string& s)
{
    static const char* d = "0123456789abcdef";
    std::string        r;
    for ( unsigned char c : s ) {
        r.push_back(d[c >> 4]);
        r.push_back(d[c & 15]);
    }
    return r.empty() ? "-" : r;
}
inline std::string
dbl(double d)
{
    char b[64];
    snprintf(b, sizeof b, "%a", d);
    return b;
}

// A choice sequence: every decision of an in-harness generator is drawn from these bytes, so that shrinking the
// byte string shrinks the generated value.
struct Choices
{
    std::string b;
    size_t      p = 0;
    Choices(const std::string& s) : b(s) {}
    uint8_t  byte() { return p < b.size() ? (uint8_t)b[p++] : 0; }
    bool     done() const { return p >= b.size(); }
    uint64_t below(uint64_t n)
    {
        if ( n <= 1 ) return 0;
        uint64_t v = 0, m = n - 1;
        while ( m ) {
            v = (v << 8) | byte();
            m >>= 8;
        }
        return v % n;
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
    bool    flag() { return byte() & 1; }
    uint64_t u64()
    {
        // biased to small and to boundary values
        switch ( below(8) ) {
        case 0: return byte();
        case 1: return ~0ull - byte();
        case 2: return 1ull << below(64);
        case 3: return (1ull << below(64)) - 1;
        default: {
            uint64_t v = 0;
            int      n = 1 + below(8);
            for ( int i = 0; i < n; i++ )
                v = (v << 8) | byte();
            return v;
        }
        }
    }
    std::string str(size_t max)
    {
        std::string s;
        size_t      n = below(max + 1);
        for ( size_t i = 0; i < n; i++ )
            s.push_back((char)byte());
        return s;
    }
};

inline void
run_file(Host* c, const std::string& in, const std::string& out)
{
    std::ifstream f(in);
    std::string   line;
    Out           o { fopen(out.c_str(), "w") };
    setvbuf(o.f, nullptr, _IOFBF, 1 << 16);
    size_t i = 0;
    while ( std::getline(f, line) ) {
        std::istringstream is(line);
        std::string        s, t;
        Toks               tk;
        is >> s;
        while ( is >> t )
            tk.push_back(t);
        o.pf("B %zu", i);
        fflush(o.f);
        auto it = suites().find(s);
        if ( it == suites().end() )
            o.line("? no suite " + s);
        else {
            try {
                it->second(c, tk, o);
            }
            catch ( const std::exception& e ) {
                o.line(std::string("! ") + Out::clean(e.what()));
            }
        }
        o.pf("E %zu", i);
        fflush(o.f);
        i++;
    }
    fclose(o.f);
}

#define VU_EXEC(LIB)                                                                                               \
    namespace {                                                                                                    \
    class Exec : public VU::Host                                                                             \
    {                                                                                                              \
    public:                                                                                                        \
        SST_ELI_REGISTER_COMPONENT(Exec, LIB, "Exec", SST_ELI_ELEMENT_VERSION(1, 0, 0), "executor", COMPONENT_CATEGORY_UNCATEGORIZED) \
        SST_ELI_DOCUMENT_PARAMS({ "in", "", "" }, { "out", "", "" })                                               \
        Exec(SST::ComponentId_t id, SST::Params& p) : VU::Host(id)                                                \
        {                                                                                                          \
            in_  = p.find<std::string>("in");                                                                      \
            out_ = p.find<std::string>("out");                                                                     \
            /* with "at", the cases run at that simulated time (core cycles) instead of in the constructor */      \
            at_  = p.find<uint64_t>("at", 0);                                                                      \
            if ( at_ == 0 )                                                                                        \
                VU::run_file(this, in_, out_);                                                                     \
            else                                                                                                   \
                link_ = configureSelfLink("l", SST::Simulation::getTimeLord()->getTimeBase(),                      \
                    new SST::Event::Handler<Exec, &Exec::handle>(this));                                           \
        }                                                                                                          \
        void setup() override                                                                                      \
        {                                                                                                          \
            if ( at_ ) link_->send(at_, nullptr);                                                                  \
        }                                                                                                          \
        void        handle(SST::Event*) { VU::run_file(this, in_, out_); }                                         \
        std::string in_, out_; uint64_t at_; SST::Link* link_ = nullptr;                                                                                                          \
    };                                                                                                             \
    }

} // namespace VU
#endif
