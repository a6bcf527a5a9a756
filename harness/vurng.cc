// Random number generators and distributions: programs of operations on a set of engines and distributions.
#include "sst_config.h"
#include "vu.h"
#include "sst/core/rng/constant.h"
#include "sst/core/rng/discrete.h"
#include "sst/core/rng/expon.h"
#include "sst/core/rng/gaussian.h"
#include "sst/core/rng/marsaglia.h"
#include "sst/core/rng/mersenne.h"
#include "sst/core/rng/poisson.h"
#include "sst/core/rng/uniform.h"
#include "sst/core/rng/xorshift.h"
#include "sst/core/serialization/serializer.h"
using namespace SST;
using namespace SST::RNG;
using namespace VU;
namespace {

std::vector<std::string>
flds(const std::string& t)
{
    std::vector<std::string> v;
    std::stringstream        s(t);
    std::string              x;
    while ( std::getline(s, x, ':') )
        v.push_back(x);
    return v;
}
struct State
{
    Random*             r[4] = { nullptr, nullptr, nullptr, nullptr };
    RandomDistribution* d[4] = { nullptr, nullptr, nullptr, nullptr };
    void ser(SST::Core::Serialization::serializer& ser)
    {
        for ( auto& x : r )
            SST_SER(x);
        for ( auto& x : d )
            SST_SER(x);
    }
};
Random*
mk(char k, uint64_t a, uint64_t b)
{
    switch ( k ) {
    case 'M': return new MersenneRNG((unsigned)a);
    case 'A': return new MarsagliaRNG((unsigned)a, (unsigned)b);
    case 'X': return new XORShiftRNG((unsigned)a);
    case 'm': return new MersenneRNG();
    case 'a': return new MarsagliaRNG();
    case 'x': return new XORShiftRNG();
    }
    return nullptr;
}
void
seed(Random* r, uint64_t s)
{
    if ( auto* p = dynamic_cast<MersenneRNG*>(r) ) p->seed(s);
    if ( auto* p = dynamic_cast<MarsagliaRNG*>(r) ) p->seed(s);
    if ( auto* p = dynamic_cast<XORShiftRNG*>(r) ) p->seed(s);
}
std::string
one(Random* r, char k)
{
    switch ( k ) {
    case 'u': return dbl(r->nextUniform());
    case 'i': return std::to_string(r->generateNextInt32());
    case 'I': return std::to_string(r->generateNextUInt32());
    case 'l': return std::to_string(r->generateNextInt64());
    case 'L': return std::to_string(r->generateNextUInt64());
    }
    return "?";
}
Reg rng("rng", [](Host*, const Toks& t, Out& o) {
    State s;
    for ( auto& op : t ) {
        auto f = flds(op);
        auto U = [&](size_t i) { return strtoull(f[i].c_str(), nullptr, 10); };
        auto D = [&](size_t i) { return strtod(f[i].c_str(), nullptr); };
        int  a = f.size() > 1 ? atoi(f[1].c_str()) : 0;
        switch ( op[0] ) {
        case 'E': delete s.r[a]; s.r[a] = mk(f[2][0], U(3), U(4)); break;
        case 'S': seed(s.r[a], U(2)); break;
        case 'R': static_cast<MarsagliaRNG*>(s.r[a])->restart((unsigned)U(2), (unsigned)U(3)); break;
        case 'N': {
            std::string l = "v";
            for ( uint64_t i = 0; i < U(3); i++ )
                l += " " + one(s.r[a], f[2][i % f[2].size()]);
            o.line(l);
            break;
        }
        case 'D': {
            // D:reg:type:rng or -:parameters
            Random* b = f[3] == "-" ? nullptr : s.r[atoi(f[3].c_str())];
            delete s.d[a];
            switch ( f[2][0] ) {
            case 'c': s.d[a] = new ConstantDistribution(D(4)); break;
            case 'e': s.d[a] = b ? new ExponentialDistribution(D(4), b) : new ExponentialDistribution(D(4)); break;
            case 'g': s.d[a] = b ? new GaussianDistribution(D(4), D(5), b) : new GaussianDistribution(D(4), D(5)); break;
            case 'p': s.d[a] = b ? new PoissonDistribution(D(4), b) : new PoissonDistribution(D(4)); break;
            case 'u': s.d[a] = b ? new UniformDistribution((uint32_t)U(4), b) : new UniformDistribution((uint32_t)U(4)); break;
            case 'd': {
                std::vector<double> p;
                for ( size_t i = 4; i < f.size(); i++ )
                    p.push_back(D(i));
                s.d[a] = b ? new DiscreteDistribution(p.data(), p.size(), b) : new DiscreteDistribution(p.data(), p.size());
                for ( auto& x : p )
                    x = 7; // the distribution must not depend on the caller's array any more
                break;
            }
            }
            break;
        }
        case 'G': {
            std::string l = "v";
            for ( uint64_t i = 0; i < U(2); i++ )
                l += " " + dbl(s.d[a]->getNextDouble());
            o.line(l);
            break;
        }
        case 'P': { // accessors
            if ( auto* p = dynamic_cast<ConstantDistribution*>(s.d[a]) ) o.line("v " + dbl(p->getMean()));
            else if ( auto* p = dynamic_cast<ExponentialDistribution*>(s.d[a]) ) o.line("v " + dbl(p->getLambda()));
            else if ( auto* p = dynamic_cast<PoissonDistribution*>(s.d[a]) ) o.line("v " + dbl(p->getLambda()));
            else if ( auto* p = dynamic_cast<GaussianDistribution*>(s.d[a]) ) o.line("v " + dbl(p->getMean()) + " " + dbl(p->getStandardDev()));
            else o.line("v");
            break;
        }
        case 'Z': { // checkpoint everything and continue from the copy
            SST::Core::Serialization::serializer s1, s2, s3;
            for ( auto* x : { &s1, &s2, &s3 } )
                x->enable_pointer_tracking();
            s1.start_sizing();
            s.ser(s1);
            size_t            sz = s1.size();
            std::vector<char> buf(sz + 1);
            s2.start_packing(buf.data(), sz);
            s.ser(s2);
            if ( s2.size() != sz ) o.fail("rng-size", "sized " + std::to_string(sz) + " packed " + std::to_string(s2.size()));
            State q;
            s3.start_unpacking(buf.data(), sz);
            q.ser(s3);
            if ( f.size() > 1 && f[1] == "d" ) {
                // the copy owns its own objects: draw from the originals, then drop them
                for ( auto* x : s.r )
                    if ( x ) x->nextUniform();
                for ( auto*& x : s.d )
                    delete x;
                for ( auto*& x : s.r )
                    delete x;
            }
            s = q;
            break;
        }
        }
    }
    for ( auto* x : s.d )
        delete x;
    for ( auto* x : s.r )
        delete x;
});

} // namespace
VU_EXEC("vurng")
