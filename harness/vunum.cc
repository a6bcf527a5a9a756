#include "vu.h"
#include "sst/core/decimal_fixedpoint.h"
#include "sst/core/from_string.h"
#include "sst/core/simulation.h"
#include "sst/core/stringize.h"
#include "sst/core/timeConverter.h"
#include "sst/core/timeLord.h"
#include "sst/core/unitAlgebra.h"
using namespace SST;
using namespace VU;

namespace {

std::string
exname(const std::exception& e)
{
    if ( dynamic_cast<const UnitAlgebra::InvalidUnitType*>(&e) ) return "InvalidUnitType";
    if ( dynamic_cast<const UnitAlgebra::InvalidNumberString*>(&e) ) return "InvalidNumberString";
    if ( dynamic_cast<const UnitAlgebra::NonMatchingUnits*>(&e) ) return "NonMatchingUnits";
    if ( dynamic_cast<const std::underflow_error*>(&e) ) return "underflow";
    if ( dynamic_cast<const std::overflow_error*>(&e) ) return "overflow";
    if ( dynamic_cast<const std::out_of_range*>(&e) ) return "out_of_range";
    if ( dynamic_cast<const std::invalid_argument*>(&e) ) return "invalid_argument";
    return "exception";
}

// registers r0..r7; ops "P r hex" etc, one token per op with ':' separated fields
std::vector<std::string>
fields(const std::string& t)
{
    std::vector<std::string> v;
    std::stringstream        s(t);
    std::string              x;
    while ( std::getline(s, x, ':') )
        v.push_back(x);
    return v;
}

template <class N>
void
dec_ops(const Toks& t, Out& o)
{
    std::vector<N> r(8);
    for ( auto& tok : t ) {
        auto f = fields(tok);
        try {
            char op = f[0][0];
            int  a = f.size() > 1 ? atoi(f[1].c_str()) : 0, b = f.size() > 2 ? atoi(f[2].c_str()) : 0, c = f.size() > 3 ? atoi(f[3].c_str()) : 0;
            switch ( op ) {
            case 'P': r[a] = N(unhex(f[2])); o.line(r[a].toString(0)); break;
            case 'U': r[a] = N((uint64_t)strtoull(f[2].c_str(), nullptr, 10)); o.line(r[a].toString(0)); break;
            case 'L': r[a] = N((int64_t)strtoll(f[2].c_str(), nullptr, 10)); o.line(r[a].toString(0)); break;
            case 'D': r[a] = N(strtod(f[2].c_str(), nullptr)); o.line(r[a].toString(0)); break;
            case '+': r[a] = r[b] + r[c]; o.line(r[a].toString(0)); break;
            case '-': r[a] = r[b] - r[c]; o.line(r[a].toString(0)); break;
            case '*': r[a] = r[b] * r[c]; o.line(r[a].toString(0)); break;
            case '/': r[a] = r[b] / r[c]; o.line(r[a].toString(0)); break;
            case 'i': { N x(r[b]); x.inverse(); r[a] = x; o.line(r[a].toString(0)); break; }
            case 'n': { N x(r[b]); x.negate(); r[a] = x; o.line(r[a].toString(0)); break; }
            case 'c': o.pf("%d%d%d%d%d%d%d", r[a] < r[b], r[a] <= r[b], r[a] == r[b], r[a] != r[b], r[a] >= r[b], r[a] > r[b], r[a].isZero()); break;
            case 't': o.line(r[a].toString(b)); break;
            case 'l': o.pf("%lld", (long long)r[a].toLong()); break;
            case 'u': o.pf("%llu", (unsigned long long)r[a].toUnsignedLong()); break;
            case 'k': o.pf("%lld %llu", (long long)r[a].template convert_to<int64_t>(), (unsigned long long)r[a].template convert_to<uint64_t>()); break;
            case 'd': o.line(dbl(r[a].toDouble())); break;
            }
        }
        catch ( const std::exception& e ) {
            o.line("X " + exname(e));
        }
    }
}
Reg r1("dec33", [](Host*, const Toks& t, Out& o) { dec_ops<decimal_fixedpoint<3, 3>>(t, o); });
Reg r2("dec24", [](Host*, const Toks& t, Out& o) { dec_ops<decimal_fixedpoint<2, 4>>(t, o); });
Reg r3("dec41", [](Host*, const Toks& t, Out& o) { dec_ops<decimal_fixedpoint<4, 1>>(t, o); });

Reg r4("ua", [](Host*, const Toks& t, Out& o) {
    std::vector<UnitAlgebra> r(8);
    for ( auto& tok : t ) {
        auto f = fields(tok);
        try {
            char op = f[0][0];
            int  a = f.size() > 1 ? atoi(f[1].c_str()) : 0, b = f.size() > 2 ? atoi(f[2].c_str()) : 0, c = f.size() > 3 ? atoi(f[3].c_str()) : 0;
            switch ( op ) {
            case 'P': r[a] = UnitAlgebra(unhex(f[2])); o.line(r[a].toString(0)); break;
            case '+': r[a] = r[b] + r[c]; o.line(r[a].toString(0)); break;
            case '-': r[a] = r[b] - r[c]; o.line(r[a].toString(0)); break;
            case '*': r[a] = r[b] * r[c]; o.line(r[a].toString(0)); break;
            case '/': r[a] = r[b] / r[c]; o.line(r[a].toString(0)); break;
            case 's': r[a] = r[b] * strtoll(f[3].c_str(), nullptr, 10); o.line(r[a].toString(0)); break;
            case 'v': r[a] = r[b] / strtoll(f[3].c_str(), nullptr, 10); o.line(r[a].toString(0)); break;
            case 'i': { UnitAlgebra x(r[b]); x.invert(); r[a] = x; o.line(r[a].toString(0)); break; }
            case 'c': {
                std::string s = std::string() + (r[a] == r[b] ? "1" : "0") + (r[a] != r[b] ? "1" : "0");
                try {
                    s += std::string() + (r[a] < r[b] ? "1" : "0") + (r[a] <= r[b] ? "1" : "0") + (r[a] >= r[b] ? "1" : "0") + (r[a] > r[b] ? "1" : "0");
                }
                catch ( const std::exception& e ) {
                    s += " X " + exname(e);
                }
                o.line(s);
                break;
            }
            case 't': o.line(r[a].toString(b)); break;
            case 'b': o.line(r[a].toStringBestSI(b)); break;
            case 'l': o.pf("%lld", (long long)r[a].getRoundedValue()); break;
            case 'd': o.line(dbl(r[a].getDoubleValue())); break;
            case 'h': o.pf("%d", (int)r[a].hasUnits(unhex(f[2]))); break;
            case 'z': o.pf("%d", (int)r[a].isValueZero()); break;
            // print / parse round trip
            case 'r': { UnitAlgebra x(r[b].toString(0)); r[a] = x; o.line(x.toString(0)); break; }
            }
        }
        catch ( const std::exception& e ) {
            o.line("X " + exname(e));
        }
    }
});

// timebase is a global property of the simulation (--timebase); ops on times in it
Reg r5("time", [](Host* comp, const Toks& t, Out& o) {
    auto* tl = Simulation::getTimeLord();
    for ( auto& tok : t ) {
        auto f = fields(tok);
        try {
            switch ( f[0][0] ) {
            case 'F': { // factor by three routes, twice each (second one from the cache)
                std::string s = unhex(f[1]);
                TimeConverter tc = comp->getTimeConverter(s);
                TimeConverter tc2(s), tc3 { UnitAlgebra(s) };
                o.pf("%llu %llu %llu %llu %llu", (unsigned long long)tc.getFactor(), (unsigned long long)tc2.getFactor(),
                    (unsigned long long)tc3.getFactor(), (unsigned long long)tl->getSimCycles(s, ""),
                    (unsigned long long)comp->getTimeConverter(UnitAlgebra(s)).getFactor());
                break;
            }
            case 'C': { // conversions
                TimeConverter tc = comp->getTimeConverter(unhex(f[1]));
                uint64_t      x  = strtoull(f[2].c_str(), nullptr, 10);
                o.pf("%llu %llu", (unsigned long long)tc.convertToCoreTime(x), (unsigned long long)tc.convertFromCoreTime(x));
                break;
            }
            case 'P': {
                TimeConverter tc = comp->getTimeConverter(unhex(f[1]));
                o.line(tc.getPeriod().toString(0));
                break;
            }
            case 'N': { // current time in a base
                std::string s = unhex(f[1]);
                o.pf("%llu %llu", (unsigned long long)comp->getCurrentSimTime(s), (unsigned long long)comp->getCurrentSimTime(s.c_str()));
                break;
            }
            case 'M':
                o.pf("%llu %llu %llu %llu %s", (unsigned long long)comp->getCurrentSimCycle(), (unsigned long long)comp->getCurrentSimTimeNano(),
                    (unsigned long long)comp->getCurrentSimTimeMicro(), (unsigned long long)comp->getCurrentSimTimeMilli(),
                    comp->getElapsedSimTime().toString(0).c_str());
                break;
            }
        }
        catch ( const std::exception& e ) {
            o.line("X " + exname(e));
        }
    }
});

template <class T>
void
fs_int(const std::string& s, Out& o)
{
    T v = Core::from_string<T>(s);
    if ( std::is_same_v<T, bool> )
        o.pf("%d", (int)v);
    else if ( std::is_signed_v<T> )
        o.pf("%lld", (long long)v);
    else
        o.pf("%llu", (unsigned long long)v);
    // round trip of the printed form
    T w = Core::from_string<T>(Core::to_string(v));
    if ( w != v ) o.line("F roundtrip");
}
template <class T>
void
fs_flt(const std::string& s, Out& o)
{
    T v = Core::from_string<T>(s);
    o.line(dbl((double)v));
    o.line(hex(Core::to_string(v)));
}
enum class E8 : int { A, B };

Reg r6("fs", [](Host*, const Toks& t, Out& o) {
    for ( auto& tok : t ) {
        auto        f = fields(tok);
        std::string s = unhex(f[1] == "-" ? "" : f[1]);
        try {
            switch ( f[0][0] ) {
            case 'b': fs_int<bool>(s, o); break;
            case 'i': fs_int<int>(s, o); break;
            case 'I': fs_int<unsigned>(s, o); break;
            case 'l': fs_int<int64_t>(s, o); break;
            case 'L': fs_int<uint64_t>(s, o); break;
            case 'q': fs_int<long long>(s, o); break;
            case 'Q': fs_int<unsigned long long>(s, o); break;
            case 'h': fs_int<int16_t>(s, o); break;
            case 'H': fs_int<uint16_t>(s, o); break;
            case 'c': fs_int<int8_t>(s, o); break;
            case 'f': fs_flt<float>(s, o); break;
            case 'd': fs_flt<double>(s, o); break;
            case 'D': fs_flt<long double>(s, o); break;
            case 's': o.line(hex(Core::from_string<std::string>(s))); break;
            case 'e': o.pf("%d", (int)Core::from_string<E8>(s)); break;
            case 'u': o.line(Core::from_string<UnitAlgebra>(s).toString(0)); break;
            case 'T': { // tokenize: hex string, hex delimiters
                std::vector<std::string> v;
                SST::tokenize(v, s, unhex(f[2]), f[3] == "1");
                std::string r = "n" + std::to_string(v.size());
                for ( auto& x : v )
                    r += " " + hex(x);
                o.line(r);
                break;
            }
            case 'R': { std::string x = s; SST::trim(x); o.line(hex(x)); break; }
            case 'K': { // separator tokenizer
                Tokenizer<> tk(s);
                std::string r = "n";
                for ( auto& x : tk )
                    r += " " + hex(x);
                o.line(r);
                break;
            }
            case 'E': { // escaped list tokenizer
                Tokenizer<escaped_list_separator> tk(s);
                std::string r = "n";
                for ( auto& x : tk )
                    r += " " + hex(x);
                o.line(r);
                break;
            }
            case 'W': { std::string x = s; SST::to_lower(x); o.line(hex(x)); break; }
            }
        }
        catch ( const std::exception& e ) {
            o.line("X " + exname(e));
        }
    }
});

VU_EXEC("vunum")
} // namespace
