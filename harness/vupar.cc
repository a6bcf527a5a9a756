// Params suite: a component that runs a program of Params operations, starting from the Params it was given.
#include "vu.h"
#include "sst/core/subcomponent.h"
#include "sst/core/params.h"
#include "sst/core/serialization/serializer.h"
#include "sst/core/unitAlgebra.h"
#include <set>
using namespace SST;
using namespace VU;
namespace {

std::vector<std::string>
flds(const std::string& t)
{
    std::vector<std::string> v;
    std::stringstream        s(t);
    std::string              x;
    while ( std::getline(s, x, ':') )
        v.push_back(x);
    return v;
}
std::string pr(int32_t v) { return std::to_string(v); }
std::string pr(uint32_t v) { return std::to_string(v); }
std::string pr(int64_t v) { return std::to_string(v); }
std::string pr(uint64_t v) { return std::to_string(v); }
std::string pr(bool v) { return v ? "1" : "0"; }
std::string pr(float v) { return dbl(v); }
std::string pr(double v) { return dbl(v); }
std::string pr(const std::string& v) { return hex(v); }
std::string pr(const UnitAlgebra& v) { return hex(v.toString()); }

template <class T> struct dflt {};

template <class T>
std::string
find1(Params& p, const std::string& k, const std::string& d, int form)
{
    bool found = !p.contains(k);
    std::string r;
    switch ( form ) {
    case 0: r = pr(p.find<T>(k, SST::Core::from_string<T>(d), found)); return r + (found ? " 1" : " 0");
    case 1: if constexpr ( !std::is_same_v<T, std::string> ) { r = pr(p.find<T>(k, d, found)); return r + (found ? " 1" : " 0"); }
    case 2: return pr(p.find<T>(k, SST::Core::from_string<T>(d))) + " -";
    case 3: if constexpr ( !std::is_same_v<T, std::string> ) return pr(p.find<T>(k, d)) + " -";
    case 4: return pr(p.find<T>(k)) + " n";
    case 5: if constexpr ( !std::is_same_v<T, bool> ) { r = pr(p.find<T>(k, found)); return r + (found ? " N1" : " N0"); }
    default: if constexpr ( std::is_same_v<T, bool> ) { r = pr(p.find<T>(k, d.c_str(), found)); return r + (found ? " 1" : " 0"); }
        return pr(p.find<T>(k)) + " n";
    }
}
template <class T>
std::string
arr(Params& p, const std::string& k)
{
    std::vector<T> v;
    p.find_array<T>(k, v);
    std::string r = "a";
    for ( size_t i = 0; i < v.size(); i++ )
        r += " " + pr((T)v[i]);
    return r;
}
template <class T>
std::string
aset(Params& p, const std::string& k)
{
    std::set<T> v;
    p.find_set<T>(k, v);
    std::string r = "s";
    for ( auto& x : v )
        r += " " + pr((T)x);
    return r;
}
template <class K, class V>
std::string
amap(Params& p, const std::string& k)
{
    std::map<K, V> v;
    p.find_map<K, V>(k, v);
    std::string r = "m";
    for ( auto& x : v )
        r += " " + pr((K)x.first) + "=" + pr((V)x.second);
    return r;
}
template <class T>
std::string
typed(char op, Params& p, const std::vector<std::string>& f, const std::string& k)
{
    if ( op == 'f' ) return find1<T>(p, k, unhex(f[4]), atoi(f[5].c_str()));
    if ( op == 'A' ) return arr<T>(p, k);
    if constexpr ( !std::is_same_v<T, UnitAlgebra> ) {
        if ( op == 'S' ) return aset<T>(p, k);
        if ( op == 'M' ) return amap<std::string, T>(p, k);
        if ( op == 'm' ) return amap<T, std::string>(p, k);
    }
    return "?";
}

/** Hands its own parameters, with their own shared sets, to its parent */
class PQ : public SST::SubComponent
{
public:
    SST_ELI_REGISTER_SUBCOMPONENT_API(PQ)
    SST_ELI_REGISTER_SUBCOMPONENT(PQ, "vupar", "Q", SST_ELI_ELEMENT_VERSION(1, 0, 0), "", PQ)
    static thread_local Params* sink;
    PQ(ComponentId_t id, Params& params) : SubComponent(id) { *sink = params; }
};
thread_local Params* PQ::sink = nullptr;

class P : public SST::Component
{
public:
    SST_ELI_DOCUMENT_SUBCOMPONENT_SLOTS({ "sub", "", "PQ" })
    SST_ELI_REGISTER_COMPONENT(P, "vupar", "P", SST_ELI_ELEMENT_VERSION(1, 0, 0), "", COMPONENT_CATEGORY_UNCATEGORIZED)
    P(ComponentId_t id, Params& params) : Component(id)
    {
        Out o { fopen(params.find<std::string>("__out").c_str(), "w") };
        std::istringstream is(params.find<std::string>("__ops"));
        std::vector<Params> r(6);
        r[0] = params;
        PQ::sink = &r[4];
        loadUserSubComponent<PQ>("sub");
        std::string t;
        while ( is >> t ) {
            auto f = flds(t);
            try {
                int a = atoi(f[1].c_str());
                switch ( f[0][0] ) {
                case 'c': r[a] = r[atoi(f[2].c_str())]; o.line("ok"); break;
                case 'k': { Params q(r[atoi(f[2].c_str())]); r[a] = q; o.line("ok"); break; }
                case 'i': r[a].insert(unhex(f[2]), unhex(f[3]), f[4] == "1"); o.line("ok"); break;
                case 'I': r[a].insert(r[atoi(f[2].c_str())]); o.line("ok"); break;
                case 'g': r[a] = r[atoi(f[2].c_str())].get_scoped_params(unhex(f[3])); o.line("ok"); break;
                case 'x': r[a].clear(); o.line("ok"); break;
                case 'C': o.pf("%d %zu", (int)r[a].contains(unhex(f[2])), r[a].count(unhex(f[2]))); break;
                case 'V': o.pf("%d", (int)r[a].is_value_array(unhex(f[2]))); break;
                case 's': {
                    std::string l = "k " + std::to_string(r[a].size()) + " " + (r[a].empty() ? "1" : "0");
                    for ( auto& k : r[a].getKeys() )
                        l += " " + hex(k) + "=" + hex(r[a].find<std::string>(k));
                    o.line(l);
                    break;
                }
                case 'z': {
                    bool track = f[2] == "1";
                    SST::Core::Serialization::serializer ser;
                    if ( track ) ser.enable_pointer_tracking();
                    ser.start_sizing();
                    r[a].serialize_order(ser);
                    size_t            sz = ser.size();
                    std::vector<char> buf(sz + 1);
                    SST::Core::Serialization::serializer s2;
                    if ( track ) s2.enable_pointer_tracking();
                    s2.start_packing(buf.data(), sz);
                    r[a].serialize_order(s2);
                    Params q;
                    SST::Core::Serialization::serializer s3;
                    if ( track ) s3.enable_pointer_tracking();
                    s3.start_unpacking(buf.data(), sz);
                    q.serialize_order(s3);
                    r[a] = q;
                    o.line("ok");
                    break;
                }
                default: {
                    std::string k = unhex(f[2]);
                    char        op = f[0][0];
                    switch ( f[3][0] ) {
                    case 'i': o.line(typed<int32_t>(op, r[a], f, k)); break;
                    case 'I': o.line(typed<uint32_t>(op, r[a], f, k)); break;
                    case 'l': o.line(typed<int64_t>(op, r[a], f, k)); break;
                    case 'L': o.line(typed<uint64_t>(op, r[a], f, k)); break;
                    case 'b': o.line(typed<bool>(op, r[a], f, k)); break;
                    case 'f': o.line(typed<float>(op, r[a], f, k)); break;
                    case 'd': o.line(typed<double>(op, r[a], f, k)); break;
                    case 's': o.line(typed<std::string>(op, r[a], f, k)); break;
                    case 'u': o.line(typed<UnitAlgebra>(op, r[a], f, k)); break;
                    }
                }
                }
            }
            catch ( const std::invalid_argument& e ) { o.line("X invalid_argument"); }
            catch ( const std::out_of_range& e ) { o.line("X out_of_range"); }
            catch ( const std::exception& e ) { o.line("X exception"); }
        }
        fclose(o.f);
    }
};
} // namespace
