// Serialization suites: generated values of many types through size / pack / unpack, and generated object graphs.
#include "vu.h"
#include "sst/core/rankInfo.h"
#include "sst/core/serialization/serializable.h"
#include "sst/core/serialization/serialize.h"
#include "sst/core/serialization/serializer.h"
#include "sst/core/sparseVectorMap.h"
#include "sst/core/unitAlgebra.h"

#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <bitset>
#include <cmath>
#include <complex>
#include <cxxabi.h>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <queue>
#include <set>
#include <stack>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <valarray>
#include <variant>
using namespace SST;
using namespace VU;
namespace Ser = SST::Core::Serialization;
using Ser::serializer;

namespace vuser {

enum Plain { PA, PB, PC = 1000 };
enum class Cls : int8_t { X = -5, Y, Z };
struct Pod
{
    int    a;
    double b;
    char   c[5];
};
struct Agg2
{
    std::string      s;
    std::vector<int> v;
};
struct Agg3
{
    int                            i;
    std::string                    s;
    std::map<int, std::string>     m;
};
struct Agg7
{
    int8_t a; std::string b; int64_t c; Agg2 d; std::optional<int> e; double f; std::vector<bool> g;
};
struct Agg20
{
    int a0; std::string a1; int a2; std::string a3; int a4; std::string a5; int a6; std::string a7; int a8; std::string a9;
    int b0; std::string b1; int b2; std::string b3; int b4; std::string b5; int b6; std::string b7; int b8; std::string b9;
};
struct User
{
    int              x = 0;
    std::string      s;
    std::vector<int> v;
    void             serialize_order(serializer& ser)
    {
        SST_SER(x);
        SST_SER(s);
        SST_SER(v);
    }
};
struct Old // the older operator & style is gone; member functions of the serializer used directly
{
    uint32_t    n = 0;
    std::string s;
    char        raw[9] = {};
    void        serialize_order(serializer& ser)
    {
        ser.primitive(n);
        ser.string(s);
        ser.raw(raw, sizeof raw);
    }
};
template <class T, class S>
struct Dyn // dynamic array wrapper
{
    T*   p = nullptr;
    S    n = 0;
    Dyn() = default;
    Dyn(const Dyn&) = delete;
    ~Dyn() { delete[] p; }
    void serialize_order(serializer& ser) { SST_SER(Ser::array(p, n)); }
};
struct Buf
{
    void*  p = nullptr;
    size_t n = 0;
    Buf() = default;
    Buf(const Buf&) = delete;
    ~Buf() { delete[] (char*)p; }
    void serialize_order(serializer& ser) { SST_SER(Ser::buffer(p, n)); }
};
template <class T, class S>
struct UArr
{
    std::unique_ptr<T[]> p;
    S                    n = 0;
    void                 serialize_order(serializer& ser) { SST_SER(Ser::unique_ptr(p, n)); }
};
template <class T, class S>
struct SArr
{
    std::shared_ptr<T[]> p, q;
    S                    n = 0, m = 0;
    void                 serialize_order(serializer& ser)
    {
        SST_SER(Ser::shared_ptr(p, n));
        SST_SER(Ser::shared_ptr(q, m));
    }
};
struct CArr
{
    int         a[4];
    std::string s[3];
    int         m[2][3];
    void        serialize_order(serializer& ser)
    {
        SST_SER(a);
        SST_SER(s);
        SST_SER(m);
    }
};
// aliasing shared pointers into a parent object
struct Pair2
{
    int         a = 0;
    std::string b;
    void        serialize_order(serializer& ser)
    {
        SST_SER(a);
        SST_SER(b);
    }
};
struct Alias
{
    std::shared_ptr<Pair2>       parent;
    std::shared_ptr<int>         pa;
    std::shared_ptr<std::string> pb;
    std::weak_ptr<Pair2>         w;
    void                         serialize_order(serializer& ser)
    {
        SST_SER(Ser::shared_ptr(pa, parent));
        SST_SER(parent);
        SST_SER(Ser::shared_ptr(pb, parent));
        SST_SER(w);
    }
};
struct Alias2
{
    std::shared_ptr<Pair2>       parent;
    std::shared_ptr<int>         pa;
    std::shared_ptr<std::string> pb;
    std::weak_ptr<Pair2>         w;
    void                         serialize_order(serializer& ser)
    {
        SST_SER(w);
        SST_SER(parent);
        SST_SER(Ser::shared_ptr(pb, parent));
        SST_SER(Ser::shared_ptr(pa, parent));
    }
};

class Base : public Ser::serializable
{
public:
    int          id = 0;
    virtual void serialize_order(serializer& ser) override { SST_SER(id); }
    ImplementSerializable(vuser::Base)
};
class DerA : public Base
{
public:
    std::string  s;
    virtual void serialize_order(serializer& ser) override
    {
        Base::serialize_order(ser);
        SST_SER(s);
    }
    ImplementSerializable(vuser::DerA)
};
class DerB : public DerA
{
public:
    std::vector<Base*> kids;
    virtual void       serialize_order(serializer& ser) override
    {
        DerA::serialize_order(ser);
        SST_SER(kids);
    }
    ImplementSerializable(vuser::DerB)
};

// ---------------------------------------------------------------- generators and equality
template <class T, class = void> struct G;
template <class T> void gen(T& t, Choices& c, int d) { G<T>::gen(t, c, d); }
template <class T> bool eq(const T& a, const T& b) { return G<T>::eq(a, b); }
size_t count(Choices& c, int d) { return d <= 0 ? c.below(2) : c.below(6); }

template <class T>
struct G<T, std::enable_if_t<std::is_integral_v<T> || std::is_same_v<T, __int128> || std::is_same_v<T, unsigned __int128>>>
{
    static void gen(T& t, Choices& c, int) { t = (T)c.u64(); if ( sizeof(T) == 16 ) t = (T)((unsigned __int128)t << (c.byte() & 63)) ^ (T)c.u64(); }
    static bool eq(T a, T b) { return a == b; }
};
template <class T>
struct G<T, std::enable_if_t<std::is_enum_v<T>>>
{
    static void gen(T& t, Choices& c, int) { t = (T)(c.below(3) ? c.byte() % 3 : c.byte()); }
    static bool eq(T a, T b) { return a == b; }
};
template <class T>
struct G<T, std::enable_if_t<std::is_floating_point_v<T>>>
{
    static void gen(T& t, Choices& c, int)
    {
        switch ( c.below(8) ) {
        case 0: t = (T)c.byte(); break;
        case 1: t = -(T)0.0; break;
        case 2: t = std::numeric_limits<T>::infinity(); break;
        case 3: t = std::numeric_limits<T>::quiet_NaN(); break;
        case 4: t = std::numeric_limits<T>::denorm_min(); break;
        default: t = std::ldexp((T)(int64_t)c.u64(), (int)c.below(100) - 50);
        }
    }
    static bool eq(T a, T b) { return std::isnan(a) ? std::isnan(b) : a == b && std::signbit(a) == std::signbit(b); }
};
template <class T>
struct G<std::complex<T>>
{
    static void gen(std::complex<T>& t, Choices& c, int d) { T a, b; vuser::gen(a, c, d); vuser::gen(b, c, d); t = { a, b }; }
    static bool eq(const std::complex<T>& a, const std::complex<T>& b) { return vuser::eq(a.real(), b.real()) && vuser::eq(a.imag(), b.imag()); }
};
template <>
struct G<std::string>
{
    static void gen(std::string& t, Choices& c, int) { t = c.str(c.below(16) ? 12 : 300); }
    static bool eq(const std::string& a, const std::string& b) { return a == b; }
};
template <>
struct G<std::monostate>
{
    static void gen(std::monostate&, Choices&, int) {}
    static bool eq(std::monostate, std::monostate) { return true; }
};
// ordered sequence containers
template <class T>
struct GSeq
{
    static void gen(T& t, Choices& c, int d)
    {
        t.clear();
        size_t n = count(c, d);
        for ( size_t i = 0; i < n; i++ ) {
            if constexpr ( std::is_same_v<T, std::vector<bool>> )
                t.push_back(c.flag());
            else if constexpr ( Ser::is_same_type_template_v<T, std::forward_list> ) {
                t.emplace_front();
                vuser::gen(t.front(), c, d - 1);
            }
            else {
                t.emplace_back();
                vuser::gen(t.back(), c, d - 1);
            }
        }
    }
    static bool eq(const T& a, const T& b)
    {
        auto i = a.begin();
        auto j = b.begin();
        for ( ; i != a.end() && j != b.end(); ++i, ++j ) {
            if constexpr ( std::is_same_v<T, std::vector<bool>> ) { if ( *i != *j ) return false; }
            else if ( !vuser::eq(*i, *j) ) return false;
        }
        return i == a.end() && j == b.end();
    }
};
template <class... A> struct G<std::vector<A...>> : GSeq<std::vector<A...>> {};
template <class... A> struct G<std::deque<A...>> : GSeq<std::deque<A...>> {};
template <class... A> struct G<std::list<A...>> : GSeq<std::list<A...>> {};
template <class... A> struct G<std::forward_list<A...>> : GSeq<std::forward_list<A...>> {};
template <class A, class B>
struct G<std::pair<A, B>>
{
    static void gen(std::pair<A, B>& t, Choices& c, int d) { vuser::gen(const_cast<std::remove_const_t<A>&>(t.first), c, d); vuser::gen(t.second, c, d); }
    static bool eq(const std::pair<A, B>& a, const std::pair<A, B>& b) { return vuser::eq<std::remove_const_t<A>>(a.first, b.first) && vuser::eq(a.second, b.second); }
};
template <class T>
struct GSet
{
    static constexpr bool MAP = Ser::is_same_type_template_v<T, std::map> || Ser::is_same_type_template_v<T, std::multimap> ||
                                Ser::is_same_type_template_v<T, std::unordered_map> || Ser::is_same_type_template_v<T, std::unordered_multimap>;
    static void gen(T& t, Choices& c, int d)
    {
        t.clear();
        size_t n = count(c, d);
        for ( size_t i = 0; i < n; i++ ) {
            if constexpr ( MAP ) {
                std::pair<typename T::key_type, typename T::mapped_type> p {};
                vuser::gen(p.first, c, d - 1);
                vuser::gen(p.second, c, d - 1);
                t.insert(p);
                if ( c.byte() < 60 ) { vuser::gen(p.second, c, d - 1); t.insert(p); } // equal keys matter for multimaps
            }
            else {
                typename T::key_type k {};
                vuser::gen(k, c, d - 1);
                t.insert(k);
                if ( c.byte() < 60 ) t.insert(k);
            }
        }
    }
    static bool eq(const T& a, const T& b)
    {
        if ( a.size() != b.size() ) return false;
        std::vector<const typename T::value_type*> v;
        for ( auto& e : b ) v.push_back(&e);
        for ( auto& e : a ) { // multiset comparison, order-insensitive
            bool ok = false;
            for ( auto& q : v )
                if ( q && vuser::eq<typename T::value_type>(e, *q) ) { q = nullptr; ok = true; break; }
            if ( !ok ) return false;
        }
        // ordered containers: same order of equal keys too
        if constexpr ( Ser::is_same_type_template_v<T, std::multimap> || Ser::is_same_type_template_v<T, std::map> ) {
            auto j = b.begin();
            for ( auto& e : a ) { if ( !vuser::eq<typename T::value_type>(e, *j) ) return false; ++j; }
        }
        return true;
    }
};
template <class... A> struct G<std::set<A...>> : GSet<std::set<A...>> {};
template <class... A> struct G<std::multiset<A...>> : GSet<std::multiset<A...>> {};
template <class... A> struct G<std::map<A...>> : GSet<std::map<A...>> {};
template <class... A> struct G<std::multimap<A...>> : GSet<std::multimap<A...>> {};
template <class... A> struct G<std::unordered_set<A...>> : GSet<std::unordered_set<A...>> {};
template <class... A> struct G<std::unordered_multiset<A...>> : GSet<std::unordered_multiset<A...>> {};
template <class... A> struct G<std::unordered_map<A...>> : GSet<std::unordered_map<A...>> {};
template <class... A> struct G<std::unordered_multimap<A...>> : GSet<std::unordered_multimap<A...>> {};
template <class... A>
struct G<std::tuple<A...>>
{
    typedef std::tuple<A...> T;
    static void gen(T& t, Choices& c, int d) { std::apply([&](auto&... e) { (vuser::gen(e, c, d), ...); }, t); }
    template <size_t... I>
    static bool eqi(const T& a, const T& b, std::index_sequence<I...>) { return (vuser::eq(std::get<I>(a), std::get<I>(b)) && ...); }
    static bool eq(const T& a, const T& b) { return eqi(a, b, std::index_sequence_for<A...>()); }
};
template <class T, size_t N>
struct G<std::array<T, N>>
{
    static void gen(std::array<T, N>& t, Choices& c, int d) { for ( auto& e : t ) vuser::gen(e, c, d - 1); }
    static bool eq(const std::array<T, N>& a, const std::array<T, N>& b) { for ( size_t i = 0; i < N; i++ ) if ( !vuser::eq(a[i], b[i]) ) return false; return true; }
};
template <class T, size_t N>
struct G<T[N]>
{
    static void gen(T (&t)[N], Choices& c, int d) { for ( auto& e : t ) vuser::gen(e, c, d - 1); }
    static bool eq(const T (&a)[N], const T (&b)[N]) { for ( size_t i = 0; i < N; i++ ) if ( !vuser::eq(a[i], b[i]) ) return false; return true; }
};
template <class T>
struct G<std::optional<T>>
{
    static void gen(std::optional<T>& t, Choices& c, int d) { t.reset(); if ( c.byte() % 3 ) { t.emplace(); vuser::gen(*t, c, d); } }
    static bool eq(const std::optional<T>& a, const std::optional<T>& b) { return a.has_value() == b.has_value() && (!a || vuser::eq(*a, *b)); }
};
template <class... A>
struct G<std::variant<A...>>
{
    typedef std::variant<A...> T;
    template <size_t... I>
    static void set(T& t, size_t i, std::index_sequence<I...>) { ((i == I ? (void)t.template emplace<I>() : (void)0), ...); }
    static void gen(T& t, Choices& c, int d) { set(t, c.below(sizeof...(A)), std::index_sequence_for<A...>()); std::visit([&](auto& e) { vuser::gen(e, c, d); }, t); }
    template <size_t... I>
    static bool eqi(const T& a, const T& b, std::index_sequence<I...>) { return ((a.index() != I || vuser::eq(*std::get_if<I>(&a), *std::get_if<I>(&b))) && ...); }
    static bool eq(const T& a, const T& b) { return a.index() == b.index() && eqi(a, b, std::index_sequence_for<A...>()); }
};
template <size_t N>
struct G<std::bitset<N>>
{
    static void gen(std::bitset<N>& t, Choices& c, int) { t.reset(); uint8_t m = c.byte(); for ( size_t i = 0; i < N; i++ ) if ( i % 8 == 0 && m & 1 ? c.flag() : (m >> (i % 8)) & 1 ) t.set(i); }
    static bool eq(const std::bitset<N>& a, const std::bitset<N>& b) { return a == b; }
};
template <class T>
struct G<std::valarray<T>>
{
    static void gen(std::valarray<T>& t, Choices& c, int d) { t.resize(count(c, d)); for ( auto& e : t ) vuser::gen(e, c, d - 1); }
    static bool eq(const std::valarray<T>& a, const std::valarray<T>& b)
    {
        if ( a.size() != b.size() ) return false;
        for ( size_t i = 0; i < a.size(); i++ ) if ( !vuser::eq(a[i], b[i]) ) return false;
        return true;
    }
};
template <class T>
struct G<std::atomic<T>>
{
    static void gen(std::atomic<T>& t, Choices& c, int d) { T x; vuser::gen(x, c, d); t.store(x); }
    static bool eq(const std::atomic<T>& a, const std::atomic<T>& b) { return vuser::eq(a.load(), b.load()); }
};
template <class T>
struct GAdapt
{
    struct S : T { using T::c; };
    static void gen(T& t, Choices& c, int d)
    {
        size_t n = count(c, d + 1);
        while ( !t.empty() ) t.pop();
        for ( size_t i = 0; i < n; i++ ) { typename T::value_type v {}; vuser::gen(v, c, d - 1); t.push(v); }
    }
    static bool eq(const T& a, const T& b)
    {
        T x(a), y(b);
        while ( !x.empty() && !y.empty() ) {
            if constexpr ( Ser::is_same_type_template_v<T, std::queue> ) { if ( !vuser::eq(x.front(), y.front()) ) return false; }
            else if ( !vuser::eq(x.top(), y.top()) ) return false;
            x.pop();
            y.pop();
        }
        return x.empty() && y.empty();
    }
};
template <class... A> struct G<std::stack<A...>> : GAdapt<std::stack<A...>> {};
template <class... A> struct G<std::queue<A...>> : GAdapt<std::queue<A...>> {};
template <class... A> struct G<std::priority_queue<A...>> : GAdapt<std::priority_queue<A...>> {};
template <class T>
struct G<std::unique_ptr<T>>
{
    static void gen(std::unique_ptr<T>& t, Choices& c, int d) { t.reset(); if ( c.byte() % 4 ) { t.reset(new T()); vuser::gen(*t, c, d - 1); } }
    static bool eq(const std::unique_ptr<T>& a, const std::unique_ptr<T>& b) { return !a == !b && (!a || vuser::eq(*a, *b)); }
};
template <class T>
struct G<std::shared_ptr<T>>
{
    static void gen(std::shared_ptr<T>& t, Choices& c, int d) { t.reset(); if ( c.byte() % 4 ) { t = std::make_shared<T>(); vuser::gen(*t, c, d - 1); } }
    static bool eq(const std::shared_ptr<T>& a, const std::shared_ptr<T>& b) { return !a == !b && (!a || vuser::eq(*a, *b)); }
};
// raw pointers to values (class types of the serializable hierarchy apart)
template <class T>
struct G<T*, std::enable_if_t<!std::is_base_of_v<Ser::serializable, T> && !std::is_array_v<T>>>
{
    static void gen(T*& t, Choices& c, int d) { t = nullptr; if ( c.byte() % 4 ) { t = new T(); vuser::gen(*t, c, d - 1); } }
    static bool eq(T* a, T* b) { return !a == !b && (!a || vuser::eq(*a, *b)); }
};
template <class T, size_t N>
struct G<T (*)[N]>
{
    typedef T (*P)[N];
    static void gen(P& t, Choices& c, int d) { t = nullptr; if ( c.byte() % 4 ) { t = (P) new T[N](); vuser::gen(*t, c, d - 1); } }
    static bool eq(P a, P b) { return !a == !b && (!a || vuser::eq(*a, *b)); }
};
template <class T>
struct G<T*, std::enable_if_t<std::is_base_of_v<Ser::serializable, T>>>
{
    static T* make(Choices& c, int d)
    {
        switch ( c.below(4) ) {
        case 0: return nullptr;
        case 1: if constexpr ( std::is_same_v<T, Base> ) { auto* p = new Base(); vuser::gen(p->id, c, d); return p; }
        case 2: if constexpr ( std::is_base_of_v<T, DerA> ) { auto* p = new DerA(); vuser::gen(p->id, c, d); vuser::gen(p->s, c, d); return p; }
        default: {
            auto* p = new DerB();
            vuser::gen(p->id, c, d);
            vuser::gen(p->s, c, d);
            if ( d > 0 ) { size_t n = c.below(4); for ( size_t i = 0; i < n; i++ ) p->kids.push_back(G<Base*>::make(c, d - 1)); }
            return p;
        }
        }
    }
    static void gen(T*& t, Choices& c, int d) { t = make(c, d); }
    static bool eq(T* a, T* b)
    {
        if ( !a || !b ) return !a && !b;
        if ( typeid(*a) != typeid(*b) || a->id != b->id ) return false;
        if ( auto* x = dynamic_cast<DerA*>(a) ) if ( x->s != dynamic_cast<DerA*>(b)->s ) return false;
        if ( auto* x = dynamic_cast<DerB*>(a) ) return vuser::eq(x->kids, dynamic_cast<DerB*>(b)->kids);
        return true;
    }
};
#define FIELDS(T, ...)                                                                                             \
    template <>                                                                                                    \
    struct G<T>                                                                                                    \
    {                                                                                                              \
        static void gen(T& t_, Choices& c_, int n_) { auto f = [&](auto&... e) { (vuser::gen(e, c_, n_ - 1), ...); }; apply(t_, f); } \
        template <class F> static void apply(T& t_, F f_) { auto& [__VA_ARGS__] = t_; f_(__VA_ARGS__); }               \
        static bool eq(const T& x_, const T& y_)                                                                   \
        {                                                                                                          \
            bool r_ = true;                                                                                         \
            auto& [__VA_ARGS__] = x_;                                                                              \
            auto ta = std::tie(__VA_ARGS__);                                                                       \
            { auto& [__VA_ARGS__] = y_; auto tb = std::tie(__VA_ARGS__); r_ = cmp(ta, tb, std::make_index_sequence<std::tuple_size_v<decltype(ta)>>()); } \
            return r_;                                                                                             \
        }                                                                                                          \
        template <class X, size_t... I> static bool cmp(X& a, X& b, std::index_sequence<I...>) { return (vuser::eq(std::get<I>(a), std::get<I>(b)) && ...); } \
    };
FIELDS(Pod, a, b, c)
FIELDS(Agg2, a, b)
FIELDS(Agg3, a, b, c)
FIELDS(Agg7, a, b, c, d, e4, f4, g)
FIELDS(Agg20, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9)
FIELDS(User, a, b, c)
FIELDS(Old, a, b, c)
FIELDS(CArr, a, b, c)
FIELDS(Pair2, a, b)
template <class T, class S>
struct G<Dyn<T, S>>
{
    static void gen(Dyn<T, S>& t, Choices& c, int d)
    {
        delete[] t.p;
        t.n = c.byte() % 7;
        t.p = t.n || c.flag() ? new T[t.n]() : nullptr;
        for ( S i = 0; i < t.n; i++ ) vuser::gen(t.p[i], c, d - 1);
    }
    static bool eq(const Dyn<T, S>& a, const Dyn<T, S>& b) { if ( a.n != b.n ) return false; for ( S i = 0; i < a.n; i++ ) if ( !vuser::eq(a.p[i], b.p[i]) ) return false; return true; }
};
template <>
struct G<Buf>
{
    static void gen(Buf& t, Choices& c, int) { std::string s = c.str(30); delete[] (char*)t.p; t.n = s.size(); t.p = t.n ? memcpy(new char[t.n], s.data(), t.n) : nullptr; }
    static bool eq(const Buf& a, const Buf& b) { return a.n == b.n && (a.n == 0 || !memcmp(a.p, b.p, a.n)); }
};
template <class T, class S>
struct G<UArr<T, S>>
{
    static void gen(UArr<T, S>& t, Choices& c, int d) { t.n = c.byte() % 7; t.p.reset(t.n ? new T[t.n]() : nullptr); for ( S i = 0; i < t.n; i++ ) vuser::gen(t.p[i], c, d - 1); }
    static bool eq(const UArr<T, S>& a, const UArr<T, S>& b) { if ( a.n != b.n ) return false; for ( S i = 0; i < a.n; i++ ) if ( !vuser::eq(a.p[i], b.p[i]) ) return false; return true; }
};
template <class T, class S>
struct G<SArr<T, S>>
{
    static void gen(SArr<T, S>& t, Choices& c, int d)
    {
        t.n = 1 + c.byte() % 6;
        t.p.reset(new T[t.n]());
        for ( S i = 0; i < t.n; i++ ) vuser::gen(t.p[i], c, d - 1);
        t.m = t.n;
        t.q = t.p;
    }
    static bool eq(const SArr<T, S>& a, const SArr<T, S>& b)
    {
        if ( a.n != b.n || (a.p == a.q) != (b.p == b.q) ) return false;
        for ( S i = 0; i < a.n; i++ ) if ( !vuser::eq(a.p[i], b.p[i]) ) return false;
        return true;
    }
};
template <class T>
struct GAlias
{
    static void gen(T& t, Choices& c, int d)
    {
        t = T();
        uint8_t k = c.byte();
        if ( k % 5 == 0 ) return;
        t.parent = std::make_shared<Pair2>();
        vuser::gen(*t.parent, c, d - 1);
        t.pa = std::shared_ptr<int>(t.parent, &t.parent->a);
        t.pb = std::shared_ptr<std::string>(t.parent, &t.parent->b);
        if ( k & 64 ) t.w = t.parent;
    }
    static bool eq(const T& a, const T& b)
    {
        if ( !a.parent || !b.parent ) return !a.parent && !b.parent && !b.pa && !b.pb;
        return vuser::eq(*a.parent, *b.parent) && b.pa.get() == &b.parent->a && b.pb.get() == &b.parent->b && a.w.expired() == b.w.expired() &&
               (a.w.expired() || b.w.lock() == b.parent);
    }
};
template <> struct G<Alias> : GAlias<Alias> {};
template <> struct G<Alias2> : GAlias<Alias2> {};
template <>
struct G<UnitAlgebra>
{
    static void gen(UnitAlgebra& t, Choices& c, int)
    {
        static const char* u[] = { "s", "Hz", "B/s", "b", "GB/s", "ns", "", "us", "events", "Mb" };
        int64_t            v = (int64_t)c.u64() >> 3;
        t = UnitAlgebra(std::to_string(v) + u[c.below(10)]);
    }
    static bool eq(const UnitAlgebra& a, const UnitAlgebra& b) { return a == b && a.toString() == b.toString(); }
};
template <>
struct G<RankInfo>
{
    static void gen(RankInfo& t, Choices& c, int) { t.rank = (uint32_t)c.u64(); t.thread = (uint32_t)c.u64(); }
    static bool eq(const RankInfo& a, const RankInfo& b) { return a.rank == b.rank && a.thread == b.thread; }
};
// ---------------------------------------------------------------- one value
struct Rep
{
    Out&        o;
    std::string tn;
    bool        bad = false;
    void fail(const std::string& k, const std::string& m) { if ( !bad ) o.fail(k, tn + ": " + m); bad = true; }
};
struct AnyVal
{
    virtual ~AnyVal() {}
    virtual void ser(serializer& s)            = 0;
    virtual bool same(AnyVal* o)                = 0;
    virtual void fill(Choices& c, int d)        = 0;
    virtual const char* name()                  = 0;
};
template <class T>
struct Val : AnyVal
{
    T* t = new T(); // never freed: after a failed unpack its content is unspecified
    void ser(serializer& ser) override { SST_SER(*t); }
    bool same(AnyVal* o) override { return eq(*t, *static_cast<Val*>(o)->t); }
    void fill(Choices& c, int d) override { gen(*t, c, d); }
    const char* name() override { static std::string s = Ser::ObjectMap::demangle_name(typeid(T).name()); return s.c_str(); }
};
typedef AnyVal* (*Mk)();
template <class T> AnyVal* mk() { return new Val<T>(); }
template <class... T>
struct List { static std::vector<Mk> v() { return { mk<T>... }; } };
using std::array; using std::atomic; using std::bitset; using std::complex; using std::deque; using std::forward_list; using std::list; using std::map;
using std::multimap; using std::multiset; using std::optional; using std::pair; using std::priority_queue; using std::queue; using std::set; using std::shared_ptr;
using std::stack; using std::string; using std::tuple; using std::unique_ptr; using std::unordered_map; using std::unordered_multimap;
using std::unordered_multiset; using std::unordered_set; using std::valarray; using std::variant; using std::vector;
std::vector<Mk>
types()
{
    std::vector<Mk> r;
    auto add = [&](std::vector<Mk> v) { r.insert(r.end(), v.begin(), v.end()); };
    add(List<bool, char, int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t, __int128, unsigned __int128, float, double,
        long double, Plain, Cls, std::byte, wchar_t, complex<float>, complex<double>>::v());
    add(List<string, Pod, Agg2, Agg3, Agg7, Agg20, User, Old, CArr, Pair2, UnitAlgebra, RankInfo>::v());
    add(List<vector<int>, vector<bool>, vector<string>, vector<vector<int8_t>>, vector<Agg2>, vector<User>, vector<optional<string>>, vector<pair<int, string>>,
        vector<array<string, 2>>, deque<int64_t>, deque<string>, list<int>, list<vector<string>>, forward_list<int>, forward_list<string>, vector<double>, vector<Pod>>::v());
    add(List<set<int>, set<string>, multiset<int8_t>, multiset<string>, unordered_set<string>, unordered_set<uint64_t>, unordered_multiset<int8_t>,
        set<pair<int, string>>, set<vector<int8_t>>>::v());
    add(List<map<int, string>, map<string, int>, map<string, vector<string>>, map<pair<int8_t, string>, double>, map<int, map<int, string>>, multimap<int8_t, string>,
        multimap<string, int>, unordered_map<string, string>, unordered_map<int, vector<bool>>, unordered_multimap<int8_t, int>, map<string, optional<User>>>::v());
    add(List<pair<int8_t, int64_t>, pair<string, string>, tuple<int>, tuple<int8_t, string, double>, tuple<vector<int>, map<int, int>, bool, string>,
        array<int, 1>, array<int8_t, 7>, array<string, 3>, array<array<int, 2>, 3>, array<vector<bool>, 2>, array<User, 2>>::v());
    add(List<optional<int>, optional<string>, optional<vector<string>>, variant<int, string>, variant<std::monostate, double, vector<int>, map<int, string>>, variant<int8_t, int64_t, Pod, Agg2>,
        bitset<1>, bitset<7>, bitset<64>, bitset<65>, bitset<200>, vector<bitset<9>>, valarray<int>, valarray<double>, valarray<int8_t>, atomic<int>, atomic<bool>, atomic<double>, atomic<uint64_t>>::v());
    add(List<stack<int>, stack<string, vector<string>>, queue<string>, queue<int64_t, list<int64_t>>, priority_queue<int>, priority_queue<string>,
        priority_queue<int64_t, vector<int64_t>, std::greater<int64_t>>, map<string, queue<int>>>::v());
    add(List<unique_ptr<int>, unique_ptr<string>, unique_ptr<vector<string>>, vector<unique_ptr<User>>, shared_ptr<int>, shared_ptr<string>, vector<shared_ptr<Agg2>>, shared_ptr<vector<int>>,
        optional<shared_ptr<string>>, Alias, Alias2, UArr<int, size_t>, UArr<string, int8_t>, SArr<int, size_t>, SArr<string, uint16_t>, UArr<User, int>>::v());
    add(List<Dyn<int, size_t>, Dyn<int8_t, int8_t>, Dyn<string, uint16_t>, Dyn<double, int>, Dyn<User, int64_t>, Dyn<Pod, unsigned>, Buf>::v());
    add(List<int*, double*, string*, vector<int>*, vector<string>*, map<int, string>*, set<string>*, pair<int, string>*, tuple<int, string>*, bitset<70>*, array<int, 3>*, array<string, 2>*,
        User*, Pod*, valarray<int>*, stack<int>*, vector<int*>, vector<string*>, map<int, User*>, vector<vector<string*>*>, deque<User*>, optional<User*>, int (*)[3], string (*)[2],
        queue<string*>, tuple<int*, string*>, unordered_map<int, string*>, list<map<int, int>*>, vector<bool>*>::v());
    add(List<Base*, DerA*, DerB*, vector<Base*>, map<int, Base*>, pair<Base*, DerA*>, optional<DerB*>, list<vector<Base*>>, deque<pair<int, Base*>>>::v());
    return r;
}
std::vector<Mk>&
T()
{
    static auto v = types();
    return v;
}

struct Session
{
    std::vector<AnyVal*> v;
    void                 run(serializer& s) { for ( auto* x : v ) x->ser(s); }
};

// ser <tracking> <cut> <dirty bytes> (<type> <bytes>)*
Reg r1("ser", [](Host*, const Toks& a, Out& o) {
    bool     track = a[0] == "1";
    uint64_t cut   = std::stoull(a[1]);
    std::string dirty = unhex(a[2]);
    Session s, w, w2, w3;
    std::string tn;
    size_t nbytes = 0;
    for ( size_t i = 3; i + 1 < a.size(); i += 2 ) {
        Mk      m = T()[std::stoul(a[i]) % T().size()];
        Choices c(a[i + 1] == "-" ? "" : unhex(a[i + 1]));
        auto*   x = m();
        x->fill(c, 2);
        nbytes += c.p;
        s.v.push_back(x);
        tn += std::string(tn.empty() ? "" : " | ") + x->name();
        auto*   y = m();
        Choices cd(dirty);
        std::string nm = x->name();
        // the target holds an unrelated value: unpacking must replace it (targets that own raw memory start empty)
        if ( !dirty.empty() ) y->fill(cd, 1);
        w.v.push_back(y);
        w2.v.push_back(m());
        w3.v.push_back(m());
        o.cls("type" + a[i]);
    }
    Rep    rep { o, tn };
    serializer ser;
    if ( track ) ser.enable_pointer_tracking();
    ser.start_sizing();
    s.run(ser);
    size_t            n = ser.size();
    std::vector<char> buf(n + 64, (char)0xA5);
    ser.start_packing(buf.data(), n);
    try { s.run(ser); } catch ( const std::exception& e ) { rep.fail("overrun", std::string("packing into a buffer of the computed size failed: ") + e.what()); return; }
    if ( ser.size() != n ) rep.fail("size", "sized " + std::to_string(n) + " bytes but packed " + std::to_string(ser.size()));
    for ( size_t i = n; i < buf.size(); i++ ) if ( buf[i] != (char)0xA5 ) rep.fail("overrun", "bytes behind the buffer were written");
    std::vector<char> b2(buf.begin(), buf.begin() + n);
    ser.start_unpacking(b2.data(), n);
    try { w.run(ser); } catch ( const std::exception& e ) { rep.fail("unpack", std::string("unpacking failed: ") + e.what()); return; }
    if ( ser.size() != n ) rep.fail("size", "packed " + std::to_string(n) + " bytes but unpacked " + std::to_string(ser.size()));
    for ( size_t i = 0; i < s.v.size(); i++ )
        if ( !s.v[i]->same(w.v[i]) ) rep.fail("value", "value " + std::to_string(i) + " (" + s.v[i]->name() + ") changed");
    // the source is unchanged by sizing and packing: a second round trip gives the same value
    ser.start_unpacking(b2.data(), n);
    w2.run(ser);
    for ( size_t i = 0; i < s.v.size(); i++ )
        if ( !s.v[i]->same(w2.v[i]) ) rep.fail("value", "second unpack: value " + std::to_string(i) + " (" + s.v[i]->name() + ") changed");
    // the unpacked objects serialize again, to the same size
    ser.start_sizing();
    w.run(ser);
    if ( ser.size() != n ) rep.fail("size", "the unpacked object needs " + std::to_string(ser.size()) + " bytes, the original " + std::to_string(n));
    ser.finalize();
    // a buffer that is too short is reported, never written behind
    if ( n ) {
        size_t            k = cut % n;
        std::vector<char> sb(n + 64, (char)0x5A);
        bool              thrown = false;
        serializer ser2;
        if ( track ) ser2.enable_pointer_tracking();
        ser2.start_packing(sb.data(), k);
        try { s.run(ser2); } catch ( const std::out_of_range& ) { thrown = true; }
        if ( !thrown ) rep.fail("short-buffer", "packing " + std::to_string(n) + " bytes into " + std::to_string(k) + " was not reported");
        for ( size_t i = k; i < sb.size(); i++ ) if ( sb[i] != 0x5A ) rep.fail("short-buffer", "bytes behind a short buffer were written");
        char* tb = (char*)malloc(k ? k : 1); // exactly k bytes
        memcpy(tb, b2.data(), k);
        serializer ser3;
        if ( track ) ser3.enable_pointer_tracking();
        ser3.start_unpacking(tb, k);
        thrown = false;
        try { w3.run(ser3); } catch ( const std::out_of_range& ) { thrown = true; }
        free(tb);
        if ( !thrown ) rep.fail("short-buffer", "unpacking " + std::to_string(n) + " bytes from " + std::to_string(k) + " was not reported");
    }
    o.pf("R %zu %zu", n, nbytes);
});
Reg r0("types", [](Host*, const Toks&, Out& o) { o.pf("T %zu", T().size()); for ( auto m : T() ) o.line(std::string("t ") + m()->name()); });

// ---------------------------------------------------------------- object graphs with pointer tracking
class GNode;
struct GPlain
{
    int                  id = 0;
    GPlain*              next = nullptr;
    std::vector<GPlain*> kids;
    GNode*               node = nullptr;
    std::string*         str = nullptr;
    std::vector<GPlain*>* bag = nullptr;
    void                 serialize_order(serializer& ser)
    {
        SST_SER(id);
        SST_SER(next);
        SST_SER(bag);
        SST_SER(kids);
        SST_SER(node);
        SST_SER(str);
    }
};
class GNode : public Ser::serializable
{
public:
    int                          id = 0;
    std::vector<GNode*>          out;
    std::map<int, GNode*>        named;
    GPlain*                      plain = nullptr;
    std::list<GNode*>*           group = nullptr;
    std::shared_ptr<std::string> sh;
    std::weak_ptr<std::string>   wk;
    std::shared_ptr<GPlain>      sp;
    int*                         ip = nullptr;
    std::unique_ptr<std::vector<GNode*>> up;
    virtual void                 serialize_order(serializer& ser) override
    {
        SST_SER(id);
        SST_SER(plain);
        SST_SER(out);
        SST_SER(wk);
        SST_SER(group);
        SST_SER(named);
        SST_SER(sh);
        SST_SER(sp);
        SST_SER(ip);
        SST_SER(up);
    }
    ImplementSerializable(vuser::GNode)
};
class GNode2 : public GNode
{
public:
    GNode* extra = nullptr;
    double d = 0;
    virtual void serialize_order(serializer& ser) override
    {
        SST_SER(d);
        SST_SER(extra);
        GNode::serialize_order(ser);
    }
    ImplementSerializable(vuser::GNode2)
};
struct Root
{
    // objects held by value whose address is taken elsewhere: serialized first, with as_ptr
    GPlain                held;
    std::list<GPlain>     heldl;
    std::vector<GNode*>   a;
    std::deque<GPlain*>   b;
    std::list<GNode*>*    g = nullptr;
    std::vector<std::shared_ptr<std::string>> s;
    void serialize_order(serializer& ser)
    {
        SST_SER(held, SerOption::as_ptr);
        SST_SER(heldl, SerOption::as_ptr_elem);
        SST_SER(a);
        SST_SER(b);
        SST_SER(g);
        SST_SER(s);
    }
};
struct Iso
{
    std::map<const void*, const void*> f, r;
    std::string                        why;
    bool no(const std::string& w) { if ( why.empty() ) why = w; return false; }
    // returns 0: mismatch, 1: already visited, 2: visit
    int pair(const void* a, const void* b, const char* w)
    {
        if ( !a || !b ) return a == b ? 1 : (no(std::string(w) + ": one is null"), 0);
        auto i = f.find(a), j = r.find(b);
        if ( i == f.end() && j == r.end() ) { f[a] = b; r[b] = a; return 2; }
        if ( i == f.end() || j == r.end() || i->second != b || j->second != a ) { no(std::string(w) + ": sharing changed"); return 0; }
        return 1;
    }
    bool val(const std::string* a, const std::string* b) { int k = pair(a, b, "string*"); return k == 0 ? false : k == 1 || *a == *b || no("string value"); }
    bool val(const int* a, const int* b) { int k = pair(a, b, "int*"); return k == 0 ? false : k == 1 || *a == *b || no("int value"); }
    bool plain(const GPlain* a, const GPlain* b)
    {
        int k = pair(a, b, "plain");
        if ( k != 2 ) return k;
        if ( a->id != b->id ) return no("plain id");
        return plain(a->next, b->next) && bag(a->bag, b->bag) && seq(a->kids, b->kids) && node(a->node, b->node) && val(a->str, b->str);
    }
    bool bag(const std::vector<GPlain*>* a, const std::vector<GPlain*>* b) { int k = pair(a, b, "bag"); return k != 2 ? k : seq(*a, *b); }
    bool one(GPlain* a, GPlain* b) { return plain(a, b); }
    bool one(GNode* a, GNode* b) { return node(a, b); }
    bool one(const std::pair<const int, GNode*>& a, const std::pair<const int, GNode*>& b) { return (a.first == b.first || no("key")) && node(a.second, b.second); }
    bool one(const std::shared_ptr<std::string>& a, const std::shared_ptr<std::string>& b) { return val(a.get(), b.get()); }
    template <class C>
    bool seq(const C& a, const C& b)
    {
        if ( a.size() != b.size() ) return no("container size");
        auto j = b.begin();
        for ( auto& e : a ) { if ( !one(e, *j) ) return false; ++j; }
        return true;
    }
    bool group(const std::list<GNode*>* a, const std::list<GNode*>* b) { int k = pair(a, b, "group"); return k != 2 ? k : seq(*a, *b); }
    bool node(const GNode* a, const GNode* b)
    {
        int k = pair(a, b, "node");
        if ( k != 2 ) return k;
        if ( typeid(*a) != typeid(*b) ) return no("dynamic type");
        if ( a->id != b->id ) return no("node id");
        if ( auto* x = dynamic_cast<const GNode2*>(a) ) {
            auto* y = dynamic_cast<const GNode2*>(b);
            if ( x->d != y->d || !node(x->extra, y->extra) ) return no("node2");
        }
        if ( !plain(a->plain, b->plain) || !seq(a->out, b->out) || !seq(a->named, b->named) || !group(a->group, b->group) ) return false;
        if ( !val(a->sh.get(), b->sh.get()) || !val(a->ip, b->ip) || !plain(a->sp.get(), b->sp.get()) ) return false;
        if ( a->wk.expired() != b->wk.expired() ) return no("weak pointer expiry");
        if ( !a->wk.expired() && !val(a->wk.lock().get(), b->wk.lock().get()) ) return false;
        if ( !a->up != !b->up ) return no("unique pointer");
        return !a->up || seq(*a->up, *b->up);
    }
};

Reg r2("graph", [](Host*, const Toks& a, Out& o) {
    Choices c(a[0] == "-" ? "" : unhex(a[0]));
    uint64_t opt = std::stoull(a[1]); // bit 0: cycles through the container a pointer points to; bit 1: objects held by value
    Root&   R = *new Root();
    size_t  nn = 1 + c.below(7), np = c.below(6), ng = c.below(3), ns = c.below(3), ni = c.below(3), nh = opt & 2 ? c.below(3) : 0, nb = c.below(3);
    std::vector<GNode*>                       N;
    std::vector<GPlain*>                      P;
    std::vector<std::list<GNode*>*>           GR;
    std::vector<std::vector<GPlain*>*>        B;
    std::vector<std::string*>                 ST;
    std::vector<std::shared_ptr<std::string>> SS;
    std::vector<std::shared_ptr<GPlain>>      SP;
    std::vector<int*>                         I;
    for ( size_t i = 0; i < nn; i++ ) { GNode* x; if ( c.byte() % 3 == 0 ) { auto* y = new GNode2(); y->d = i + 0.5; x = y; } else x = new GNode(); x->id = i; N.push_back(x); }
    for ( size_t i = 0; i < np; i++ ) { auto* x = new GPlain(); x->id = 100 + i; P.push_back(x); }
    if ( opt & 2 ) { R.held.id = 200; P.push_back(&R.held); }
    for ( size_t i = 0; i < nh; i++ ) { R.heldl.emplace_back(); R.heldl.back().id = 300 + i; }
    size_t nplain = P.size();
    for ( auto& h : R.heldl ) P.push_back(&h);
    for ( size_t i = 0; i < ng; i++ ) GR.push_back(new std::list<GNode*>());
    for ( size_t i = 0; i < nb; i++ ) B.push_back(new std::vector<GPlain*>());
    for ( size_t i = 0; i < ns; i++ ) { ST.push_back(new std::string("s" + std::to_string(i))); SS.push_back(std::make_shared<std::string>("S" + std::to_string(i))); SP.push_back(std::make_shared<GPlain>()); SP.back()->id = 400 + i; }
    for ( size_t i = 0; i < ni; i++ ) I.push_back(new int(500 + i));
    auto pick = [&](auto& v) -> typename std::decay_t<decltype(v)>::value_type {
        typedef typename std::decay_t<decltype(v)>::value_type V;
        size_t k = c.below(v.size() + 2);
        return k < v.size() ? v[k] : V();
    };
    // objects held by value are serialized first and must not reach objects that point back to a later held one
    size_t shared = 0, cyc = 0;
    for ( size_t i = 0; i < nn; i++ ) {
        auto* x = N[i];
        size_t k = c.below(4);
        for ( size_t j = 0; j < k; j++ ) { auto* y = pick(N); x->out.push_back(y); if ( y && y->id <= (int)i ) cyc++; }
        k = c.below(3);
        for ( size_t j = 0; j < k; j++ ) x->named[c.byte() % 5] = pick(N);
        x->plain = pick(P);
        if ( opt & 1 ) x->group = pick(GR);
        x->sh = pick(SS);
        x->wk = pick(SS);
        x->sp = pick(SP);
        x->ip = pick(I);
        if ( c.byte() % 4 == 0 ) x->up.reset(new std::vector<GNode*>(1, pick(N)));
        if ( auto* y = dynamic_cast<GNode2*>(x) ) y->extra = pick(N);
    }
    std::vector<GPlain*> allp(P.begin(), P.begin() + np);
    for ( auto& s : SP ) allp.push_back(s.get());
    for ( auto* x : allp ) {
        x->next = pick(P);
        size_t k = c.below(3);
        for ( size_t j = 0; j < k; j++ ) x->kids.push_back(pick(P));
        x->node = pick(N);
        x->str  = pick(ST);
        if ( opt & 1 ) x->bag = pick(B);
    }
    // held objects refer only to objects that were serialized before them or that lead nowhere else
    { GPlain* prev = nullptr; for ( size_t i = np; i < P.size(); i++ ) { P[i]->next = c.flag() ? prev : nullptr; P[i]->str = pick(ST); prev = P[i]; } }
    for ( auto* g : GR ) { size_t k = c.below(4); for ( size_t j = 0; j < k; j++ ) g->push_back(pick(N)); }
    for ( auto* g : B ) { size_t k = c.below(4); for ( size_t j = 0; j < k; j++ ) g->push_back(pick(P)); }
    for ( size_t i = 0; i < 1 + c.below(3); i++ ) R.a.push_back(pick(N));
    for ( size_t i = 0; i < c.below(3); i++ ) R.b.push_back(pick(P));
    R.g = pick(GR);
    for ( size_t i = 0; i < c.below(3); i++ ) R.s.push_back(pick(SS));

    serializer ser;
    ser.enable_pointer_tracking();
    ser.start_sizing();
    SST_SER(R);
    size_t            n = ser.size();
    std::vector<char> buf(n + 64, (char)0xA5);
    ser.start_packing(buf.data(), n);
    try { SST_SER(R); } catch ( const std::exception& e ) { o.fail("graph-overrun", e.what()); return; }
    if ( ser.size() != n ) { o.fail("graph-size", "sized " + std::to_string(n) + ", packed " + std::to_string(ser.size())); return; }
    Root& W = *new Root();
    ser.start_unpacking(buf.data(), n);
    try { SST_SER(W); } catch ( const std::exception& e ) { o.fail("graph-unpack", e.what()); return; }
    size_t got = ser.size();
    if ( got != n ) { o.fail("graph-unpack", "packed " + std::to_string(n) + ", unpacked " + std::to_string(got)); return; }
    Iso iso;
    // a weak pointer keeps the object alive only while the session lasts: compare before finalize()
    bool ok = iso.plain(&R.held, &W.held);
    auto j = W.heldl.begin();
    if ( R.heldl.size() != W.heldl.size() ) ok = iso.no("held list size");
    for ( auto& h : R.heldl ) { ok = ok && iso.plain(&h, &*j); ++j; }
    ok = ok && iso.seq(R.a, W.a) && iso.seq(R.b, W.b) && iso.group(R.g, W.g) && iso.seq(R.s, W.s);
    if ( !ok ) { o.fail("graph", iso.why); return; }
    o.pf("R %zu %zu %zu", n, iso.f.size(), cyc);
});
} // namespace vuser
VU_EXEC("vuser")
