// Element library "vushr": components that carry out a script of operations on SharedArray, SharedMap and SharedSet
// objects during construction, init(), setup() and run, and write down what they see.  checks/c14.py has the model.
#include "sst_config.h"
#include "sst/core/component.h"
#include "sst/core/event.h"
#include "sst/core/link.h"
#include "sst/core/shared/sharedArray.h"
#include "sst/core/shared/sharedMap.h"
#include "sst/core/shared/sharedSet.h"
#include <cinttypes>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vushr {
using namespace SST;
using SST::Shared::SharedObject;

// ordered by k only: two items with equal k and different v are "non-equal values of the same item"
struct KV
{
    int k = 0, v = 0;
    bool operator<(const KV& o) const { return k < o.k; }
    bool operator==(const KV& o) const { return k == o.k && v == o.v; }
    void serialize_order(SST::Core::Serialization::serializer& ser)
    {
        SST_SER(k);
        SST_SER(v);
    }
};

class Ev : public Event
{
public:
    Ev() = default;
    void serialize_order(SST::Core::Serialization::serializer& ser) override { Event::serialize_order(ser); }
    ImplementSerializable(vushr::Ev)
};

struct Op
{
    char              c = 0;
    int               slot = 0, phase = 0;
    std::string       type;
    std::vector<std::string> a;
    void serialize_order(SST::Core::Serialization::serializer& ser)
    {
        SST_SER(c); SST_SER(slot); SST_SER(phase); SST_SER(type); SST_SER(a);
    }
};

static SharedObject::verify_type V(const std::string& s)
{
    return s == "fe" ? SharedObject::FE_VERIFY : s == "init" ? SharedObject::INIT_VERIFY : SharedObject::NO_VERIFY;
}

class Comp : public Component
{
public:
    SST_ELI_REGISTER_COMPONENT(Comp, "vushr", "comp", SST_ELI_ELEMENT_VERSION(1,0,0), "script", COMPONENT_CATEGORY_UNCATEGORIZED)
    SST_ELI_DOCUMENT_PORTS({"a", "", {}}, {"b", "", {}})

    Shared::SharedArray<int>            ai_[2];
    Shared::SharedArray<bool>           ab_[2];
    Shared::SharedArray<std::string>    as_[2];
    Shared::SharedMap<int, std::string> mi_[2];
    Shared::SharedMap<std::string, int64_t> ms_[2];
    Shared::SharedSet<int>              si_[2];
    Shared::SharedSet<KV>               sk_[2];

    std::vector<Op>          ops_;
    std::vector<int>         have_; // op indices of initialised objects
    std::vector<std::string> log_;
    int                      phases_ = 0;
    int                      ticks_  = 0;
    Link*                    a_      = nullptr;
    Link*                    b_      = nullptr;
    std::string              out_;

    Comp() {}
    Comp(ComponentId_t id, Params& p) : Component(id)
    {
        phases_ = p.find<int>("phases", 0);
        std::istringstream lines(p.find<std::string>("script", ""));
        for ( std::string l; std::getline(lines, l, ';'); ) {
            std::istringstream s(l);
            Op o;
            s >> o.c >> o.phase >> o.type >> o.slot;
            for ( std::string w; s >> w; ) o.a.push_back(w);
            ops_.push_back(o);
        }
        a_ = configureLink("a", new Event::Handler<Comp, &Comp::onEvent>(this));
        b_ = configureLink("b", new Event::Handler<Comp, &Comp::onEvent>(this));
        registerClock("1GHz", new Clock::Handler<Comp, &Comp::tick>(this));
        registerAsPrimaryComponent();
        primaryComponentDoNotEndSim();
        doPhase(-1);
    }

    void onEvent(Event* ev) { delete ev; }
    void L(const std::string& s)
    {
        log_.push_back(s);
    }

    template <class O>
    void initObj(O& o, int i, int)
    {
        Op& p = ops_[i];
        int r;
        if constexpr ( std::is_same_v<O, Shared::SharedArray<int>> )
            r = o.initialize(p.a[0], std::stoi(p.a[1]), std::stoi(p.a[2]), V(p.a[3]));
        else if constexpr ( std::is_same_v<O, Shared::SharedArray<bool>> )
            r = o.initialize(p.a[0], std::stoi(p.a[1]), p.a[2] == "1", V(p.a[3]));
        else if constexpr ( std::is_same_v<O, Shared::SharedArray<std::string>> )
            r = o.initialize(p.a[0], std::stoi(p.a[1]), p.a[2], V(p.a[3]));
        else
            r = o.initialize(p.a[0], V(p.a[3]));
        L("I " + std::to_string(i) + " " + std::to_string(r));
        have_.push_back(i);
    }

    template <class F>
    void with(const Op& p, F f)
    {
        int s = p.slot;
        if ( p.type == "ai" ) f(ai_[s]);
        else if ( p.type == "ab" ) f(ab_[s]);
        else if ( p.type == "as" ) f(as_[s]);
        else if ( p.type == "mi" ) f(mi_[s]);
        else if ( p.type == "ms" ) f(ms_[s]);
        else if ( p.type == "si" ) f(si_[s]);
        else f(sk_[s]);
    }

    void write(Shared::SharedArray<int>& o, const Op& p) { o.write(std::stoi(p.a[0]), std::stoi(p.a[1])); }
    void write(Shared::SharedArray<bool>& o, const Op& p) { o.write(std::stoi(p.a[0]), p.a[1] == "1"); }
    void write(Shared::SharedArray<std::string>& o, const Op& p) { o.write(std::stoi(p.a[0]), p.a[1]); }
    void write(Shared::SharedMap<int, std::string>& o, const Op& p) { o.write(std::stoi(p.a[0]), p.a[1]); }
    void write(Shared::SharedMap<std::string, int64_t>& o, const Op& p) { o.write(p.a[0], std::stoll(p.a[1])); }
    void write(Shared::SharedSet<int>& o, const Op& p) { o.insert(std::stoi(p.a[0])); }
    void write(Shared::SharedSet<KV>& o, const Op& p) { KV k; k.k = std::stoi(p.a[0]); k.v = std::stoi(p.a[1]); o.insert(k); }

    static std::string S(int x) { return std::to_string(x); }
    static std::string S(bool x) { return x ? "1" : "0"; }
    static std::string S(int64_t x) { return std::to_string(x); }
    static std::string S(const std::string& x) { return x; }

    // one key, safely
    template <class T>
    std::string get(Shared::SharedArray<T>& o, const std::string& k)
    {
        int i = std::stoi(k);
        if ( (size_t)i >= o.size() ) return "-";
        return S((T)o.mutex_read(i));
    }
    std::string get(Shared::SharedMap<int, std::string>& o, const std::string& k)
    {
        try { return S(o.mutex_read(std::stoi(k))); } catch ( const std::out_of_range& ) { return "-"; }
    }
    std::string get(Shared::SharedMap<std::string, int64_t>& o, const std::string& k)
    {
        try { return S(o.mutex_read(k)); } catch ( const std::out_of_range& ) { return "-"; }
    }
    std::string get(Shared::SharedSet<int>& o, const std::string& k)
    {
        return o.mutex_find(std::stoi(k)) == o.end() ? "-" : "in";
    }
    std::string get(Shared::SharedSet<KV>& o, const std::string& k)
    {
        KV q;
        q.k = std::stoi(k);
        auto it = o.mutex_find(q);
        return it == o.end() ? "-" : S(it->v);
    }

    template <class T>
    std::string all(Shared::SharedArray<T>& o)
    {
        std::string r = std::to_string(o.size()) + (o.empty() ? "e" : "f");
        for ( size_t i = 0; i < o.size(); ++i ) r += " " + S((T)o[i]) + (((T)o[i] == (T)o.mutex_read(i)) ? "" : "!");
        r += " |";
        for ( auto it = o.begin(); it != o.end(); ++it ) r += " " + S((T)*it);
        r += " |";
        for ( auto it = o.rbegin(); it != o.rend(); ++it ) r += " " + S((T)*it);
        return r;
    }
    template <class K, class T>
    std::string all(Shared::SharedMap<K, T>& o)
    {
        std::string r = std::to_string(o.size()) + (o.empty() ? "e" : "f");
        for ( auto it = o.begin(); it != o.end(); ++it ) {
            r += " " + S(it->first) + "=" + S(it->second);
            if ( o[it->first] != it->second || o.count(it->first) != 1 || o.find(it->first) != it ) r += "!";
            if ( o.lower_bound(it->first) != it ) r += "<";
            if ( o.upper_bound(it->first) != std::next(it) ) r += ">";
        }
        r += " |";
        for ( auto it = o.rbegin(); it != o.rend(); ++it ) r += " " + S(it->first) + "=" + S(it->second);
        return r;
    }
    static std::string S(const KV& x) { return S(x.k) + "=" + S(x.v); }
    template <class T>
    std::string all(Shared::SharedSet<T>& o)
    {
        std::string r = std::to_string(o.size()) + (o.empty() ? "e" : "f");
        for ( auto it = o.begin(); it != o.end(); ++it ) {
            r += " " + S(*it);
            if ( o.count(*it) != 1 || o.find(*it) != it ) r += "!";
        }
        r += " |";
        for ( auto it = o.rbegin(); it != o.rend(); ++it ) r += " " + S(*it);
        return r;
    }

    void doPhase(int ph)
    {
        // what is seen before this phase's own operations
        for ( int i : have_ ) {
            if ( ph < 0 ) continue;
            const Op& p = ops_[i];
            with(p, [&](auto& o) {
                std::string r;
                if ( ph >= 100 ) r = all(o);
                else for ( size_t j = 4; j < p.a.size(); ++j ) r += (j > 4 ? " " : "") + get(o, p.a[j]);
                L("D " + std::to_string(ph) + " " + std::to_string(i) + " " + (o.isFullyPublished() ? "pub" : "open") + " " + r);
            });
        }
        for ( size_t i = 0; i < ops_.size(); ++i ) {
            const Op& p = ops_[i];
            if ( p.phase != ph ) continue;
            with(p, [&](auto& o) {
                if ( p.c == 'o' ) initObj(o, i, 0);
                else if ( p.c == 'p' ) o.publish();
                else write(o, p);
            });
        }
    }
    void init(unsigned ph) override
    {
        for ( Link* l : { a_, b_ } ) if ( l ) while ( Event* e = l->recvUntimedData() ) delete e;
        doPhase(ph);
        if ( (int)ph + 1 < phases_ ) for ( Link* l : { a_, b_ } ) if ( l ) l->sendUntimedData(new Ev);
    }
    void setup() override { doPhase(100); }
    bool tick(Cycle_t)
    {
        ++ticks_;
        if ( ticks_ % 20 == 10 ) doPhase(101 + ticks_ / 20);
        return false;
    }
    void finish() override
    {
        const char* d = getenv("VERIF_OUT");
        std::ofstream f(std::string(d ? d : ".") + "/" + getName() + ".log");
        for ( auto& s : log_ ) f << s << "\n";
        f << "X " << getRank().rank << "\n";
    }
    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        Component::serialize_order(ser);
        SST_SER(ai_); SST_SER(ab_); SST_SER(as_); SST_SER(mi_); SST_SER(ms_); SST_SER(si_); SST_SER(sk_);
        SST_SER(ops_); SST_SER(have_); SST_SER(log_); SST_SER(phases_); SST_SER(ticks_); SST_SER(a_); SST_SER(b_);
    }
    ImplementSerializable(vushr::Comp)
};

} // namespace vushr
