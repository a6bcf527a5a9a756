// Element library "vucon": components with variables of every kind, changed by scripted acts, for the interactive console (checks/c21.py has the model).
#include "sst_config.h"
#include "sst/core/component.h"
#include "sst/core/event.h"
#include "sst/core/link.h"
#include "sst/core/subcomponent.h"
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace vucon {
using namespace SST;

class Ev : public Event
{
public:
    int i = 0;
    Ev() = default;
    Ev(int i) : i(i) {}
    void serialize_order(SST::Core::Serialization::serializer& ser) override { Event::serialize_order(ser); SST_SER(i); }
    ImplementSerializable(vucon::Ev)
};

struct Vars
{
    int8_t               i8  = 0;
    int16_t              i16 = 0;
    int32_t              i32 = 0;
    int64_t              i64 = 0;
    uint8_t              u8  = 0;
    uint16_t             u16 = 0;
    uint32_t             u32 = 0;
    uint64_t             u64 = 0;
    float                f   = 0;
    double               d   = 0;
    bool                 b   = false;
    std::string          s;
    std::vector<int32_t> v;

    template <class T>
    static void inc(T& x, int64_t k) { x = static_cast<T>(static_cast<uint64_t>(x) + static_cast<uint64_t>(k)); }

    // "+": add, "=": assign
    void apply(const std::string& op, const std::string& n, const std::string& val)
    {
        int64_t k = strtoll(val.c_str(), nullptr, 10);
        bool    a = op == "+";
#define INT(x) if ( n == #x ) { if ( a ) inc(x, k); else x = static_cast<decltype(x)>(val[0] == '-' ? (uint64_t)k : strtoull(val.c_str(), nullptr, 10)); }
        INT(i8) INT(i16) INT(i32) INT(i64) INT(u8) INT(u16) INT(u32) INT(u64)
        if ( n == "f" ) f = a ? f + strtof(val.c_str(), nullptr) : strtof(val.c_str(), nullptr);
        if ( n == "d" ) d = a ? d + strtod(val.c_str(), nullptr) : strtod(val.c_str(), nullptr);
        if ( n == "b" ) b = a ? !b : val == "true";
        if ( n == "s" ) s = a ? s + val : val;
        if ( n[0] == 'v' && n.size() > 1 ) {
            size_t i = strtoul(n.c_str() + 1, nullptr, 10);
            if ( i < v.size() ) { if ( a ) inc(v[i], k); else v[i] = k; }
        }
    }

    std::string show() const
    {
        char t[400];
        snprintf(t, sizeof(t), "%d %d %d %" PRId64 " %u %u %u %" PRIu64 " %a %a %d", i8, i16, i32, i64, u8, u16, u32, u64, f, d, (int)b);
        std::string r = t;
        for ( auto x : v ) r += " " + std::to_string(x);
        return r + " '" + s + "'";
    }
};

#define SER_VARS                                                                                                       \
    SST_SER(i8); SST_SER(i16); SST_SER(i32); SST_SER(i64); SST_SER(u8); SST_SER(u16); SST_SER(u32); SST_SER(u64);        \
    SST_SER(f); SST_SER(d); SST_SER(b); SST_SER(s); SST_SER(v);

class Part : public SubComponent, public Vars
{
public:
    SST_ELI_REGISTER_SUBCOMPONENT_API(vucon::Part)
    SST_ELI_REGISTER_SUBCOMPONENT(Part, "vucon", "part", SST_ELI_ELEMENT_VERSION(1,0,0), "variables", vucon::Part)
    Part(ComponentId_t id, Params& p) : SubComponent(id) { v.resize(p.find<int>("vec", 0)); }
    Part() {}
    void serialize_order(SST::Core::Serialization::serializer& ser) override { SubComponent::serialize_order(ser); SER_VARS }
    ImplementSerializable(vucon::Part)
};

class Cell : public Component, public Vars
{
public:
    SST_ELI_REGISTER_COMPONENT(Cell, "vucon", "cell", SST_ELI_ELEMENT_VERSION(1,0,0), "script", COMPONENT_CATEGORY_UNCATEGORIZED)
    SST_ELI_DOCUMENT_PORTS({"a", "", {}}, {"b", "", {}})
    SST_ELI_DOCUMENT_SUBCOMPONENT_SLOTS({"part", "variables", "vucon::Part"})

    std::vector<std::string> acts_;  // "time op var value;op var value..."
    std::vector<std::string> tick_;  // "op var value"
    Link*                    a_    = nullptr;
    Link*                    b_    = nullptr;
    Part*                    part_ = nullptr;
    int                      left_ = 0;
    int                      ticks_ = 0;

    void one(const std::string& x)
    {
        std::istringstream s(x);
        std::string        op, n, val;
        s >> op >> n;
        s.get();
        std::getline(s, val);
        if ( n.substr(0, 5) == "part." ) { if ( part_ ) part_->apply(op, n.substr(5), val); }
        else apply(op, n, val);
    }
    void log(const char* how)
    {
        FILE* f = fopen((std::string(getenv("VERIF_OUT")) + "/" + getName() + ".log").c_str(), "a");
        fprintf(f, "%s %" PRIu64 " %s", how, (uint64_t)getCurrentSimCycle(), show().c_str());
        if ( part_ ) fprintf(f, " | %s", part_->show().c_str());
        fprintf(f, "\n");
        fclose(f);
    }
    void done()
    {
        if ( --left_ == 0 ) primaryComponentOKToEndSim();
    }
    void onEvent(Event* e)
    {
        int i = static_cast<Ev*>(e)->i;
        delete e;
        std::string        x;
        std::istringstream s(acts_[i]);
        s >> x;
        while ( std::getline(s, x, ';') ) one(x);
        log("E");
        done();
    }
    bool onClock(Cycle_t)
    {
        for ( auto& x : tick_ ) one(x);
        log("C");
        if ( --ticks_ == 0 ) { done(); return true; }
        return false;
    }
    Cell(ComponentId_t id, Params& p) : Component(id)
    {
        p.find_array<std::string>("acts", acts_);
        p.find_array<std::string>("tick", tick_);
        std::vector<std::string> init;
        p.find_array<std::string>("init", init);
        v.resize(p.find<int>("vec", 0));
        part_ = loadUserSubComponent<Part>("part", ComponentInfo::SHARE_NONE);
        for ( auto& x : init ) one(x);
        a_ = configureLink("a", new Event::Handler<Cell, &Cell::onEvent>(this));
        b_ = configureLink("b", new Event::Handler<Cell, &Cell::onEvent>(this));
        left_  = acts_.size();
        ticks_ = p.find<int>("ticks", 0);
        if ( ticks_ ) {
            left_++;
            registerClock(p.find<std::string>("period"), new Clock::Handler<Cell, &Cell::onClock>(this));
        }
        a_->setDefaultTimeBase(getTimeConverter(p.find<std::string>("tb")));
        b_->setDefaultTimeBase(getTimeConverter(p.find<std::string>("tb")));
        registerAsPrimaryComponent();
        if ( left_ ) primaryComponentDoNotEndSim();
    }
    Cell() {}
    void setup() override
    {
        for ( size_t i = 0; i < acts_.size(); i++ ) (i % 2 ? a_ : b_)->send(strtoull(acts_[i].c_str(), nullptr, 10) - 1, new Ev(i));
    }
    void finish() override { log("F"); }
    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        Component::serialize_order(ser);
        SST_SER(acts_); SST_SER(tick_); SST_SER(a_); SST_SER(b_); SST_SER(part_); SST_SER(left_); SST_SER(ticks_);
        SER_VARS
    }
    ImplementSerializable(vucon::Cell)
};
} // namespace vucon
