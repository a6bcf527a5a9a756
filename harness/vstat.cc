// Statistics: elements that register generated statistics and feed them with generated data at generated times.
#include "sst_config.h"
#include "sst/core/component.h"
#include "sst/core/link.h"
#include "sst/core/params.h"
#include "sst/core/simulation.h"
#include "sst/core/statapi/statbase.h"
#include "sst/core/statapi/stataccumulator.h"
#include "sst/core/subcomponent.h"
#include "sst/core/timeLord.h"
#include <sstream>
using namespace SST;
using namespace SST::Statistics;
namespace {

std::vector<std::string>
split(const std::string& t, char c)
{
    std::vector<std::string> v;
    std::stringstream        s(t);
    std::string              x;
    while ( std::getline(s, x, c) )
        v.push_back(x);
    return v;
}

struct StatReg
{
    char           type = 'i';
    StatisticBase* st   = nullptr;
    Statistic<int32_t>*  i32 = nullptr;
    Statistic<uint32_t>* u32 = nullptr;
    Statistic<int64_t>*  i64 = nullptr;
    Statistic<uint64_t>* u64 = nullptr;
    Statistic<float>*    f32 = nullptr;
    Statistic<double>*   f64 = nullptr;
    void serialize_order(SST::Core::Serialization::serializer& ser)
    {
        SST_SER(type);
        switch ( type ) {
        case 'i': SST_SER(i32); st = i32; break;
        case 'I': SST_SER(u32); st = u32; break;
        case 'l': SST_SER(i64); st = i64; break;
        case 'L': SST_SER(u64); st = u64; break;
        case 'f': SST_SER(f32); st = f32; break;
        case 'd': SST_SER(f64); st = f64; break;
        }
    }
};
struct StatOp
{
    uint64_t    t;
    uint32_t    reg;
    char        k;
    double      v;
    uint64_t    n;
    void        serialize_order(SST::Core::Serialization::serializer& ser)
    {
        SST_SER(t);
        SST_SER(reg);
        SST_SER(k);
        SST_SER(v);
        SST_SER(n);
    }
};

class StatAPI : public SubComponent
{
public:
    SST_ELI_REGISTER_SUBCOMPONENT_API(StatAPI)
    StatAPI(ComponentId_t id, Params&) : SubComponent(id) {}
    StatAPI() : SubComponent() {}
    virtual ~StatAPI() {}
    void serialize_order(SST::Core::Serialization::serializer& ser) override { SubComponent::serialize_order(ser); }
    ImplementSerializable(StatAPI)
};

template <class Base>
class Agent : public Base
{
public:
    Agent(ComponentId_t id) : Base(id) {}
    template <class... A>
    Agent(ComponentId_t id, A&... a) : Base(id, a...)
    {}
    Agent() : Base() {}

    template <class T>
    void reg1(Statistic<T>*& f, StatReg& s, const std::vector<std::string>& d)
    {
        std::string id = d.size() > 1 ? d[1] : "";
        if ( d.size() > 3 ) {
            Params p;
            for ( auto& kv : split(d[3], ';') ) {
                auto x = split(kv, '=');
                p.insert(x[0], x[1]);
            }
            f = this->template registerStatistic<T>(p, d[0], id);
        }
        else
            f = this->template registerStatistic<T>(d[0], id);
        s.st = f;
    }
    void init_(Params& p)
    {
        std::vector<std::string> r;
        p.find_array<std::string>("regs", r);
        for ( auto& x : r ) {
            auto    d = split(x, ':');
            StatReg s;
            s.type = d[2][0];
            switch ( s.type ) {
            case 'i': reg1(s.i32, s, d); break;
            case 'I': reg1(s.u32, s, d); break;
            case 'l': reg1(s.i64, s, d); break;
            case 'L': reg1(s.u64, s, d); break;
            case 'f': reg1(s.f32, s, d); break;
            case 'd': reg1(s.f64, s, d); break;
            }
            regs.push_back(s);
        }
        std::vector<std::string> o;
        p.find_array<std::string>("ops", o);
        for ( auto& x : o ) {
            auto d = split(x, ':');
            ops.push_back({ strtoull(d[0].c_str(), nullptr, 10), (uint32_t)atoi(d[1].c_str()), d[2][0], strtod(d[3].c_str(), nullptr), strtoull(d[4].c_str(), nullptr, 10) });
        }
        link = this->configureSelfLink("self", SST::Simulation::getTimeLord()->getTimeBase(), new Event::Handler<Agent<Base>, &Agent<Base>::handle>(this));
    }
    void setup() override
    {
        while ( next < ops.size() && ops[next].t == 0 )
            exec(ops[next++]);
        if ( next < ops.size() ) link->send(ops[next].t, nullptr);
    }
    void handle(Event*)
    {
        uint64_t now = this->getCurrentSimCycle();
        while ( next < ops.size() && ops[next].t == now )
            exec(ops[next++]);
        if ( next < ops.size() ) link->send(ops[next].t - now, nullptr);
    }
    void exec(const StatOp& o)
    {
        if ( o.k == 'X' ) {
            done();
            return;
        }
        if ( o.k == 'G' ) {
            this->performGlobalStatisticOutput();
            return;
        }
        StatReg& s = regs[o.reg];
        switch ( o.k ) {
        case 'a': {
            int64_t  i = (int64_t)o.v;
            switch ( s.type ) {
            case 'i': s.i32->addData((int32_t)i); break;
            case 'I': s.u32->addData((uint32_t)i); break;
            case 'l': s.i64->addData(i); break;
            case 'L': s.u64->addData((uint64_t)i); break;
            case 'f': s.f32->addData((float)o.v); break;
            case 'd': s.f64->addData(o.v); break;
            }
            break;
        }
        case 'n': {
            int64_t i = (int64_t)o.v;
            switch ( s.type ) {
            case 'i': s.i32->addDataNTimes(o.n, (int32_t)i); break;
            case 'I': s.u32->addDataNTimes(o.n, (uint32_t)i); break;
            case 'l': s.i64->addDataNTimes(o.n, i); break;
            case 'L': s.u64->addDataNTimes(o.n, (uint64_t)i); break;
            case 'f': s.f32->addDataNTimes(o.n, (float)o.v); break;
            case 'd': s.f64->addDataNTimes(o.n, o.v); break;
            }
            break;
        }
        case 'o': this->performStatisticOutput(s.st); break;
        case 'c': s.st->clearStatisticData(); break;
        case 'E': s.st->enable(); break;
        case 'D': s.st->disable(); break;
        case 'r': s.st->setFlagClearDataOnOutput(o.n); break;
        case 'e': s.st->setFlagOutputAtEndOfSim(o.n); break;
        case 'q': { // accessors of an accumulator
            if ( auto* a = dynamic_cast<AccumulatorStatistic<double>*>(s.f64) )
                printf("ACC %s %llu %llu %a %a %a\n", s.st->getFullStatName().c_str(), (unsigned long long)this->getCurrentSimCycle(), (unsigned long long)a->getCount(),
                    a->getArithmeticMean(), a->getVariance(), a->getStandardDeviation());
            break;
        }
        }
    }
    virtual void done() {}
    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        Base::serialize_order(ser);
        SST_SER(regs);
        SST_SER(ops);
        SST_SER(next);
        SST_SER(link);
    }
    std::vector<StatReg> regs;
    std::vector<StatOp>  ops;
    size_t               next = 0;
    Link*                link = nullptr;
};

#define STATDOC                                                                                                    \
    SST_ELI_DOCUMENT_STATISTICS({ "s0", "", "u", 1 }, { "s1", "", "u", 1 }, { "s2", "", "u", 2 }, { "s3", "", "u", 3 }, { "s4", "", "u", 5 }, { "s5", "", "u", 6 }, { "x0", "", "u", 1 }, { "x1", "", "u", 4 })

class StatComp : public Agent<Component>
{
public:
    SST_ELI_REGISTER_COMPONENT(StatComp, "vstat", "C", SST_ELI_ELEMENT_VERSION(1, 0, 0), "", COMPONENT_CATEGORY_UNCATEGORIZED)
    SST_ELI_DOCUMENT_PARAMS({ "regs", "", "" }, { "ops", "", "" }, { "share", "", "" }, { "primary", "", "" })
    STATDOC
    SST_ELI_DOCUMENT_SUBCOMPONENT_SLOTS({ "sub", "", "StatAPI" })
    StatComp(ComponentId_t id, Params& p) : Agent<Component>(id)
    {
        prim = p.find<bool>("primary", false);
        if ( prim ) {
            registerAsPrimaryComponent();
            primaryComponentDoNotEndSim();
        }
        if ( p.find<bool>("early", false) ) load(p);
        init_(p);
        if ( !p.find<bool>("early", false) ) load(p);
    }
    void load(Params& p)
    {
        int                   sh    = p.find<int>("share", 0);
        SubComponentSlotInfo* slots = getSubComponentSlotInfo("sub");
        if ( slots )
            for ( int i = 0; i <= slots->getMaxPopulatedSlotNumber(); i++ )
                if ( slots->isPopulated(i) )
                    subs.push_back(slots->create<StatAPI>(i, sh == 0 ? ComponentInfo::SHARE_NONE : sh == 1 ? ComponentInfo::INSERT_STATS : ComponentInfo::SHARE_STATS));
    }
    StatComp() {}
    void setup() override
    {
        for ( auto* s : subs )
            s->setup();
        Agent<Component>::setup();
    }
    void done() override
    {
        if ( prim ) primaryComponentOKToEndSim();
    }
    bool                  prim = false;
    std::vector<StatAPI*> subs;
    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        Agent<Component>::serialize_order(ser);
        SST_SER(prim);
        SST_SER(subs);
    }
    ImplementSerializable(StatComp)
};

class StatSub : public Agent<StatAPI>
{
public:
    SST_ELI_REGISTER_SUBCOMPONENT(StatSub, "vstat", "S", SST_ELI_ELEMENT_VERSION(1, 0, 0), "", StatAPI)
    SST_ELI_DOCUMENT_PARAMS({ "regs", "", "" }, { "ops", "", "" })
    SST_ELI_DOCUMENT_STATISTICS({ "s0", "", "u", 1 }, { "s2", "", "u", 3 }, { "t0", "", "u", 1 }, { "t1", "", "u", 4 })
    StatSub(ComponentId_t id, Params& p) : Agent<StatAPI>(id, p) { init_(p); }
    StatSub() {}
    void serialize_order(SST::Core::Serialization::serializer& ser) override { Agent<StatAPI>::serialize_order(ser); }
    ImplementSerializable(StatSub)
};

} // namespace
