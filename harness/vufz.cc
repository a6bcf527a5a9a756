// Components for the robustness check: they tolerate every configuration and end by themselves after a bounded
// number of activities, so that whatever goes wrong with a generated configuration is the core's doing.
#include "sst/core/component.h"
#include "sst/core/link.h"
#include "sst/core/params.h"
#include "sst/core/rng/mersenne.h"
#include "sst/core/statapi/statbase.h"
#include "sst/core/subcomponent.h"
#include "sst/core/event.h"

#include <string>
#include <vector>

namespace vufz {
using namespace SST;

class Ev : public Event
{
public:
    int n = 0;
    Ev(int n = 0) : n(n) {}
    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        Event::serialize_order(ser);
        SST_SER(n);
    }
    ImplementSerializable(vufz::Ev)
};

class Sub : public SubComponent
{
public:
    SST_ELI_REGISTER_SUBCOMPONENT_API(vufz::Sub)
    Sub(ComponentId_t id) : SubComponent(id) {}
    Sub() {}
    virtual void poke(uint64_t v) = 0;
    void serialize_order(SST::Core::Serialization::serializer& ser) override { SubComponent::serialize_order(ser); }
    ImplementVirtualSerializable(vufz::Sub)
};

class S : public Sub
{
public:
    SST_ELI_REGISTER_SUBCOMPONENT(S, "vufz", "S", SST_ELI_ELEMENT_VERSION(1, 0, 0), "sub", vufz::Sub)
    SST_ELI_DOCUMENT_PARAMS({ "a", "", "1" }, { "n", "", "1" })
    SST_ELI_DOCUMENT_STATISTICS({ "s1", "", "", 1 }, { "s2", "", "", 3 })
    SST_ELI_DOCUMENT_PORTS({ "q%d", "", {} })
    SST_ELI_DOCUMENT_SUBCOMPONENT_SLOTS({ "sub", "", "vufz::Sub" })
    Statistic<uint64_t>* s1 = nullptr;
    Statistic<int32_t>*  s2 = nullptr;
    std::vector<Link*>   links;
    std::vector<Sub*>    subs;
    S(ComponentId_t id, Params& p) : Sub(id)
    {
        (void)p.find<std::string>("a", "1");
        s1 = registerStatistic<uint64_t>("s1");
        s2 = registerStatistic<int32_t>("s2");
        for ( int i = 0; i < 3; ++i ) {
            std::string q = "q" + std::to_string(i);
            if ( isPortConnected(q) ) links.push_back(configureLink(q, new Event::Handler<S, &S::onEvent>(this)));
        }
        if ( SubComponentSlotInfo* si = getSubComponentSlotInfo("sub") ) {
            for ( int i = 0; i <= si->getMaxPopulatedSlotNumber() && i < 100; ++i )
                if ( si->isPopulated(i) ) subs.push_back(si->create<Sub>(i, ComponentInfo::SHARE_NONE));
        }
    }
    S() {}
    void onEvent(Event* ev)
    {
        if ( s1 ) s1->addData(1);
        delete ev;
    }
    void poke(uint64_t v) override
    {
        if ( s1 ) s1->addData(v);
        if ( s2 ) s2->addData((int32_t)v - 10);
        for ( auto* l : links ) if ( l ) l->send(new Ev(0));
        for ( auto* s : subs ) if ( s ) s->poke(v + 1);
    }
    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        Sub::serialize_order(ser);
        SST_SER(s1);
        SST_SER(s2);
        SST_SER(links);
        SST_SER(subs);
    }
    ImplementSerializable(vufz::S)
};

class C : public Component
{
public:
    SST_ELI_REGISTER_COMPONENT(C, "vufz", "C", SST_ELI_ELEMENT_VERSION(1, 0, 0), "comp", COMPONENT_CATEGORY_UNCATEGORIZED)
    SST_ELI_DOCUMENT_PARAMS({ "a", "", "1" }, { "n", "", "20" }, { "clk", "", "1GHz" }, { "self", "", "1ns" }, { "d", "", "1" })
    SST_ELI_DOCUMENT_STATISTICS({ "s1", "", "", 1 }, { "s2", "", "", 3 }, { "s3", "", "", 5 })
    SST_ELI_DOCUMENT_PORTS({ "p%d", "", {} })
    SST_ELI_DOCUMENT_SUBCOMPONENT_SLOTS({ "sub", "", "vufz::Sub" })
    Statistic<uint64_t>* s1 = nullptr;
    Statistic<int32_t>*  s2 = nullptr;
    Statistic<double>*   s3 = nullptr;
    std::vector<Link*>   links;
    std::vector<Sub*>    subs;
    Link*                self = nullptr;
    int64_t              n = 20, sent = 0;
    C(ComponentId_t id, Params& p) : Component(id)
    {
        n = p.find<int64_t>("n", 20);
        if ( n > 200 ) n = 200;
        (void)p.find<double>("d", 1);
        (void)p.find<bool>("b", false);
        s1 = registerStatistic<uint64_t>("s1");
        s2 = registerStatistic<int32_t>("s2");
        s3 = registerStatistic<double>("s3");
        for ( int i = 0; i < 4; ++i ) {
            std::string q = "p" + std::to_string(i);
            if ( isPortConnected(q) ) links.push_back(configureLink(q, new Event::Handler<C, &C::onEvent>(this)));
        }
        std::string c = p.find<std::string>("clk", "1GHz");
        registerClock(c, new Clock::Handler<C, &C::tick>(this));
        self = configureSelfLink("self", p.find<std::string>("self", "1ns"), new Event::Handler<C, &C::onEvent>(this));
        if ( SubComponentSlotInfo* si = getSubComponentSlotInfo("sub") ) {
            for ( int i = 0; i <= si->getMaxPopulatedSlotNumber() && i < 100; ++i )
                if ( si->isPopulated(i) ) subs.push_back(si->create<Sub>(i, ComponentInfo::SHARE_NONE));
        }
        registerAsPrimaryComponent();
        primaryComponentDoNotEndSim();
    }
    C() {}
    void onEvent(Event* ev)
    {
        Ev* e = static_cast<Ev*>(ev);
        int k = e->n;
        delete e;
        if ( s1 ) s1->addData(k);
        if ( k > 0 && sent < 100 ) for ( auto* l : links ) if ( l && sent++ < 100 ) l->send(new Ev(k - 1));
    }
    bool tick(Cycle_t cyc)
    {
        if ( s1 ) s1->addData(cyc);
        if ( s2 ) s2->addData(-(int32_t)(cyc % 100));
        if ( s3 ) s3->addData(0.5 * cyc);
        for ( auto* l : links ) if ( l && sent++ < 100 ) l->send(new Ev(2));
        if ( cyc % 3 == 0 ) self->send(1, new Ev(0));
        for ( auto* s : subs ) if ( s ) s->poke(cyc);
        if ( --n <= 0 ) {
            primaryComponentOKToEndSim();
            return true;
        }
        return false;
    }
    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        Component::serialize_order(ser);
        SST_SER(s1);
        SST_SER(s2);
        SST_SER(s3);
        SST_SER(links);
        SST_SER(subs);
        SST_SER(self);
        SST_SER(n);
        SST_SER(sent);
    }
    ImplementSerializable(vufz::C)
};
} // namespace vufz
