// Element library "vupm": port modules with deterministic rules (pass, drop, modify, replace) that write down every event they see, and elements
// (components, user subcomponents, anonymous subcomponents with shared ports) that send scripted events through them.  checks/c24.py has the model.
#include "sst_config.h"
#include "sst/core/component.h"
#include "sst/core/event.h"
#include "sst/core/link.h"
#include "sst/core/portModule.h"
#include "sst/core/subcomponent.h"
#include "sst/core/timeConverter.h"
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <string>
#include <vector>

namespace vupm {
using namespace SST;

static void put(const std::string& name, const std::string& line)
{
    const char* d = getenv("VERIF_OUT");
    FILE*       f = fopen((std::string(d ? d : ".") + "/" + name + ".log").c_str(), "a");
    if ( !f ) return;
    fprintf(f, "%s\n", line.c_str());
    fclose(f);
}

class Ev : public Event
{
public:
    uint64_t v    = 0;
    int      hops = 0;
    Ev() = default;
    Ev(uint64_t v, int hops) : v(v), hops(hops) {}
    void serialize_order(SST::Core::Serialization::serializer& ser) override { Event::serialize_order(ser); SST_SER(v); SST_SER(hops); }
    ImplementSerializable(vupm::Ev)
};

// What replaces an event: another type, so that a handler sees whether it got the original
class Other : public Ev
{
public:
    Other() = default;
    Other(uint64_t v, int hops) : Ev(v, hops) {}
    void serialize_order(SST::Core::Serialization::serializer& ser) override { Ev::serialize_order(ser); }
    ImplementSerializable(vupm::Other)
};

class Mod : public PortModule
{
public:
    SST_ELI_REGISTER_PORTMODULE(Mod, "vupm", "mod", SST_ELI_ELEMENT_VERSION(1,0,0), "rules")
    SST_ELI_DOCUMENT_STATISTICS({"seen", "", "x", 1}, {"dropped", "", "x", 1})
    uint64_t              n_ = 0, a_ = 0, m_ = 1, add_ = 0;
    bool                  null_ = true;
    std::vector<uint64_t> drop_, rep_, chg_;
    std::string           id_, where_;
    int                   side_ = 0;
    Statistic<uint64_t>*  seen_ = nullptr;
    Statistic<uint64_t>*  dropped_ = nullptr;
    Mod() = default;
    explicit Mod(Params& p)
    {
        side_ = p.find<int>("side", 1);
        a_    = p.find<uint64_t>("a", 0);
        m_    = p.find<uint64_t>("m", 1);
        add_  = p.find<uint64_t>("add", 0);
        null_ = p.find<bool>("null", true);
        id_   = p.find<std::string>("id", "");
        p.find_array<uint64_t>("drop", drop_);
        p.find_array<uint64_t>("replace", rep_);
        p.find_array<uint64_t>("change", chg_);
        seen_    = registerStatistic<uint64_t>("seen");
        dropped_ = registerStatistic<uint64_t>("dropped");
    }
    bool      installOnReceive() override { return side_ & 1; }
    bool      installOnSend() override { return side_ & 2; }
    uintptr_t reg(const AttachPointMetaData& md, const char* k)
    {
        const EventHandlerMetaData& d = dynamic_cast<const EventHandlerMetaData&>(md);
        where_ = d.comp_name + "/" + d.port_name;
        put("pm_" + id_, std::string(k) + " " + where_ + " " + getName());
        return k[0] == 'r' ? 17 : 18;
    }
    uintptr_t registerLinkAttachTool(const AttachPointMetaData& md) override { return reg(md, "s"); }
    uintptr_t registerHandlerIntercept(const AttachPointMetaData& md) override { return reg(md, "r"); }
    void      serializeEventAttachPointKey(SST::Core::Serialization::serializer& ser, uintptr_t& key) override { SST_SER(key); }
    void      serializeHandlerInterceptPointKey(SST::Core::Serialization::serializer& ser, uintptr_t& key) override { SST_SER(key); }
    static bool in(const std::vector<uint64_t>& v, uint64_t x)
    {
        for ( uint64_t y : v )
            if ( x == y ) return true;
        return false;
    }
    // returns whether it was dropped
    bool work(const char* k, uintptr_t key, Event*& ev)
    {
        Ev*      e = static_cast<Ev*>(ev);
        uint64_t h = (e->v * 7 + n_ * a_) % m_;
        ++n_;
        seen_->addData(1);
        std::ostringstream s;
        s << k << " " << getCurrentSimCycle() << " " << e->v << " " << n_ << " " << where_ << " " << getName() << " " << key;
        put("pm_" + id_, s.str());
        if ( in(drop_, h) ) {
            delete ev;
            dropped_->addData(1);
            return true;
        }
        if ( in(chg_, h) ) e->v += add_;
        if ( in(rep_, h) ) {
            Ev* o = new Other(e->v ^ 0x5a5a, e->hops);
            o->copyAllDeliveryInfo(ev);
            delete ev;
            ev = o;
        }
        return false;
    }
    void eventSent(uintptr_t key, Event*& ev) override
    {
        if ( work("S", key, ev) ) ev = nullptr;
    }
    void interceptHandler(uintptr_t key, Event*& ev, bool& cancel) override
    {
        cancel = work("R", key, ev);
        if ( cancel && null_ ) ev = nullptr;
    }
    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        PortModule::serialize_order(ser);
        SST_SER(n_); SST_SER(a_); SST_SER(m_); SST_SER(add_); SST_SER(null_); SST_SER(drop_); SST_SER(rep_); SST_SER(chg_); SST_SER(id_); SST_SER(where_);
        SST_SER(side_); SST_SER(seen_); SST_SER(dropped_);
    }
    ImplementSerializable(vupm::Mod)
};

// The ports of one element
struct Ports
{
    std::vector<std::string> names;
    std::vector<Link*>       links;
    void serialize_order(SST::Core::Serialization::serializer& ser) { SST_SER(names); SST_SER(links); }
};

class Api : public SubComponent
{
public:
    SST_ELI_REGISTER_SUBCOMPONENT_API(vupm::Api, std::string)
    Api() {}
    Api(ComponentId_t id) : SubComponent(id) {}
    virtual void send(const std::string& port, uint64_t v, int hops, uint64_t delay) = 0;
    ImplementVirtualSerializable(vupm::Api)
};

template <class B>
class Elem : public B
{
public:
    Ports    p_;
    unsigned h_ = 0;
    using B::B;
    template <class D>
    void ports(D* self, const std::string& list)
    {
        std::istringstream s(list);
        for ( std::string n; s >> n; ) {
            p_.names.push_back(n);
            p_.links.push_back(B::configureLink(n, B::getTimeConverter(B::getCoreTimeBase()), new Event::Handler<D, &D::onEvent, int>(self, (int)p_.links.size())));
            if ( !p_.links.back() ) put(B::getName(), "missing " + n);
        }
    }
    void arrive(Event* ev, int i)
    {
        Ev* e = static_cast<Ev*>(ev);
        std::ostringstream s;
        s << "R " << p_.names[i] << " " << B::getCurrentSimCycle() << " " << e->v << " " << e->hops << " " << (dynamic_cast<Other*>(ev) ? "other" : "ev");
        put(B::getName(), s.str());
        if ( e->hops > 0 ) p_.links[e->v % p_.links.size()]->send(new Ev(e->v + 1, e->hops - 1));
        delete ev;
    }
    bool mine(const std::string& port, uint64_t v, int hops, uint64_t delay)
    {
        for ( size_t i = 0; i < p_.names.size(); ++i )
            if ( p_.names[i] == port ) {
                p_.links[i]->send(delay, new Ev(v, hops));
                return true;
            }
        return false;
    }
    void untimed()
    {
        for ( Link* l : p_.links ) l->sendUntimedData(new Ev(4242, 0));
    }
    void init(unsigned ph) override
    {
        if ( ph == 0 ) untimed();
        for ( size_t i = 0; i < p_.links.size(); ++i ) {
            while ( Event* e = p_.links[i]->recvUntimedData() ) {
                put(B::getName(), "U " + p_.names[i] + " " + std::to_string(static_cast<Ev*>(e)->v));
                delete e;
            }
        }
    }
};

class Sub : public Elem<Api>
{
public:
    SST_ELI_REGISTER_SUBCOMPONENT(Sub, "vupm", "sub", SST_ELI_ELEMENT_VERSION(1,0,0), "sub", vupm::Api)
    SST_ELI_DOCUMENT_PORTS({"p%d", "", {}})
    Sub() {}
    Sub(ComponentId_t id, Params& p, std::string list) : Elem<Api>(id) { ports(this, list.empty() ? p.find<std::string>("ports", "") : list); }
    void onEvent(Event* ev, int i) { arrive(ev, i); }
    void send(const std::string& port, uint64_t v, int hops, uint64_t delay) override { mine(port, v, hops, delay); }
    void serialize_order(SST::Core::Serialization::serializer& ser) override { Api::serialize_order(ser); SST_SER(p_); }
    ImplementSerializable(vupm::Sub)
};

struct Act
{
    uint64_t    t = 0, v = 0, delay = 0;
    int         el = 0, hops = 0;
    std::string port;
    void serialize_order(SST::Core::Serialization::serializer& ser) { SST_SER(t); SST_SER(v); SST_SER(delay); SST_SER(el); SST_SER(hops); SST_SER(port); }
};

class Comp : public Elem<Component>
{
public:
    SST_ELI_REGISTER_COMPONENT(Comp, "vupm", "comp", SST_ELI_ELEMENT_VERSION(1,0,0), "script", COMPONENT_CATEGORY_UNCATEGORIZED)
    SST_ELI_DOCUMENT_PORTS({"p%d", "", {}})
    SST_ELI_DOCUMENT_SUBCOMPONENT_SLOTS({"slot", "", "vupm::Api"})
    std::vector<Act>  acts_;
    std::vector<Api*> subs_;
    Link*             self_ = nullptr;
    Comp() {}
    Comp(ComponentId_t id, Params& p) : Elem<Component>(id)
    {
        std::istringstream lines(p.find<std::string>("acts", ""));
        for ( std::string l; std::getline(lines, l, ';'); ) {
            std::istringstream s(l);
            Act a;
            s >> a.t >> a.el >> a.port >> a.v >> a.hops >> a.delay;
            acts_.push_back(a);
        }
        ports(this, p.find<std::string>("ports", ""));
        std::vector<std::string> anon;
        p.find_array<std::string>("anon", anon);
        for ( size_t i = 0; i < anon.size(); ++i ) {
            Params q;
            subs_.push_back(loadAnonymousSubComponent<Api>("vupm.sub", "anon", i, ComponentInfo::SHARE_PORTS, q, anon[i]));
        }
        if ( SubComponentSlotInfo* info = getSubComponentSlotInfo("slot") ) {
            for ( int i = 0; i <= info->getMaxPopulatedSlotNumber(); ++i ) subs_.push_back(info->create<Api>(i, ComponentInfo::SHARE_NONE, std::string()));
        }
        self_ = configureSelfLink("self", getTimeConverter(getCoreTimeBase()), new Event::Handler<Comp, &Comp::onSelf>(this));
        registerAsPrimaryComponent();
        primaryComponentDoNotEndSim();
    }
    void onEvent(Event* ev, int i) { arrive(ev, i); }
    void onSelf(Event* ev)
    {
        Ev* e = static_cast<Ev*>(ev);
        if ( e->v >= acts_.size() ) primaryComponentOKToEndSim();
        else {
            const Act& a = acts_[e->v];
            if ( a.el == 0 ) mine(a.port, a.v, a.hops, a.delay);
            else subs_[a.el - 1]->send(a.port, a.v, a.hops, a.delay);
        }
        delete ev;
    }
    void init(unsigned ph) override
    {
        Elem<Component>::init(ph);
        for ( Api* a : subs_ ) a->init(ph);
    }
    void setup() override
    {
        for ( size_t i = 0; i < acts_.size(); ++i ) {
            if ( acts_[i].port == "end" ) self_->send(acts_[i].t, new Ev(1000000, 0));
            else self_->send(acts_[i].t, new Ev(i, 0));
        }
    }
    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        Component::serialize_order(ser);
        SST_SER(p_); SST_SER(acts_); SST_SER(subs_); SST_SER(self_);
    }
    ImplementSerializable(vupm::Comp)
};

} // namespace vupm
