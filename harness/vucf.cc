// Element library "vucf": components that write down everything the configuration told them (parameters, slots,
// ports, coordinates, rank, statistics, port modules, link latencies).  checks/c10.py compares these dumps between a
// Python configuration, a model of it, and the configurations sst itself writes out.
#include "sst_config.h"
#include "sst/core/component.h"
#include "sst/core/subcomponent.h"
#include "sst/core/portModule.h"
#include "sst/core/link.h"
#include "sst/core/event.h"
#include "sst/core/unitAlgebra.h"
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vucf {
using u64 = uint64_t;
using namespace SST;

static std::string hex(const std::string& s)
{
    std::string r;
    char b[4];
    for ( unsigned char c : s ) {
        snprintf(b, sizeof b, "%02x", c);
        r += b;
    }
    return r.empty() ? "-" : r;
}

class Ev : public Event
{
public:
    std::string from;
    Ev() = default;
    Ev(const std::string& f) : from(f) {}
    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        Event::serialize_order(ser);
        SST_SER(from);
    }
    ImplementSerializable(vucf::Ev)
};

// appends its tag to the events that pass through
class PM : public PortModule
{
public:
    SST_ELI_REGISTER_PORTMODULE(PM, "vucf", "pm", SST_ELI_ELEMENT_VERSION(1,0,0), "tags events")
    SST_ELI_DOCUMENT_PARAMS({"tag","",""},{"send","",""},{"x1","",""},{"x2","",""})
    SST_ELI_DOCUMENT_STATISTICS({"n0","n0","events",1},{"n1","n1","events",3})
    std::string tag_;
    bool send_ = false;
    Statistics::Statistic<u64>* n0_ = nullptr;
    Statistics::Statistic<u64>* n1_ = nullptr;
    PM() = default;
    PM(Params& p)
    {
        tag_ = p.find<std::string>("tag", "");
        send_ = p.find<bool>("send", false);
        std::set<std::string> keys = p.getKeys();
        for ( auto& k : keys ) tag_ += "," + k + "=" + hex(p.find<std::string>(k));
        n0_ = registerStatistic<u64>("n0");
        n1_ = registerStatistic<u64>("n1");
    }
    void go(Event* ev)
    {
        if ( Ev* e = dynamic_cast<Ev*>(ev) ) e->from += "/" + tag_;
        n0_->addData(1);
        n1_->addData(2);
    }
    void eventSent(uintptr_t, Event*& ev) override { go(ev); }
    void interceptHandler(uintptr_t, Event*& ev, bool&) override { go(ev); }
    bool installOnReceive() override { return !send_; }
    bool installOnSend() override { return send_; }
    void serialize_order(SST::Core::Serialization::serializer& ser) override { PortModule::serialize_order(ser); }
    ImplementSerializable(vucf::PM)
};

template <class Base>
class NodeT : public Base
{
public:
    std::vector<std::string> log_;
    std::vector<Link*> links_;
    std::vector<std::string> ports_;
    std::vector<Statistics::Statistic<u64>*> st_;

    template <typename... A>
    NodeT(ComponentId_t id, A&&... a) : Base(id, std::forward<A>(a)...) {}
    NodeT() {}

    void L(const std::string& s) { log_.push_back(s); }

    template <class API>
    void configure(Params& p, std::vector<API*>& subs)
    {
        L("T " + this->getType());
        std::set<std::string> keys = p.getKeys();
        for ( auto& k : keys ) L("P " + hex(k) + " " + hex(p.find<std::string>(k)));
        L("R " + std::to_string(this->getRank().rank) + " " + std::to_string(this->getRank().thread));
        std::string co = "C";
        char b[64];
        for ( double d : this->getCoordinates() ) {
            snprintf(b, sizeof b, " %.17g", d);
            co += b;
        }
        L(co);
        L("B " + this->getCoreTimeBase().toString());
        for ( const char* s : { "a", "slot_b" } ) {
            SubComponentSlotInfo* info = this->getSubComponentSlotInfo(s);
            if ( !info ) continue;
            int m = info->getMaxPopulatedSlotNumber();
            for ( int i = 0; i <= m; ++i ) {
                if ( !info->isPopulated(i) ) continue;
                API* x = info->template create<API>(i, ComponentInfo::SHARE_NONE);
                L("S " + std::string(s) + " " + std::to_string(i) + " " + (x ? "ok" : "null"));
                if ( x ) subs.push_back(x);
            }
            delete info;
        }
        for ( int i = 0; i < 12; ++i ) {
            std::string n = "p" + std::to_string(i);
            if ( !this->isPortConnected(n) ) continue;
            Link* l = this->configureLink(n, this->getTimeConverter(this->getCoreTimeBase()), new Event::Handler<NodeT, &NodeT::onEvent, int>(this, ports_.size()));
            if ( !l ) { L("NOLINK " + n); continue; }
            links_.push_back(l);
            ports_.push_back(n);
            L("L " + n);
        }
        for ( const char* s : { "s0", "s1", "s2" } ) st_.push_back(this->template registerStatistic<u64>(s));
    }
    void setup() override
    {
        for ( size_t i = 0; i < links_.size(); ++i ) links_[i]->send(new Ev(this->getName() + "." + ports_[i]));
        for ( size_t i = 0; i < st_.size(); ++i ) for ( u64 k = 0; k < 3; ++k ) st_[i]->addData(k * 5 + i);
    }
    void onEvent(Event* ev, int i)
    {
        Ev* e = dynamic_cast<Ev*>(ev);
        L("E " + std::to_string(this->getCurrentSimCycle()) + " " + ports_[i] + " " + (e ? e->from : "?"));
        delete ev;
    }
    void finish() override
    {
        const char* d = getenv("VERIF_OUT");
        std::ofstream f(std::string(d ? d : ".") + "/" + this->getName() + ".log");
        for ( auto& s : log_ ) f << s << "\n";
    }
};

#define NODE_DOC \
    SST_ELI_DOCUMENT_PORTS({"p%(n)d", "port", {}}) \
    SST_ELI_DOCUMENT_SUBCOMPONENT_SLOTS({"a","","vucf::API"},{"slot_b","","vucf::API"}) \
    SST_ELI_DOCUMENT_STATISTICS({"s0","s0","u",1},{"s1","s1","u",3},{"s2","s2","u",5})

class API : public SubComponent
{
public:
    SST_ELI_REGISTER_SUBCOMPONENT_API(vucf::API)
    API() : SubComponent() {}
    API(ComponentId_t id) : SubComponent(id) {}
};

class Sub : public NodeT<API>
{
public:
    SST_ELI_REGISTER_SUBCOMPONENT(Sub, "vucf", "sub", SST_ELI_ELEMENT_VERSION(1,0,0), "node", vucf::API)
    NODE_DOC
    std::vector<API*> subs_;
    Sub(ComponentId_t id, Params& p) : NodeT(id) { configure(p, subs_); }
    void setup() override { NodeT::setup(); for ( auto* s : subs_ ) s->setup(); }
    void finish() override { NodeT::finish(); for ( auto* s : subs_ ) s->finish(); }
};

class Node : public NodeT<Component>
{
public:
    SST_ELI_REGISTER_COMPONENT(Node, "vucf", "node", SST_ELI_ELEMENT_VERSION(1,0,0), "node", COMPONENT_CATEGORY_UNCATEGORIZED)
    NODE_DOC
    std::vector<API*> subs_;
    Node(ComponentId_t id, Params& p) : NodeT(id)
    {
        configure(p, subs_);
        if ( p.find<bool>("verif_primary", false) ) {
            registerAsPrimaryComponent();
            primaryComponentDoNotEndSim();
        }
    }
    void setup() override { NodeT::setup(); for ( auto* s : subs_ ) s->setup(); }
    void finish() override { NodeT::finish(); for ( auto* s : subs_ ) s->finish(); }
};

} // namespace vucf
