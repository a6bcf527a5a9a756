// Components that count by themselves what the profile tools count.  Everything they do depends on event contents and
// times alone, so that any job shape and any observation of the run leaves the same logs behind.
#include "sst/core/component.h"
#include "sst/core/event.h"
#include "sst/core/link.h"
#include "sst/core/params.h"
#include "sst/core/profile/componentProfileTool.h"
#include "sst/core/subcomponent.h"

#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace vuprof {
using namespace SST;

static inline uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}

class Ev : public Event
{
public:
    uint64_t id  = 0;
    int      ttl = 0;
    Ev() {}
    Ev(uint64_t i, int t) : id(i), ttl(t) {}
    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        Event::serialize_order(ser);
        SST_SER(id);
        SST_SER(ttl);
    }
    ImplementSerializable(vuprof::Ev)
};

struct Port
{
    std::string name;
    Link*       link = nullptr;
    uint64_t    recv = 0, sent = 0;
    int         kind = 0; // 0 handler, 1 polled, 2 self
    void        serialize_order(SST::Core::Serialization::serializer& ser)
    {
        SST_SER(name);
        SST_SER(link);
        SST_SER(recv);
        SST_SER(sent);
        SST_SER(kind);
    }
};

struct Clk
{
    uint64_t ticks = 0, stop = 0, phase = 0;
    std::string again;
    void     serialize_order(SST::Core::Serialization::serializer& ser)
    {
        SST_SER(ticks);
        SST_SER(stop);
        SST_SER(phase);
        SST_SER(again);
    }
};

// what components and subcomponents have in common
template <class B>
class Body : public B
{
public:
    std::vector<Port>     ports;
    std::vector<Clk>      clocks;
    std::vector<Clock::HandlerBase*> handlers;
    uint64_t              hash = 0, work = 0, other = 0;
    uint64_t              salt = 0;
    std::string           label;
    SST::Profile::ComponentCodeSegmentProfileTool::ProfilePoint* pw = nullptr;
    SST::Profile::ComponentCodeSegmentProfileTool::ProfilePoint* po = nullptr;

    Body(ComponentId_t id) : B(id) {}
    Body() : B() {}

    void setup_body(Params& p)
    {
        salt  = p.find<uint64_t>("salt", 1);
        label = p.find<std::string>("label", "?");
        std::vector<std::string> v;
        p.find_array("ports", v);
        ports.resize(v.size());
        for ( size_t i = 0; i < v.size(); ++i ) {
            ports[i].name = v[i].substr(1);
            ports[i].kind = v[i][0] - '0';
            if ( ports[i].kind == 1 ) ports[i].link = B::configureLink(ports[i].name);
            if ( ports[i].kind == 0 )
                ports[i].link = B::configureLink(ports[i].name, new Event::Handler<Body, &Body::onEvent, int>(this, (int)i));
            if ( ports[i].kind == 2 )
                ports[i].link = B::configureSelfLink(
                    ports[i].name, "1ps", new Event::Handler<Body, &Body::onEvent, int>(this, (int)i));
        }
        std::vector<std::string> c;
        p.find_array("clocks", c);
        clocks.resize(c.size());
        for ( size_t i = 0; i < c.size(); ++i ) {
            // period/stop/again
            size_t a = c[i].find('/'), b = c[i].find('/', a + 1);
            clocks[i].stop  = strtoull(c[i].substr(a + 1).c_str(), nullptr, 10);
            clocks[i].again = c[i].substr(b + 1);
            handlers.push_back(new Clock::Handler<Body, &Body::tick, int>(this, (int)i));
            B::registerClock(c[i].substr(0, a), handlers.back());
        }
        pw = B::template registerProfilePoint<SST::Profile::ComponentCodeSegmentProfileTool>("work");
        po = B::template registerProfilePoint<SST::Profile::ComponentCodeSegmentProfileTool>("other");
    }

    void send_on(uint64_t id, int ttl)
    {
        if ( ports.empty() ) return;
        Port& o = ports[mix(id ^ salt) % ports.size()];
        o.sent++;
        // no zero delay on self links, nothing that depends on the order of events
        uint64_t d = mix(id + salt) % 7;
        o.link->send(d + 1, B::getTimeConverter("1ps"), new Ev(mix(id ^ 0x55), ttl));
    }

    void note(uint64_t what, uint64_t id) { hash += mix(mix(B::getCurrentSimCycle() * 1000003 + what) ^ id); }

    void arrived(Ev* e, int i)
    {
        ports[i].recv++;
        note(i, e->id);
        if ( e->id % 3 == 0 ) {
            work++;
            if ( pw ) pw->codeSegmentStart();
            if ( e->ttl > 0 ) send_on(e->id, e->ttl - 1);
            if ( pw ) pw->codeSegmentEnd();
        }
        else if ( e->ttl > 0 ) {
            other++;
            if ( po ) po->codeSegmentStart();
            if ( po ) po->codeSegmentEnd();
            send_on(e->id, e->ttl - 1);
        }
        delete e;
    }
    void onEvent(Event* ev, int i) { arrived(static_cast<Ev*>(ev), i); }

    bool tick(Cycle_t, int i)
    {
        Clk& c = clocks[i];
        c.ticks++;
        note(1000 + i, c.ticks);
        send_on(mix(c.ticks * 64 + i) ^ salt, 1 + c.ticks % 4);
        for ( size_t k = 0; k < ports.size(); ++k ) {
            if ( ports[k].kind != 1 ) continue;
            // polled at the clock's time or later: the hash leaves the time of polling out
            while ( Event* ev = ports[k].link->recv() ) {
                Ev* e = static_cast<Ev*>(ev);
                ports[k].recv++;
                hash += mix(e->id);
                delete e;
            }
        }
        if ( c.stop && c.ticks == c.stop ) {
            if ( c.again != "" && c.phase == 0 ) {
                c.phase = 1;
                c.stop  = 0;
                pending.push_back(i);
                if ( self_ ) self_->send(1, nullptr), wsent++;
            }
            return true;
        }
        return false;
    }
    // a stopped clock starts again with the same handler
    Link*            self_ = nullptr;
    std::vector<int> pending;
    uint64_t         wsent = 0, wrecv = 0;
    void wake(Event*)
    {
        wrecv++;
        if ( pending.empty() ) return;
        int i = pending.back();
        pending.pop_back();
        if ( clocks[i].again[0] == '=' ) B::registerClock(clocks[i].again.substr(1), handlers[i]);
        else B::reregisterClock(B::getTimeConverter(clocks[i].again), handlers[i]);
    }

    void report()
    {
        const char* d = getenv("VERIF_OUT");
        if ( !d ) return;
        FILE* f = fopen((std::string(d) + "/" + label).c_str(), "w");
        if ( !f ) return;
        fprintf(f, "{\"name\": \"%s\", \"type\": \"%s\", \"hash\": \"%016llx\", \"work\": %llu, \"other\": %llu, \"ports\": {", B::getName().c_str(),
            B::getType().c_str(), (unsigned long long)hash, (unsigned long long)work, (unsigned long long)other);
        for ( size_t i = 0; i < ports.size(); ++i )
            fprintf(f, "%s\"%s\": [%d, %llu, %llu]", i ? ", " : "", ports[i].name.c_str(), ports[i].kind,
                (unsigned long long)ports[i].recv, (unsigned long long)ports[i].sent);
        if ( self_ )
            fprintf(f, "%s\"wake\": [2, %llu, %llu]", ports.empty() ? "" : ", ", (unsigned long long)wrecv, (unsigned long long)wsent);
        fprintf(f, "}, \"clocks\": [");
        for ( size_t i = 0; i < clocks.size(); ++i ) fprintf(f, "%s%llu", i ? ", " : "", (unsigned long long)clocks[i].ticks);
        fprintf(f, "]}\n");
        fclose(f);
    }

    void ser_body(SST::Core::Serialization::serializer& ser)
    {
        SST_SER(ports);
        SST_SER(clocks);
        SST_SER(handlers);
        SST_SER(hash);
        SST_SER(work);
        SST_SER(other);
        SST_SER(salt);
        SST_SER(label);
        SST_SER(self_);
        SST_SER(pending);
        SST_SER(wsent);
        SST_SER(wrecv);
    }
};

class SubApi : public SubComponent
{
public:
    SST_ELI_REGISTER_SUBCOMPONENT_API(vuprof::SubApi)
    SubApi(ComponentId_t id) : SubComponent(id) {}
    SubApi() {}
    virtual void done() = 0;
    void serialize_order(SST::Core::Serialization::serializer& ser) override { SubComponent::serialize_order(ser); }
    ImplementVirtualSerializable(vuprof::SubApi)
};

class S : public Body<SubApi>
{
public:
    SST_ELI_REGISTER_SUBCOMPONENT(S, "vuprof", "S", SST_ELI_ELEMENT_VERSION(1, 0, 0), "sub", vuprof::SubApi)
    SST_ELI_DOCUMENT_PARAMS({ "salt", "", "1" }, { "ports", "", "[]" }, { "clocks", "", "[]" }, { "label", "", "" })
    SST_ELI_DOCUMENT_PORTS({ "p%d", "", {} })
    SST_ELI_DOCUMENT_SUBCOMPONENT_SLOTS({ "sub", "", "vuprof::SubApi" })
    SST_ELI_DOCUMENT_PROFILE_POINTS({ "work", "", "SST::Profile::ComponentCodeSegmentProfileTool" }, { "other", "", "SST::Profile::ComponentCodeSegmentProfileTool" })
    std::vector<SubApi*> subs;
    S(ComponentId_t id, Params& p) : Body<SubApi>(id)
    {
        setup_body(p);
        if ( SubComponentSlotInfo* si = getSubComponentSlotInfo("sub") ) si->createAll<SubApi>(subs, ComponentInfo::SHARE_NONE);
    }
    S() {}
    void done() override
    {
        report();
        for ( auto* s : subs ) if ( s ) s->done();
    }
    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        SubApi::serialize_order(ser);
        ser_body(ser);
        SST_SER(subs);
    }
    ImplementSerializable(vuprof::S)
};

#define VUPROF_COMPONENT(N, LIBNAME)                                                                                                \
    class N : public Body<Component>                                                                                                \
    {                                                                                                                               \
    public:                                                                                                                         \
        SST_ELI_REGISTER_COMPONENT(N, "vuprof", LIBNAME, SST_ELI_ELEMENT_VERSION(1, 0, 0), "comp", COMPONENT_CATEGORY_UNCATEGORIZED) \
        SST_ELI_DOCUMENT_PARAMS({ "salt", "", "1" }, { "ports", "", "[]" }, { "clocks", "", "[]" }, { "label", "", "" },            \
            { "anon", "", "" })                                                                                                     \
        SST_ELI_DOCUMENT_PORTS({ "p%d", "", {} })                                                                                   \
        SST_ELI_DOCUMENT_SUBCOMPONENT_SLOTS({ "sub", "", "vuprof::SubApi" })                                                        \
        SST_ELI_DOCUMENT_PROFILE_POINTS({ "work", "", "SST::Profile::ComponentCodeSegmentProfileTool" },                              \
            { "other", "", "SST::Profile::ComponentCodeSegmentProfileTool" })                                                         \
        std::vector<SubApi*> subs;                                                                                                  \
        N(ComponentId_t id, Params& p) : Body<Component>(id)                                                                        \
        {                                                                                                                           \
            setup_body(p);                                                                                                          \
            self_ = configureSelfLink("wake", "1ps", new Event::Handler<Body<Component>, &Body<Component>::wake>(this));           \
            if ( SubComponentSlotInfo* si = getSubComponentSlotInfo("sub") )                                                        \
                si->createAll<SubApi>(subs, ComponentInfo::SHARE_NONE);                                                             \
            if ( p.find<bool>("anon", false) ) {                                                                                    \
                Params q = p.get_scoped_params("anonymous");                                                                        \
                subs.push_back(loadAnonymousSubComponent<SubApi>("vuprof.S", "sub", 100, ComponentInfo::SHARE_PORTS, q));           \
            }                                                                                                                       \
            registerAsPrimaryComponent();                                                                                           \
            primaryComponentDoNotEndSim();                                                                                          \
        }                                                                                                                           \
        N() {}                                                                                                                      \
        void finish() override                                                                                                      \
        {                                                                                                                           \
            report();                                                                                                               \
            for ( auto* s : subs ) if ( s ) s->done();                                                                              \
        }                                                                                                                           \
        void serialize_order(SST::Core::Serialization::serializer& ser) override                                                   \
        {                                                                                                                           \
            Component::serialize_order(ser);                                                                                        \
            ser_body(ser);                                                                                                          \
            SST_SER(subs);                                                                                                          \
        }                                                                                                                           \
        ImplementSerializable(vuprof::N)                                                                                            \
    };

VUPROF_COMPONENT(C, "C")
VUPROF_COMPONENT(D, "D")

} // namespace vuprof
