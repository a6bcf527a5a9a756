// Element library "vulife": components that write down every life-cycle call, and carry out end-of-simulation related actions
// (primary component calls, signals sent to the own process, fatal errors) at scripted times.  checks/c16.py has the model.
#include "sst_config.h"
#include "sst/core/component.h"
#include "sst/core/event.h"
#include "sst/core/link.h"
#include "sst/core/output.h"
#include "sst/core/subcomponent.h"
#include "sst/core/timeConverter.h"
#include "sst/core/unitAlgebra.h"
#include <cinttypes>
#include <csignal>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

// Only thread 0 takes signals: send it to the process and wait until it has been taken
static void
sendsig(int sig)
{
    kill(getpid(), sig);
    for ( int i = 0; i < 20000; i++ ) {
        sigset_t p;
        sigpending(&p);
        if ( !sigismember(&p, sig) ) break;
        usleep(50);
    }
    usleep(200);
}

namespace vulife {
using namespace SST;

class Ev : public Event
{
public:
    int i = 0;
    Ev() = default;
    Ev(int i) : i(i) {}
    void serialize_order(SST::Core::Serialization::serializer& ser) override { Event::serialize_order(ser); SST_SER(i); }
    ImplementSerializable(vulife::Ev)
};

struct Act
{
    uint64_t t = 0;
    std::string what;
    void serialize_order(SST::Core::Serialization::serializer& ser) { SST_SER(t); SST_SER(what); }
};

class Comp : public Component
{
public:
    SST_ELI_REGISTER_COMPONENT(Comp, "vulife", "comp", SST_ELI_ELEMENT_VERSION(1,0,0), "script", COMPONENT_CATEGORY_UNCATEGORIZED)
    SST_ELI_DOCUMENT_PORTS({"a", "", {}}, {"b", "", {}})

    std::vector<Act> acts_;
    FILE*            f_    = nullptr;
    Link*            self_ = nullptr;
    Link*            a_    = nullptr;
    Link*            b_    = nullptr;
    int              ni_ = 0, nc_ = 0;
    unsigned         slow_ = 0;
    bool             fwd_  = false;
    Output           out_;

    void L(const char* what, uint64_t x, uint64_t y = 0)
    {
        // written at once: what happens after an abrupt end must be visible too
        if ( !f_ ) {
            const char* d = getenv("VERIF_OUT");
            f_ = fopen((std::string(d ? d : ".") + "/" + getName() + ".log").c_str(), "a");
        }
        fprintf(f_, "%s %" PRIu64 " %" PRIu64 "\n", what, x, y);
        fflush(f_);
    }

    Comp() {}
    Comp(ComponentId_t id, Params& p) : Component(id)
    {
        ni_   = p.find<int>("ninit", 0);
        nc_   = p.find<int>("ncomplete", 0);
        slow_ = p.find<unsigned>("slow", 0);
        fwd_  = p.find<bool>("forward", false);
        std::istringstream lines(p.find<std::string>("acts", ""));
        for ( std::string l; std::getline(lines, l, ';'); ) {
            std::istringstream s(l);
            Act a;
            s >> a.t >> a.what;
            acts_.push_back(a);
        }
        self_ = configureSelfLink("self", getTimeConverter(getCoreTimeBase()), new Event::Handler<Comp, &Comp::onSelf>(this));
        a_    = configureLink("a", new Event::Handler<Comp, &Comp::onEvent>(this));
        b_    = configureLink("b", new Event::Handler<Comp, &Comp::onEvent>(this));
        if ( !p.find<std::string>("clock", "").empty() ) registerClock(p.find<std::string>("clock"), new Clock::Handler<Comp, &Comp::tick>(this));
        if ( p.find<bool>("primary", false) ) {
            registerAsPrimaryComponent();
            primaryComponentDoNotEndSim();
        }
        out_.init("", 0, 0, Output::STDERR);
        L("C", getRank().rank, getRank().thread);
    }
    ~Comp()
    {
        if ( f_ ) {
            L("D", 0);
            fclose(f_);
        }
    }
    bool tick(Cycle_t)
    {
        if ( slow_ ) usleep(slow_);
        return false;
    }
    void onEvent(Event* ev)
    {
        L("E", getCurrentSimCycle());
        delete ev;
    }
    void onSelf(Event* ev)
    {
        Ev* e = static_cast<Ev*>(ev);
        const std::string w = acts_[e->i].what;
        L(("A " + w).c_str(), getCurrentSimCycle(), e->i);
        delete ev;
        if ( w == "ok" ) primaryComponentOKToEndSim();
        else if ( w == "notok" ) primaryComponentDoNotEndSim();
        else if ( w == "send" ) { if ( a_ ) a_->send(new Ev(0)); }
        else if ( w == "int" ) sendsig(SIGINT);
        else if ( w == "term" ) sendsig(SIGTERM);
        else if ( w == "usr1" ) sendsig(SIGUSR1);
        else if ( w == "usr2" ) sendsig(SIGUSR2);
        else if ( w == "fatal3" ) out_.fatal(CALL_INFO, 3, "vulife fatal three\n");
        else if ( w == "fatal-1" ) out_.fatal(CALL_INFO, -1, "vulife fatal minus one\n");
    }
    void printStatus(Output& o) override { o.output("status of %s\n", getName().c_str()); }
    void init(unsigned ph) override
    {
        L("I", ph, getCurrentSimCycle());
        for ( Link* l : { a_, b_ } ) {
            if ( !l ) continue;
            while ( Event* e = l->recvUntimedData() ) {
                L("UI", ph);
                delete e;
            }
            if ( (int)ph < ni_ ) l->sendUntimedData(new Ev);
        }
    }
    void setup() override
    {
        L("S", getCurrentSimCycle());
        for ( size_t i = 0; i < acts_.size(); ++i ) self_->send(acts_[i].t, new Ev(i));
    }
    void complete(unsigned ph) override
    {
        L("P", ph, getCurrentSimCycle());
        for ( Link* l : { a_, b_ } ) {
            if ( !l ) continue;
            while ( Event* e = l->recvUntimedData() ) {
                L("UP", ph);
                delete e;
            }
            if ( (int)ph < nc_ ) l->sendUntimedData(new Ev);
        }
    }
    void finish() override { L("F", getCurrentSimCycle(), getEndSimCycle()); }
    void emergencyShutdown() override { L("X", getCurrentSimCycle()); }
    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        Component::serialize_order(ser);
        SST_SER(acts_); SST_SER(self_); SST_SER(a_); SST_SER(b_); SST_SER(ni_); SST_SER(nc_); SST_SER(slow_); SST_SER(fwd_); SST_SER(out_);
    }
    ImplementSerializable(vulife::Comp)
};

} // namespace vulife
