// Element library "vuclk": a component that carries out a script of clock operations (activate, deactivate,
// register, unregister, query) from event handlers and from clock handlers and logs every call and every answer.
// checks/c08.py judges the log against the clock contract.  Only the public element API is used here.
#include "sst_config.h"
#include "sst/core/component.h"
#include "sst/core/subcomponent.h"
#include "sst/core/link.h"
#include "sst/core/event.h"
#include "sst/core/timeConverter.h"
#include "sst/core/unitAlgebra.h"
#include <cinttypes>
#include <cstdio>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>

namespace vuclk {
using u64 = uint64_t;
using namespace SST;

static std::vector<std::string> split(const std::string& s, char c)
{
    std::vector<std::string> r;
    std::string cur;
    std::istringstream is(s);
    while ( std::getline(is, cur, c) ) if ( !cur.empty() ) r.push_back(cur);
    return r;
}

class OpEv : public Event
{
public:
    int op = 0;
    OpEv() = default;
    OpEv(int o) : op(o) {}
    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        Event::serialize_order(ser);
        SST_SER(op);
    }
    ImplementSerializable(vuclk::OpEv)
};

struct H {
    u64 period = 0;
    bool ordered = false, sub = false, reg = false;
    int form = 0;
    u64 calls = 0;
    TimeConverter tc;
    Clock::HandlerBase* h = nullptr;
    void serialize_order(SST::Core::Serialization::serializer& ser)
    {
        SST_SER(period);
        SST_SER(ordered);
        SST_SER(sub);
        SST_SER(reg);
        SST_SER(form);
        SST_SER(calls);
        SST_SER(tc);
        SST_SER(h);
    }
};

struct Op {
    char trig = 't'; // t: event at time a; c: on call number b of handler a; p: while constructing; f: in finish
    u64 a = 0, b = 0;
    char op = 'n';
    int j = 0;
    void serialize_order(SST::Core::Serialization::serializer& ser)
    {
        SST_SER(trig);
        SST_SER(a);
        SST_SER(b);
        SST_SER(op);
        SST_SER(j);
    }
};

class Clk;

class Sub : public SubComponent
{
public:
    SST_ELI_REGISTER_SUBCOMPONENT_API(vuclk::Sub)
    SST_ELI_REGISTER_SUBCOMPONENT(Sub, "vuclk", "sub", SST_ELI_ELEMENT_VERSION(1,0,0), "clocked part", vuclk::Sub)
    SST_ELI_IS_CHECKPOINTABLE()
    Clk* top = nullptr;
    Sub() : SubComponent() {}
    Sub(ComponentId_t id, Params&) : SubComponent(id) {}
    bool tick(Cycle_t c, int k);
    void reg(H& h, int k);
    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        SubComponent::serialize_order(ser);
        SST_SER(top);
    }
    ImplementSerializable(vuclk::Sub)
};

class Clk : public Component
{
public:
    SST_ELI_REGISTER_COMPONENT(Clk, "vuclk", "clk", SST_ELI_ELEMENT_VERSION(1,0,0), "clock script", COMPONENT_CATEGORY_UNCATEGORIZED)
    SST_ELI_DOCUMENT_PARAMS({"h","",""},{"ops","",""},{"end","",""},{"outdir","",""})
    SST_ELI_DOCUMENT_PORTS({"l", "", {}}, {"r", "", {}})
    SST_ELI_DOCUMENT_SUBCOMPONENT_SLOTS({"s","sub","vuclk::Sub"})
    SST_ELI_IS_CHECKPOINTABLE()

    std::vector<H> hs_;
    std::vector<Op> ops_;
    std::string log_, outdir_;
    Link* self_ = nullptr;
    Sub* sub_ = nullptr;
    u64 end_ = 0;

    Clk() : Component() {}
    Clk(ComponentId_t id, Params& p) : Component(id)
    {
        outdir_ = p.find<std::string>("outdir", ".");
        end_ = p.find<u64>("end", 100);
        self_ = configureSelfLink("self", "1ps", new Event::Handler<Clk, &Clk::onEvent>(this));
        // neighbours, so that threads are not independent of each other
        for ( const char* n : { "l", "r" } )
            if ( isPortConnected(n) ) configureLink(n, new Event::Handler<Clk, &Clk::onEvent>(this));
        Params none;
        sub_ = loadAnonymousSubComponent<Sub>("vuclk.sub", "s", 0, ComponentInfo::SHARE_NONE, none);
        sub_->top = this;
        for ( auto& s : split(p.find<std::string>("h", ""), ';') ) {
            auto f = split(s, ',');
            H h;
            h.period = strtoull(f[0].c_str(), 0, 10);
            h.ordered = f[1] == "1";
            h.sub = f[2] == "1";
            h.form = atoi(f[4].c_str());
            h.tc = getTimeConverter(f[0] + "ps");
            hs_.push_back(h);
            if ( f[3] == "1" ) doop('R', hs_.size() - 1);
        }
        for ( auto& s : split(p.find<std::string>("ops", ""), ';') ) {
            auto f = split(s, ',');
            Op o;
            o.trig = f[0][0];
            o.a = strtoull(f[1].c_str(), 0, 10);
            o.b = strtoull(f[2].c_str(), 0, 10);
            o.op = f[3][0];
            o.j = atoi(f[4].c_str());
            ops_.push_back(o);
        }
        registerAsPrimaryComponent();
        primaryComponentDoNotEndSim();
        for ( auto& o : ops_ ) if ( o.trig == 'p' ) doop(o.op, o.j);
    }

    void line(char k, int j, u64 a, u64 b)
    {
        char buf[160];
        snprintf(buf, sizeof buf, "%" PRIu64 " %d %c %d %" PRIu64 " %" PRIu64 "\n", (u64)getCurrentSimCycle(), getCurrentPriority(), k, j, a, b);
        log_ += buf;
    }

    void setup() override
    {
        for ( size_t i = 0; i < ops_.size(); ++i ) if ( ops_[i].trig == 't' ) self_->send(ops_[i].a, new OpEv(i));
        self_->send(end_, new OpEv(-1));
    }

    void onEvent(Event* ev)
    {
        auto* e = static_cast<OpEv*>(ev);
        if ( e->op < 0 ) {
            line('E', 0, 0, 0);
            primaryComponentOKToEndSim();
        }
        else
            doop(ops_[e->op].op, ops_[e->op].j);
        delete e;
    }

    bool tick(Cycle_t c, int k)
    {
        H& h = hs_[k];
        h.calls++;
        line('F', k, c, h.calls);
        bool ret = false;
        for ( auto& o : ops_ ) {
            if ( o.trig != 'c' || o.a != (u64)k || o.b != h.calls ) continue;
            if ( o.op == 'x' ) ret = true;
            else doop(o.op, o.j);
        }
        // a true return is part of the log: the handler is inactive once it has returned
        if ( ret ) line('X', k, 0, 0);
        return ret;
    }

    void doop(char op, int j)
    {
        H& h = hs_[j];
        if ( op == 'R' ) {
            if ( h.reg ) return;
            h.reg = true;
            if ( h.sub ) sub_->reg(h, j);
            else if ( h.ordered ) h.h = registerOrderedClock<Clk, &Clk::tick, int>(h.tc, this, j, false);
            else if ( h.form == 0 ) h.h = registerClock<Clk, &Clk::tick, int>(h.tc, this, j, false);
            else {
                h.h = new Clock::Handler<Clk, &Clk::tick, int>(this, j);
                registerClock(h.form == 1 ? TimeConverter(h.tc) : TimeConverter(UnitAlgebra(std::to_string(h.period) + "ps")), h.h, false);
            }
            line('R', j, h.h->isActive(), h.h->getClockPeriod().getFactor());
            return;
        }
        if ( !h.reg ) return;
        bool alt = !h.ordered && h.form == 2;
        u64 r = 0;
        switch ( op ) {
        case 'a':
            if ( alt && h.h->isActive() ) return;
            r = alt ? rereg(h) : h.h->activate();
            break;
        case 'd':
            if ( alt ) unreg(h);
            else h.h->deactivate();
            break;
        case 'n':
            r = next(h);
            break;
        }
        line(op, j, r, h.h->isActive());
    }

    u64 rereg(H& h) { return reregisterClock(h.tc, h.h); }
    void unreg(H& h) { unregisterClock(h.tc, h.h); }
    u64 next(H& h) { return getNextClockCycle(h.tc); }

    void finish() override
    {
        line('Z', 0, 0, 0);
        for ( auto& o : ops_ ) if ( o.trig == 'f' ) doop(o.op, o.j);
        std::ofstream f(outdir_ + "/" + getName() + ".log");
        f << log_;
    }

    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        Component::serialize_order(ser);
        SST_SER(hs_);
        SST_SER(ops_);
        SST_SER(log_);
        SST_SER(outdir_);
        SST_SER(self_);
        SST_SER(sub_);
        SST_SER(end_);
    }
    ImplementSerializable(vuclk::Clk)
};

bool Sub::tick(Cycle_t c, int k) { return top->tick(c, k); }

void Sub::reg(H& h, int k)
{
    if ( h.ordered ) h.h = registerOrderedClock<Sub, &Sub::tick, int>(h.tc, this, k, false);
    else h.h = registerClock<Sub, &Sub::tick, int>(h.tc, this, k, false);
}

} // namespace vuclk
