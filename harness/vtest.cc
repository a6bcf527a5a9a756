// Element library "vtest": hash-driven agents whose complete behaviour is a function of the
// order and timing in which SST calls them.  A Python reference simulator (vlib/refsim.py)
// predicts their logs.  Only the public element API is used here.
#include "sst_config.h"
#include "sst/core/component.h"
#include "sst/core/subcomponent.h"
#include "sst/core/link.h"
#include "sst/core/event.h"
#include "sst/core/output.h"
#include "sst/core/rng/marsaglia.h"
#include "sst/core/rng/mersenne.h"
#include "sst/core/rng/xorshift.h"
#include "sst/core/timeConverter.h"
#include "sst/core/unitAlgebra.h"
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <string>
#include <vector>
#include <map>

namespace vtest {
using u64 = uint64_t;
using namespace SST;

static inline u64 sm64(u64 x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
static inline u64 mix(u64 a, u64 b) { return sm64(a ^ (b * 0xD6E8FEB86659FD93ull + (a << 7) + (a >> 3))); }

/** Schedule perturbation (VT_JITTER="salt,permille,usec"): handlers of a deterministic pseudo-random subset of
    the activities sleep, and one agent in four does so five times as often. This changes the interleaving of the
    threads and ranks and nothing else. */
struct Jitter {
    u64 salt = 0, permille = 0, usec = 0;
    Jitter()
    {
        const char* s = getenv("VT_JITTER");
        if ( s ) sscanf(s, "%" SCNu64 ",%" SCNu64 ",%" SCNu64, &salt, &permille, &usec);
    }
    void operator()(u64 id, u64 state)
    {
        if ( !permille ) return;
        static thread_local u64 spent = 0;
        u64 p = sm64(salt ^ id) % 4 == 0 ? 5 * permille : permille;
        if ( sm64(state ^ salt ^ (id << 40)) % 1000 >= p || spent >= 150000 ) return;
        u64 us = usec * (1 + sm64(state + salt) % 4);
        spent += us + 60;
        usleep(us);
    }
};
static Jitter jitter;

/** VT_PAD=n makes one event in four carry up to n bytes more */
static u64 bigpad()
{
    static const u64 n = getenv("VT_PAD") ? strtoull(getenv("VT_PAD"), nullptr, 10) : 0;
    return n;
}

static std::string mkpad(u64 seed)
{
    std::string s;
    int n = seed % 37;
    if ( bigpad() && (seed >> 7) % 4 == 0 ) n += (seed >> 9) % bigpad();
    for ( int i = 0; i < n; ++i ) s += (char)('a' + (mix(seed, i) % 26));
    return s;
}

class Ev : public SST::Event
{
public:
    u64 seed = 0;
    int32_t ttl = 0;
    std::string pad;
    std::vector<uint16_t> extra;
    Ev() = default;
    Ev(u64 s, int32_t t) : seed(s), ttl(t), pad(mkpad(s)) { for ( unsigned i = 0; i < s % 3; ++i ) extra.push_back((uint16_t)(s >> (8 * i))); }
    bool good() const
    {
        if ( pad != mkpad(seed) || extra.size() != seed % 3 ) return false;
        for ( unsigned i = 0; i < extra.size(); ++i ) if ( extra[i] != (uint16_t)(seed >> (8 * i)) ) return false;
        return true;
    }
    Event* clone() override { return new Ev(*this); }
    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        Event::serialize_order(ser);
        SST_SER(seed);
        SST_SER(ttl);
        SST_SER(pad);
        SST_SER(extra);
    }
    ImplementSerializable(vtest::Ev)
};

static std::vector<std::string> split(const std::string& s, char c)
{
    std::vector<std::string> r;
    std::string cur;
    std::istringstream is(s);
    while ( std::getline(is, cur, c) ) if ( !cur.empty() ) r.push_back(cur);
    return r;
}

struct PortState {
    std::string name;
    char kind = 'H'; // H handler, P polling, S self
    Link* link = nullptr;
    void serialize_order(SST::Core::Serialization::serializer& ser)
    {
        SST_SER(name);
        SST_SER(kind);
        SST_SER(link);
    }
};

struct ClockState {
    std::string freq;
    char mode = 'F';
    bool ordered = false;
    u64 n = 0, m = 0, ticks = 0;
    TimeConverter tc;
    Clock::HandlerBase* h = nullptr;
    void serialize_order(SST::Core::Serialization::serializer& ser)
    {
        SST_SER(freq);
        SST_SER(mode);
        SST_SER(ordered);
        SST_SER(n);
        SST_SER(m);
        SST_SER(ticks);
        SST_SER(tc);
        SST_SER(h);
    }
};

template <class Base>
class AgentT : public Base
{
public:
    // ---- configuration
    u64 state_ = 0;
    int fan_ = 30, drop_ = 5, nullp_ = 5, tickp_ = 20, maxdelay_ = 10, untp_ = 50;
    unsigned R_ = 0, R2_ = 0;
    int ttl_ = 5, ninit_ = 1;
    std::string outdir_;
    bool noports_ = false, userng_ = false, logtag_ = false;
    u64  api_ = 0; // selects between equivalent forms of the public API
    std::vector<PortState> ports_;
    std::vector<ClockState> clocks_;
    std::vector<u64> okat_;
    bool primary_ = false;
    TimeConverter alt_;
    bool hasalt_ = false;
    Link* wake_ = nullptr;
    std::string log_;
    u64 nrx_ = 0;
    SST::RNG::MersenneRNG* mers_ = nullptr;
    SST::RNG::MarsagliaRNG* mars_ = nullptr;
    SST::RNG::XORShiftRNG* xors_ = nullptr;
    Statistics::Statistic<uint64_t>* st_rx_ = nullptr;
    Statistics::Statistic<int32_t>* st_tick_ = nullptr;

    AgentT() : Base() {}
    template <typename... A>
    AgentT(ComponentId_t id, A&&... a) : Base(id, std::forward<A>(a)...) {}

    static std::string fullname(BaseComponent* b) { return b->getName(); }

    void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        char buf[512];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        log_ += buf;
        log_ += '\n';
    }

    void configure(Params& p, bool allow_primary)
    {
        state_ = p.find<u64>("seed", 1);
        fan_ = p.find<int>("fan", 30);
        drop_ = p.find<int>("drop", 5);
        nullp_ = p.find<int>("nullp", 5);
        tickp_ = p.find<int>("tickp", 20);
        untp_ = p.find<int>("untp", 50);
        maxdelay_ = p.find<int>("maxdelay", 10);
        ttl_ = p.find<int>("ttl", 5);
        ninit_ = p.find<int>("ninit", 1);
        R_ = p.find<unsigned>("R", 0);
        R2_ = p.find<unsigned>("R2", 0);
        userng_ = p.find<bool>("rng", false);
        outdir_ = p.find<std::string>("outdir", ".");
        api_ = p.find<u64>("api", 0);
        std::string alt = p.find<std::string>("alt", "");
        if ( !alt.empty() ) { alt_ = this->getTimeConverter(alt); hasalt_ = true; }
        std::string dtb = p.find<std::string>("deftb", "");
        if ( !dtb.empty() ) this->registerTimeBase(dtb, true);
        // ports: name:kind:timebase:addsend:addrecv (timebase "-" = default; add* "-" = none)
        for ( auto& s : split(p.find<std::string>("ports", ""), ';') ) {
            auto f = split(s, ':');
            PortState ps;
            ps.name = f[0];
            ps.kind = f[1][0];
            int idx = ports_.size();
            Event::HandlerBase* h = nullptr;
            if ( ps.kind != 'P' ) h = new Event::Handler<AgentT, &AgentT::onEvent, int>(this, idx);
            // equivalent ways to give the time base of the port
            u64           v  = api_ ? mix(api_, idx + 1) : 0;
            bool          tb = f[2] != "-";
            TimeConverter tc;
            if ( tb ) tc = v & 1 ? this->getTimeConverter(UnitAlgebra(f[2])) : v & 2 ? TimeConverter(f[2]) : this->getTimeConverter(f[2]);
            bool later = tb && (v >> 2) % 4 == 0;
            if ( ps.kind == 'S' )
                ps.link = !tb || later ? this->configureSelfLink(f[0], h) : v & 2 ? this->configureSelfLink(f[0], tc, h) : this->configureSelfLink(f[0], f[2], h);
            else
                ps.link = !tb || later ? this->configureLink(f[0], h) : v & 2 ? this->configureLink(f[0], tc, h) : this->configureLink(f[0], f[2], h);
            if ( !ps.link ) { log("NOLINK %s", f[0].c_str()); delete h; continue; }
            if ( later ) ps.link->setDefaultTimeBase(tc);
            if ( !ps.link->isConfigured() ) log("NOTCONFIGURED %s", f[0].c_str());
            if ( tb && ps.link->getDefaultTimeBase().getFactor() != tc.getFactor() ) log("BADTB %s", f[0].c_str());
            if ( ps.kind != 'S' && !this->isPortConnected(f[0]) ) log("NOTCONNECTED %s", f[0].c_str());
            TimeConverter core = this->getTimeConverter(this->getCoreTimeBase());
            if ( f.size() > 3 && f[3] != "-" ) {
                TimeConverter l = this->getTimeConverter(f[3]);
                switch ( (v >> 5) % 3 ) {
                case 0: ps.link->addSendLatency(1, f[3]); break;
                case 1: ps.link->addSendLatency(1, l); break;
                default: ps.link->addSendLatency(l.getFactor() - l.getFactor() / 3, core); ps.link->addSendLatency(l.getFactor() / 3, core); break;
                }
            }
            if ( f.size() > 4 && f[4] != "-" ) {
                TimeConverter l = this->getTimeConverter(f[4]);
                switch ( (v >> 8) % 3 ) {
                case 0: ps.link->addRecvLatency(1, f[4]); break;
                case 1: ps.link->addRecvLatency(1, l); break;
                default: ps.link->addRecvLatency(l.getFactor() - l.getFactor() / 3, core); ps.link->addRecvLatency(l.getFactor() / 3, core); break;
                }
            }
            if ( ps.kind == 'H' && (v >> 12) % 4 == 1 ) ps.link->replaceFunctor(new Event::Handler<AgentT, &AgentT::onEvent, int>(this, idx));
            ports_.push_back(ps);
        }
        // clocks: freq:mode:n:m:ordered
        for ( auto& s : split(p.find<std::string>("clocks", ""), ';') ) {
            auto f = split(s, ':');
            ClockState c;
            c.freq = f[0];
            c.mode = f[1][0];
            c.n = strtoull(f[2].c_str(), 0, 10);
            c.m = strtoull(f[3].c_str(), 0, 10);
            c.ordered = f[4] == "1";
            int idx = clocks_.size();
            c.tc = this->getTimeConverter(c.freq);
            if ( c.ordered )
                c.h = this->template registerOrderedClock<AgentT, &AgentT::onTick, int>(c.tc, this, idx, false);
            else if ( mix(api_, idx + 77) % 3 == 1 )
                c.h = this->template registerClock<AgentT, &AgentT::onTick, int>(c.tc, this, idx, false);
            else {
                c.h = new Clock::Handler<AgentT, &AgentT::onTick, int>(this, idx);
                TimeConverter r = mix(api_, idx + 77) % 3 == 2 ? this->registerClock(c.freq, c.h, false) : this->registerClock(c.tc, c.h, false);
                if ( r.getFactor() != c.tc.getFactor() ) log("BADCLOCKTC %d", idx);
            }
            if ( !c.h->isActive() || c.h->getClockPeriod().getFactor() != c.tc.getFactor() ) log("BADCLOCK %d", idx);
            clocks_.push_back(c);
        }
        TimeConverter core = this->getTimeConverter(this->getCoreTimeBase());
        wake_ = this->configureSelfLink("wake__", core, new Event::Handler<AgentT, &AgentT::onWake>(this));
        if ( allow_primary ) {
            for ( auto& s : split(p.find<std::string>("okat", ""), ';') ) okat_.push_back(strtoull(s.c_str(), 0, 10));
            if ( !okat_.empty() ) {
                primary_ = true;
                this->registerAsPrimaryComponent();
                this->primaryComponentDoNotEndSim();
            }
        }
        if ( userng_ ) {
            mers_ = new SST::RNG::MersenneRNG((unsigned)(state_ & 0xffff) + 1);
            mars_ = new SST::RNG::MarsagliaRNG((unsigned)(state_ & 0xffff) + 1, (unsigned)(state_ >> 16 & 0xffff) + 1);
            xors_ = new SST::RNG::XORShiftRNG((unsigned)(state_ & 0xffff) + 1);
        }
        st_rx_ = this->template registerStatistic<uint64_t>("rx");
        st_tick_ = this->template registerStatistic<int32_t>("tick");
    }

    void doSend(u64 hc, int32_t ttl)
    {
        if ( ports_.empty() ) return;
        int out = hc % ports_.size();
        u64 delay = (hc >> 16) % (maxdelay_ + 1);
        Ev* e = ((hc >> 40) % 100 < (u64)nullp_) ? nullptr : new Ev(mix(hc, 7), ttl);
        Link* l = ports_[out].link;
        int how = (hc >> 48) % 4;
        if ( how == 0 ) l->send(e);
        else if ( how == 1 && hasalt_ ) l->send(delay, alt_, e);
        else if ( how == 2 && (api_ & 8) && l->getDefaultTimeBase().getFactor() ) l->send(delay, l->getDefaultTimeBase(), e);
        else l->send(delay, e);
    }

    void process(char kind, int idx, Event* ev)
    {
        u64 now = this->getCurrentSimCycle();
        jitter(this->getId(), state_);
        nrx_++;
        state_ = mix(state_, idx * 1000003ull + 17);
        if ( !ev ) {
            state_ = mix(state_, now);
            log("N %c %" PRIu64 " %d %s %016" PRIx64, kind, now, this->getCurrentPriority(), ports_[idx].name.c_str(), state_);
            return;
        }
        Ev* e = dynamic_cast<Ev*>(ev);
        if ( !e && kind == 'P' ) {
            // a null send is polled as an opaque placeholder event
            delete ev;
            state_ = mix(state_, now);
            log("N %c %" PRIu64 " %d %s %016" PRIx64, kind, now, this->getCurrentPriority(), ports_[idx].name.c_str(), state_);
            return;
        }
        if ( !e ) { log("BADTYPE %" PRIu64 " %s", now, ports_[idx].name.c_str()); delete ev; return; }
        if ( !e->good() ) log("BADPAYLOAD %" PRIu64 " %s", now, ports_[idx].name.c_str());
        state_ = mix(state_, e->seed);
        state_ = mix(state_, now);
        if ( userng_ ) {
            state_ = mix(state_, mers_->generateNextUInt64());
            state_ = mix(state_, mars_->generateNextUInt32());
            state_ = mix(state_, xors_->generateNextUInt32());
        }
        log("E %c %" PRIu64 " %d %s %016" PRIx64 " %d %016" PRIx64, kind, now, this->getCurrentPriority(), ports_[idx].name.c_str(), e->seed, e->ttl, state_);
        if ( st_rx_ ) st_rx_->addData(e->seed % 1000);
        int32_t ttl = e->ttl;
        u64 seed = e->seed;
        delete ev;
        for ( size_t i = 0; i < clocks_.size(); ++i ) {
            auto& c = clocks_[i];
            if ( c.mode != 'X' ) continue;
            if ( seed % 5 == 0 ) {
                if ( c.h->isActive() ) {
                    if ( (api_ & 16) && !c.ordered ) this->unregisterClock(c.tc, c.h);
                    else c.h->deactivate();
                    log("A- %" PRIu64 " %zu", now, i);
                }
            }
            else if ( seed % 5 == 1 ) {
                if ( !c.h->isActive() ) {
                    u64 nx = (api_ & 32) && !c.ordered ? this->reregisterClock(c.tc, c.h) : c.h->activate();
                    log("A+ %" PRIu64 " %zu %" PRIu64, now, i, nx);
                }
            }
        }
        if ( ttl <= 0 ) return;
        u64 h = mix(state_, 0xF00);
        int n = 1;
        if ( h % 100 < (u64)fan_ ) n = 2;
        if ( (h >> 10) % 100 < (u64)drop_ ) n = 0;
        for ( int c = 0; c < n; ++c ) doSend(mix(h, c + 1), ttl - 1);
    }

    void onEvent(Event* ev, int idx) { process('H', idx, ev); }

    bool onTick(Cycle_t cycle, int idx)
    {
        u64 now = this->getCurrentSimCycle();
        auto& c = clocks_[idx];
        jitter(this->getId(), state_);
        c.ticks++;
        state_ = mix(state_, 0xC10C + idx);
        state_ = mix(state_, now);
        log("T %" PRIu64 " %d %d %" PRIu64 " %016" PRIx64, now, this->getCurrentPriority(), idx, (u64)cycle, state_);
        if ( st_tick_ ) st_tick_->addData((int32_t)(cycle % 100) - 50);
        for ( size_t i = 0; i < ports_.size(); ++i ) {
            if ( ports_[i].kind != 'P' ) continue;
            while ( Event* e = ports_[i].link->recv() ) {
                process('P', i, e);
            }
        }
        u64 h = mix(state_, 0xF11);
        if ( h % 100 < (u64)tickp_ ) doSend(mix(h, 3), ttl_ / 2);
        if ( c.mode == 'S' && c.ticks >= c.n ) return true;
        if ( c.mode == 'D' && c.ticks % c.n == 0 ) {
            wake_->send(c.m, new Ev(mix(state_, 9), 1000 + idx));
            return true;
        }
        return false;
    }

    void onWake(Event* ev)
    {
        Ev* e = static_cast<Ev*>(ev);
        u64 now = this->getCurrentSimCycle();
        int k = e->ttl;
        u64 seed = e->seed;
        delete ev;
        if ( k >= 1000 ) {
            auto& c = clocks_[k - 1000];
            if ( c.h->isActive() ) { log("WACT %" PRIu64 " %d", now, k - 1000); return; }
            u64 nx;
            if ( (seed & 1) || c.ordered ) nx = c.h->activate();
            else nx = this->reregisterClock(c.tc, c.h);
            log("W %" PRIu64 " %d %d %" PRIu64, now, this->getCurrentPriority(), k - 1000, nx);
        }
        else {
            log("K %" PRIu64 " %d", now, k);
            if ( k % 2 == 0 ) this->primaryComponentOKToEndSim();
            else this->primaryComponentDoNotEndSim();
        }
    }

    void untimed(char kind, unsigned phase, unsigned R)
    {
        log("%c %u %" PRIu64, kind, phase, (u64)this->getCurrentSimCycle());
        jitter(this->getId(), state_ + phase);
        for ( size_t i = 0; i < ports_.size(); ++i ) {
            if ( ports_[i].kind == 'S' ) continue;
            while ( Event* ev = ports_[i].link->recvUntimedData() ) {
                Ev* e = dynamic_cast<Ev*>(ev);
                if ( !e || !e->good() ) { log("BADUNTIMED"); continue; }
                state_ = mix(state_, e->seed + i);
                log("U%c %u %s %016" PRIx64 " %016" PRIx64, kind, phase, ports_[i].name.c_str(), e->seed, state_);
                if ( e->ttl > 0 && (state_ % 100) < (u64)untp_ ) {
                    ports_[i].link->sendUntimedData(new Ev(mix(state_, 77), e->ttl - 1));
                }
                delete ev;
            }
        }
        if ( phase < R ) {
            for ( size_t i = 0; i < ports_.size(); ++i ) {
                if ( ports_[i].kind == 'S' ) continue;
                u64 h = mix(mix(state_, phase + 100), i);
                int n = h % 100 < (u64)untp_ ? 1 + (h >> 9) % 2 : 0;
                for ( int k = 0; k < n; ++k ) ports_[i].link->sendUntimedData(new Ev(mix(h, k), (h >> 20) % 2));
            }
        }
    }

    void init(unsigned phase) override { untimed('i', phase, R_); }
    void complete(unsigned phase) override { untimed('c', phase, R2_); }
    void setup() override
    {
        log("S %" PRIu64, (u64)this->getCurrentSimCycle());
        for ( size_t i = 0; i < okat_.size(); ++i ) wake_->send(okat_[i], new Ev(0, (int)i));
        for ( int i = 0; i < ninit_; ++i ) doSend(mix(mix(state_, 0x5E7), i), ttl_);
    }
    void finish() override
    {
        log("F %" PRIu64 " %" PRIu64 " %" PRIu64, (u64)this->getCurrentSimCycle(), (u64)this->getEndSimCycle(), nrx_);
        std::string n = this->getName();
        for ( auto& ch : n ) if ( ch == '/' || ch == ':' ) ch = '_';
        FILE* f = fopen((outdir_ + "/" + n + ".log").c_str(), "w");
        if ( f ) {
            fwrite(log_.data(), 1, log_.size(), f);
            fclose(f);
        }
    }

    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        Base::serialize_order(ser);
        SST_SER(state_);
        SST_SER(fan_);
        SST_SER(drop_);
        SST_SER(nullp_);
        SST_SER(tickp_);
        SST_SER(maxdelay_);
        SST_SER(untp_);
        SST_SER(R_);
        SST_SER(R2_);
        SST_SER(ttl_);
        SST_SER(ninit_);
        SST_SER(outdir_);
        SST_SER(userng_);
        SST_SER(api_);
        SST_SER(ports_);
        SST_SER(clocks_);
        SST_SER(okat_);
        SST_SER(primary_);
        SST_SER(alt_);
        SST_SER(hasalt_);
        SST_SER(wake_);
        SST_SER(log_);
        SST_SER(nrx_);
        SST_SER(mers_);
        SST_SER(mars_);
        SST_SER(xors_);
        SST_SER(st_rx_);
        SST_SER(st_tick_);
    }
};

#define AGENT_PARAMS \
    SST_ELI_DOCUMENT_PARAMS( \
        {"seed","",""},{"api","",""},{"fan","",""},{"drop","",""},{"nullp","",""},{"tickp","",""},{"untp","",""},{"maxdelay","",""}, \
        {"ttl","",""},{"ninit","",""},{"R","",""},{"R2","",""},{"rng","",""},{"outdir","",""},{"alt","",""},{"deftb","",""}, \
        {"ports","",""},{"clocks","",""},{"okat","",""},{"anon","",""},{"nsub","",""}) \
    SST_ELI_DOCUMENT_PORTS({"p%(n)d", "port", {}}) \
    SST_ELI_DOCUMENT_STATISTICS({"rx","rx","events",1},{"tick","tick","ticks",1})

class SubAPI : public SubComponent
{
public:
    SST_ELI_REGISTER_SUBCOMPONENT_API(vtest::SubAPI)
    SubAPI() : SubComponent() {}
    SubAPI(ComponentId_t id) : SubComponent(id) {}
    void serialize_order(SST::Core::Serialization::serializer& ser) override { SubComponent::serialize_order(ser); }
    ImplementVirtualSerializable(vtest::SubAPI)
};

class SubAgent : public AgentT<SubAPI>
{
public:
    SST_ELI_REGISTER_SUBCOMPONENT(SubAgent, "vtest", "subagent", SST_ELI_ELEMENT_VERSION(1,0,0), "agent", vtest::SubAPI)
    AGENT_PARAMS
    SST_ELI_IS_CHECKPOINTABLE()
    SubAgent() : AgentT() {}
    SubAgent(ComponentId_t id, Params& p) : AgentT(id) { configure(p, false); }
    void serialize_order(SST::Core::Serialization::serializer& ser) override { AgentT::serialize_order(ser); }
    ImplementSerializable(vtest::SubAgent)
};

class Agent : public AgentT<Component>
{
public:
    SST_ELI_REGISTER_COMPONENT(Agent, "vtest", "agent", SST_ELI_ELEMENT_VERSION(1,0,0), "agent", COMPONENT_CATEGORY_UNCATEGORIZED)
    AGENT_PARAMS
    SST_ELI_DOCUMENT_SUBCOMPONENT_SLOTS({"sub","subs","vtest::SubAPI"})
    SST_ELI_IS_CHECKPOINTABLE()
    std::vector<SubAPI*> subs_;
    Agent() : AgentT() {}
    Agent(ComponentId_t id, Params& p) : AgentT(id)
    {
        configure(p, true);
        int ns = p.find<int>("nsub", 0);
        if ( ns ) {
            SubComponentSlotInfo* info = getSubComponentSlotInfo("sub");
            if ( info ) info->createAll<SubAPI>(subs_, ComponentInfo::SHARE_NONE);
            delete info;
        }
    }
    void init(unsigned ph) override { AgentT::init(ph); for ( auto s : subs_ ) s->init(ph); }
    void complete(unsigned ph) override { AgentT::complete(ph); for ( auto s : subs_ ) s->complete(ph); }
    void setup() override { AgentT::setup(); for ( auto s : subs_ ) s->setup(); }
    void finish() override { AgentT::finish(); for ( auto s : subs_ ) s->finish(); }
    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        AgentT::serialize_order(ser);
        SST_SER(subs_);
    }
    ImplementSerializable(vtest::Agent)
};

} // namespace vtest
