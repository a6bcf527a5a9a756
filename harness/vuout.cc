// Element library "vuout": components that carry out scripted operations on Output objects (checks/c19.py has the model).
#include "sst_config.h"
#include "sst/core/component.h"
#include "sst/core/event.h"
#include "sst/core/link.h"
#include "sst/core/output.h"
#include "sst/core/timeConverter.h"
#include "sst/core/unitAlgebra.h"
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

namespace vuout {
using namespace SST;

class Ev : public Event
{
public:
    int i = 0;
    Ev() = default;
    Ev(int i) : i(i) {}
    void serialize_order(SST::Core::Serialization::serializer& ser) override { Event::serialize_order(ser); SST_SER(i); }
    ImplementSerializable(vuout::Ev)
};

class Comp : public Component
{
public:
    SST_ELI_REGISTER_COMPONENT(Comp, "vuout", "comp", SST_ELI_ELEMENT_VERSION(1,0,0), "script", COMPONENT_CATEGORY_UNCATEGORIZED)
    SST_ELI_DOCUMENT_PORTS({"a", "", {}}, {"b", "", {}})

    static const int         N = 6;
    std::vector<std::string> acts_; // "time op object arguments..." (strings in hexadecimal digits after an x)
    Link*                    self_ = nullptr;
    Link*                    a_    = nullptr;
    Link*                    b_    = nullptr;
    Output*                  o_[N] = {};
    int                      done_ = 0;

    static std::string str(std::istringstream& s)
    {
        std::string h, r;
        s >> h;
        for ( size_t i = 1; i + 1 < h.size(); i += 2 ) r += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16);
        return r;
    }
    static uint64_t num(std::istringstream& s)
    {
        uint64_t x = 0;
        s >> x;
        return x;
    }
    static Output::output_location_t loc(std::istringstream& s) { return static_cast<Output::output_location_t>(num(s)); }

    void act(const std::string& line)
    {
        std::istringstream s(line);
        std::string        op;
        int64_t            t;
        size_t             k;
        s >> t >> op >> k;
        if ( op == "sim" ) {
            std::string m = str(s);
            getSimulationOutput().output("%s\n", m.c_str());
            return;
        }
        Output*& o = o_[k];
        if ( op == "none" || (!o && op != "new" && op != "def" && op != "copy") ) return;
        if ( op == "new" || op == "tmp" ) {
            std::string p = str(s);
            uint32_t    l = num(s), m = num(s);
            auto        w = loc(s);
            std::string f = str(s);
            if ( op == "new" ) {
                delete o;
                o = f.empty() ? new Output(p, l, m, w) : new Output(p, l, m, w, f);
            }
            else {
                *o = Output(p, l, m, w, f); // assigned from a temporary
            }
        }
        else if ( op == "def" ) {
            delete o;
            o = new Output();
        }
        else if ( op == "init" ) {
            std::string p = str(s);
            uint32_t    l = num(s), m = num(s);
            auto        w = loc(s);
            std::string f = str(s);
            if ( f.empty() ) o->init(p, l, m, w);
            else o->init(p, l, m, w, f);
        }
        else if ( op == "copy" ) {
            Output* j = o_[num(s)];
            if ( !j ) return;
            Output* n = new Output(*j);
            delete o;
            o = n;
        }
        else if ( op == "assign" ) {
            Output* j = o_[num(s)];
            if ( j ) *o = *j;
        }
        else if ( op == "del" ) {
            delete o;
            o = nullptr;
        }
        else if ( op == "out" ) {
            int         style = num(s);
            std::string m     = str(s);
            if ( style == 0 ) o->output("%s\n", m.c_str());
            else if ( style == 1 ) o->output((m + "\n").c_str()); // the model doubles the percent signs
            else o->output("%s %d|%" PRIx64 "|%5.2f|%%|%c\n", m.c_str(), -17, (uint64_t)1 << 40, 3.14159, 'z');
        }
        else if ( op == "outp" ) {
            uint32_t    line = num(s);
            std::string file = str(s), func = str(s);
            int         style = num(s);
            std::string m     = str(s);
            if ( style == 0 ) o->output(line, file.c_str(), func.c_str(), "%s\n", m.c_str());
            else if ( style == 1 ) o->output(line, file.c_str(), func.c_str(), (m + "\n").c_str());
            else o->output(line, file.c_str(), func.c_str(), "%s %d|%" PRIx64 "|%5.2f|%%|%c\n", m.c_str(), -17, (uint64_t)1 << 40, 3.14159, 'z');
        }
        else if ( op == "verb" || op == "vpre" || op == "dbg" ) {
            std::string pre;
            if ( op == "vpre" ) pre = str(s);
            uint32_t    lev = num(s), bits = num(s), line = num(s);
            std::string file = str(s), func = str(s), m = str(s);
            if ( op == "verb" ) o->verbose(line, file.c_str(), func.c_str(), lev, bits, "%s\n", m.c_str());
            else if ( op == "vpre" ) o->verbosePrefix(pre.c_str(), line, file.c_str(), func.c_str(), lev, bits, "%s\n", m.c_str());
            else o->debug(line, file.c_str(), func.c_str(), lev, bits, "%s\n", m.c_str());
        }
        else if ( op == "level" ) o->setVerboseLevel(num(s));
        else if ( op == "mask" ) o->setVerboseMask(num(s));
        else if ( op == "pfx" ) o->setPrefix(str(s));
        else if ( op == "loc" ) o->setOutputLocation(loc(s));
        else if ( op == "flush" ) o->flush();
        else if ( op == "get" ) {
            const char* d = getenv("VERIF_OUT");
            FILE*       f = fopen((std::string(d ? d : ".") + "/" + getName() + ".log").c_str(), "a");
            fprintf(f, "%" PRId64 " %u %u %d %s\n", t, o->getVerboseLevel(), o->getVerboseMask(), (int)o->getOutputLocation(), o->getPrefix().c_str());
            fclose(f);
        }
        else if ( op == "fatal" ) {
            uint32_t    line = num(s);
            std::string file = str(s), func = str(s), m = str(s);
            o->fatal(line, file.c_str(), func.c_str(), num(s), "%s\n", m.c_str());
        }
    }

    void phase(int64_t t)
    {
        for ( auto& a : acts_ )
            if ( strtoll(a.c_str(), nullptr, 10) == t ) act(a);
    }

    Comp() {}
    Comp(ComponentId_t id, Params& p) : Component(id)
    {
        std::istringstream lines(p.find<std::string>("acts", ""));
        for ( std::string l; std::getline(lines, l, ';'); ) acts_.push_back(l);
        self_ = configureSelfLink("self", getTimeConverter(getCoreTimeBase()), new Event::Handler<Comp, &Comp::onSelf>(this));
        a_    = configureLink("a", new Event::Handler<Comp, &Comp::onEvent>(this));
        b_    = configureLink("b", new Event::Handler<Comp, &Comp::onEvent>(this));
        registerAsPrimaryComponent();
        primaryComponentDoNotEndSim();
        phase(-3);
    }
    ~Comp()
    {
        for ( auto o : o_ ) delete o;
    }
    void init(unsigned int n) override
    {
        if ( n == 0 ) phase(-2);
    }
    void setup() override
    {
        phase(-1);
        for ( size_t i = 0; i < acts_.size(); i++ ) {
            int64_t t = strtoll(acts_[i].c_str(), nullptr, 10);
            if ( t >= 0 && t < 1000000 ) self_->send(t, new Ev(i));
            else done_++;
        }
        if ( done_ == (int)acts_.size() ) primaryComponentOKToEndSim();
    }
    void finish() override { phase(1000000); }
    void onSelf(Event* ev)
    {
        act(acts_[static_cast<Ev*>(ev)->i]);
        delete ev;
        if ( ++done_ == (int)acts_.size() ) primaryComponentOKToEndSim();
    }
    void onEvent(Event* ev) { delete ev; }
    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        Component::serialize_order(ser);
        SST_SER(acts_);
        SST_SER(self_);
        SST_SER(a_);
        SST_SER(b_);
        SST_SER(done_);
        for ( int k = 0; k < N; k++ ) {
            bool has = o_[k] != nullptr;
            SST_SER(has);
            if ( !has ) continue;
            if ( ser.mode() == SST::Core::Serialization::serializer::UNPACK ) o_[k] = new Output();
            SST_SER(*o_[k]);
        }
    }
    ImplementSerializable(vuout::Comp)
};
} // namespace vuout
