// Loggers: what reaches a sink, from which level, under which name, with many threads writing.
#include "vh.h"

#include <algorithm>
#include <deque>
#include <fcntl.h>
#include <memory>

#include "modbus/UnitIdentifier.h"
#include "modbus/logging/LoggerFactory.h"
#include "modbus/messages/ExceptionType.h"
#include "logging/Logger.h"
#include "TransactionIdentifier.h"

#include "spdlog/sinks/base_sink.h"
#include "spdlog/spdlog.h"

using namespace vh;
using namespace modbus;

namespace
{

const LoggingLevel LEVELS[] = {LoggingLevel::Trace, LoggingLevel::Debug, LoggingLevel::Info, LoggingLevel::Warn, LoggingLevel::Error, LoggingLevel::Critical};
const char* const LNAMES[] = {"trace", "debug", "info", "warn", "error", "critical"};

struct Rec
{
    std::string name, text;
    int level;
    bool operator==(const Rec& o) const { return name == o.name && text == o.text && level == o.level; }
};
class RecSink : public spdlog::sinks::base_sink<std::mutex>
{
public:
    std::vector<Rec> take()
    {
        std::lock_guard<std::mutex> l(mutex_);
        std::vector<Rec> r;
        r.swap(recs);
        return r;
    }

protected:
    void sink_it_(const spdlog::details::log_msg& m) override
    {
        recs.push_back({std::string(m.logger_name.data(), m.logger_name.size()), std::string(m.payload.data(), m.payload.size()), (int)m.level});
    }
    void flush_() override {}
    std::vector<Rec> recs;
};

void log_at(Logger& l, int level, unsigned form, int n, std::string& text)
{
    char b[80];
    std::string s = "s" + std::to_string(n);
    switch(form)
    {
    case 0:
        snprintf(b, sizeof b, "plain message %d", n);
        text = b;
        switch(level)
        {
        case 0: l.trace(text); break;
        case 1: l.debug(text); break;
        case 2: l.info(text); break;
        case 3: l.warn(text); break;
        case 4: l.error(text); break;
        default: l.critical(text); break;
        }
        break;
    case 1:
        text = "one " + std::to_string(n) + ".";
        switch(level)
        {
        case 0: l.trace("one {}.", n); break;
        case 1: l.debug("one {}.", n); break;
        case 2: l.info("one {}.", n); break;
        case 3: l.warn("one {}.", n); break;
        case 4: l.error("one {}.", n); break;
        default: l.critical("one {}.", n); break;
        }
        break;
    case 3: // text which looks like a format, and long text
        text = n % 3 == 0 ? "{} %s %n {0} {{}} {:x}" : n % 3 == 1 ? std::string(300 + (size_t)n, '{') + "end" : std::string(2000 + (size_t)n, 'y') + "}";
        switch(level)
        {
        case 0: l.trace(text); break;
        case 1: l.debug(text); break;
        case 2: l.info(text); break;
        case 3: l.warn(text); break;
        case 4: l.error(text); break;
        default: l.critical(text); break;
        }
        break;
    case 4: // arguments which look like formats, numbers, and many arguments
    {
        std::string f = "{} %d", g((size_t)(n % 900), 'z');
        text = "[" + f + "] -" + std::to_string(n + 1) + " " + g + " true c " + std::to_string(18446744073709551615ull - (unsigned)n) + " {}";
        const char* fmt = "[{}] {} {} {} {} {} {{}}";
        switch(level)
        {
        case 0: l.trace(fmt, f, -n - 1, g, true, 'c', 18446744073709551615ull - (unsigned)n); break;
        case 1: l.debug(fmt, f, -n - 1, g, true, 'c', 18446744073709551615ull - (unsigned)n); break;
        case 2: l.info(fmt, f, -n - 1, g, true, 'c', 18446744073709551615ull - (unsigned)n); break;
        case 3: l.warn(fmt, f, -n - 1, g, true, 'c', 18446744073709551615ull - (unsigned)n); break;
        case 4: l.error(fmt, f, -n - 1, g, true, 'c', 18446744073709551615ull - (unsigned)n); break;
        default: l.critical(fmt, f, -n - 1, g, true, 'c', 18446744073709551615ull - (unsigned)n); break;
        }
        break;
    }
    default:
    {
        UnitIdentifier u((uint8_t)n);
        TransactionIdentifier t((uint16_t)(n * 7));
        snprintf(b, sizeof b, "unit 0x%02X, transaction 0x%04X, %s", n & 0xFF, (n * 7) & 0xFFFF, s.c_str());
        text = b;
        const char* f = "unit {}, transaction {}, {}";
        switch(level)
        {
        case 0: l.trace(f, u, t, s); break;
        case 1: l.debug(f, u, t, s); break;
        case 2: l.info(f, u, t, s); break;
        case 3: l.warn(f, u, t, s); break;
        case 4: l.error(f, u, t, s); break;
        default: l.critical(f, u, t, s); break;
        }
    }
    }
}

void s_levels()
{
    Rng r(ctx().seed);
    long n = ctx().cases(4000, 40000);
    for(long c = 0; c < n; ++c)
    {
        auto sink = std::make_shared<RecSink>();
        auto sink2 = std::make_shared<RecSink>();
        bool two = r.chance(1, 3);
        std::vector<spdlog::sink_ptr> sinks{sink};
        if(two) sinks.push_back(sink2);
        auto spd = std::make_shared<spdlog::logger>("root", sinks.begin(), sinks.end());
        if(r.chance(1, 3)) spd->set_level((spdlog::level::level_enum)r.below(6));
        struct L { std::shared_ptr<Logger> l; int level; std::string name; };
        std::vector<L> ls;
        int rl = (int)r.below(6);
        if(c % 9 == 0) { rl = 2; ls.push_back({LoggerFactory::create_custom_logger(spd), 2, "root"}); } // the default is info
        else ls.push_back({LoggerFactory::create_custom_logger(spd, LEVELS[rl]), rl, "root"});
        uint64_t h = (uint64_t)rl;
        std::vector<Rec> want;
        std::string trace = std::string("root at ") + LNAMES[rl];
        unsigned ops = 15 + (unsigned)r.below(30);
        for(unsigned i = 0; i < ops; ++i)
        {
            if(r.chance(1, 5) && ls.size() < 6)
            {
                auto& p = ls[r.below(ls.size())];
                int nl = (int)r.below(6);
                // any name, also one which is taken
                std::string name = "clone" + std::to_string(ls.size());
                switch(r.below(8))
                {
                case 0: name = p.name; break;
                case 1: name = ls[r.below(ls.size())].name; break;
                case 2: name = ""; break;
                case 3: name = "{} %s"; break;
                case 4: name = std::string(1 + r.below(300), 'n'); break;
                default: break;
                }
                if(r.chance(1, 6))
                {
                    // a clone that was given no level logs at least what is critical
                    auto l = p.l->clone(name);
                    std::string text;
                    log_at(*l, 5, (unsigned)r.below(5), (int)r.below(1000), text);
                    want.push_back({name, text, 5});
                    count("log_calls");
                    continue;
                }
                auto l = p.l->clone(name, LEVELS[nl]);
                trace += "; " + name + " of " + p.name + " at " + LNAMES[nl];
                h = h * 31 + (uint64_t)nl;
                ls.push_back({l, nl, name});
                continue;
            }
            auto& l = ls[r.below(ls.size())];
            int lv = (int)r.below(6);
            std::string text;
            log_at(*l.l, lv, (unsigned)r.below(6), (int)r.below(1000), text);
            h = h * 31 + (uint64_t)lv * 7 + (uint64_t)(&l - ls.data());
            if(lv >= l.level) want.push_back({l.name, text, lv});
            count("log_calls");
        }
        for(auto s : {sink, sink2})
        {
            if(s == sink2 && !two) continue;
            auto got = s->take();
            count("records_seen", got.size());
            for(size_t i = 0; i < got.size() || i < want.size(); ++i)
            {
                if(i < got.size() && i < want.size() && got[i] == want[i]) continue;
                violation("logging-records", trace + ": record " + std::to_string(i) + " is " + (i < got.size() ? got[i].name + "/" + std::to_string(got[i].level) + " '" + got[i].text + "'" : std::string("missing")) +
                                                 ", expected " + (i < want.size() ? want[i].name + "/" + std::to_string(want[i].level) + " '" + want[i].text + "'" : std::string("nothing")));
                break;
            }
        }
        distinct(h);
        sample(trace);
    }
}

// Captures what the process writes to a descriptor meanwhile.
template <class F> std::string captured(int fd, F f)
{
    fflush(nullptr);
    char path[] = "/tmp/vh_capture_XXXXXX";
    int t = mkstemp(path);
    if(t < 0) harness_error("mkstemp");
    unlink(path);
    int keep = dup(fd);
    dup2(t, fd);
    f();
    fflush(nullptr);
    dup2(keep, fd);
    close(keep);
    std::string r;
    char b[65536];
    lseek(t, 0, SEEK_SET);
    for(ssize_t n; (n = read(t, b, sizeof b)) > 0;) r.append(b, (size_t)n);
    close(t);
    return r;
}

void s_console()
{
    Rng r(ctx().seed);
    int serial = 0;
    for(long c = 0; c < ctx().cases(300, 3000); ++c)
    {
        int lv = (int)(c % 6);
        std::string name = "console" + std::to_string(serial++);
        std::vector<std::string> want, all;
        std::string err;
        std::string out = captured(1, [&] {
            err = captured(2, [&] {
                auto l = c % 7 == 3 ? LoggerFactory::create_console_logger(name) : LoggerFactory::create_console_logger(name, LEVELS[lv]);
                if(c % 7 == 3) lv = 2;
                auto cl = l->clone(r.chance(1, 3) ? name : name + "x", LEVELS[(lv + 2) % 6]);
                for(int i = 0; i < 30; ++i)
                {
                    int m = (int)r.below(6);
                    bool clone = r.chance(1, 3);
                    std::string text, tag = "<" + std::to_string(i) + ">";
                    char b[8];
                    snprintf(b, sizeof b, "<%d>", i);
                    log_at(clone ? *cl : *l, m, (unsigned)r.below(6), i, text);
                    if(m >= (clone ? (lv + 2) % 6 : lv)) want.push_back(text);
                    count("log_calls");
                }
            });
        });
        if(!err.empty()) violation("logging-console-stderr", "the console logger wrote to the error stream: " + err.substr(0, 200));
        std::vector<std::string> lines;
        size_t p = 0;
        while(p < out.size())
        {
            size_t e = out.find('\n', p);
            if(e == std::string::npos) { violation("logging-console", "the output does not end with a whole line"); break; }
            lines.push_back(out.substr(p, e - p));
            p = e + 1;
        }
        bool ok = lines.size() == want.size();
        for(size_t i = 0; ok && i < lines.size(); ++i) ok = lines[i].find(want[i]) != std::string::npos && lines[i].find(name) != std::string::npos;
        if(!ok) violation("logging-console", std::string("a console logger at ") + LNAMES[lv] + " wrote " + std::to_string(lines.size()) + " lines, expected " + std::to_string(want.size()) + ", or other text: " + out.substr(0, 300));
        count("console_lines", lines.size());
        distinct(fnv(out));
        // a null logger writes nothing, anywhere
        std::string o2, e2;
        o2 = captured(1, [&] {
            e2 = captured(2, [&] {
                auto l = LoggerFactory::create_null_logger("null" + std::to_string(c));
                auto cl = l->clone("null clone", LoggingLevel::Trace);
                std::string text;
                for(int i = 0; i < 12; ++i) { log_at(*l, i % 6, (unsigned)i % 3, i, text); log_at(*cl, i % 6, (unsigned)i % 3, i, text); }
            });
        });
        if(!o2.empty() || !e2.empty()) violation("logging-null", "a null logger wrote: " + (o2 + e2).substr(0, 200));
    }
    // two loggers may share any name except on the console
    auto a = LoggerFactory::create_null_logger("same"), b = LoggerFactory::create_null_logger("same");
    if(!a || !b || a == b) violation("logging-null", "two null loggers of one name");
    sample("console loggers at each level, with clones, standard output and error captured");
}

void s_threads()
{
    Rng r(ctx().seed);
    long n = ctx().cases(60, 150);
    for(long c = 0; c < n; ++c)
    {
        auto sink = std::make_shared<RecSink>();
        auto root = LoggerFactory::create_custom_logger(std::make_shared<spdlog::logger>("root", sink), LoggingLevel::Trace);
        auto null = LoggerFactory::create_null_logger("n");
        const int T = 5, N = 400;
        std::vector<std::thread> ts;
        for(int t = 0; t < T; ++t)
            ts.emplace_back([&, t] {
                auto own = root->clone("t" + std::to_string(t), LoggingLevel::Debug);
                for(int i = 0; i < N; ++i)
                {
                    own->info("{} {}", t, i);
                    own->trace("{} {}", t, i);
                    root->warn("{} {}", t + 100, i);
                    null->error("{}", UnitIdentifier{(uint8_t)i});
                }
            });
        for(auto& t : ts) t.join();
        auto got = sink->take();
        std::map<int, int> next;
        bool bad = got.size() != (size_t)(2 * T * N);
        std::string why = std::to_string(got.size()) + " records of " + std::to_string(2 * T * N);
        for(auto& g : got)
        {
            int t = -1, i = -1;
            if(sscanf(g.text.c_str(), "%d %d", &t, &i) != 2 || next[t] != i) { bad = true; why = "record '" + g.text + "' out of order or garbled"; break; }
            ++next[t];
            if(g.name != (t >= 100 ? "root" : "t" + std::to_string(t))) { bad = true; why = "record '" + g.text + "' under the name " + g.name; break; }
        }
        if(bad) violation("logging-concurrent", "threads sharing a sink: " + why);
        count("log_calls", T * N * 4);
        count("records_seen", got.size());
        std::string order;
        for(size_t i = 0; i < 300 && i < got.size(); ++i) order += got[i].text + "|";
        distinct(fnv(order));
        if(c == 0) sample("order of records: " + order);
    }
    (void)r;
}

} // namespace

int main(int argc, char** argv)
{
    return run_main(argc, argv, {{"levels", s_levels}, {"console", s_console}, {"threads", s_threads}});
}
