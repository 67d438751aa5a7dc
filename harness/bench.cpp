// Benchmark and the log targets, under a clock that only the scenario advances.
#include "vh.hpp"

#include <sse/schemes/utils/logger.hpp>

#include <dlfcn.h>
#include <memory>
#include <set>
#include <thread>
#include <spdlog/sinks/base_sink.h>
#include <spdlog/sinks/null_sink.h>

using namespace vh;

static std::atomic<long long> clock_ns{1600000000000000000LL};
namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept
{
    return time_point(duration(clock_ns.load()));
}
steady_clock::time_point steady_clock::now() noexcept
{
    return time_point(duration(clock_ns.load()));
}
} // namespace _V2
} // namespace chrono
} // namespace std

// the disk is slow to take the first record of a burst
static std::atomic<bool> slow{false};
static size_t            write_out(const char* name, const void* p, size_t s, size_t n, FILE* f)
{
    static auto real  = reinterpret_cast<size_t (*)(const void*, size_t, size_t, FILE*)>(dlsym(RTLD_NEXT, "fwrite"));
    static auto plain = reinterpret_cast<size_t (*)(const void*, size_t, size_t, FILE*)>(dlsym(RTLD_NEXT, "fwrite_unlocked"));
    if (f != stdout && f != stderr && slow.exchange(false)) {
        usleep(400000);
    }
    return name[6] == 0 ? real(p, s, n, f) : plain(p, s, n, f);
}
extern "C" size_t fwrite(const void* p, size_t s, size_t n, FILE* f)
{
    return write_out("fwrite", p, s, n, f);
}
extern "C" size_t fwrite_unlocked(const void* p, size_t s, size_t n, FILE* f)
{
    return write_out("fwrite_unlocked", p, s, n, f);
}

struct Sink : public spdlog::sinks::base_sink<std::mutex>
{
    std::vector<std::string> got;

protected:
    void sink_it_(const spdlog::details::log_msg& m) override
    {
        got.emplace_back(m.payload.data(), m.payload.size());
    }
    void flush_() override
    {
    }
};

// one record: [date] { "message" : "m", "items" : n, "time" : t, "time/item" : p }
static std::string decode(const std::string& line)
{
    char   msg[128];
    double t, p;
    size_t items;
    int    end = 0;
    auto   b   = line.find("] ");
    if (line.empty() || line[0] != '[' || b == std::string::npos
        || sscanf(line.c_str() + b + 2,
                  "{ \"message\" : \"%127[^\"]\", \"items\" : %zu, \"time\" : %lf, \"time/item\" : %lf }%n",
                  msg,
                  &items,
                  &t,
                  &p,
                  &end)
               != 4
        || end == 0 || b + 2 + end != line.size()) {
        return "{\"msg\":" + quote("malformed: " + line) + ",\"items\":0,\"time\":0,\"per\":0}";
    }
    return "{\"msg\":" + quote(msg) + ",\"items\":" + std::to_string(items) + ",\"time\":"
           + std::to_string((long long)(t + (t < 0 ? -0.5 : 0.5))) + ",\"per\":" + std::to_string((long long)(p * 1000 + 0.5)) + "}";
}

int main(int argc, char** argv)
{
    static int first = 1;
    return run(argc, argv, [](const Episode& e) {
        std::map<std::string, std::unique_ptr<sse::Benchmark>> bs;
        std::map<std::string, std::shared_ptr<Sink>>           sinks;
        std::vector<std::string>                               files;
        std::vector<size_t>                                    lines;
        int                                                    made = 0;
        // each episode is a process of its own life as far as the library is concerned; it starts
        // from whatever target the episode before left, so the first thing done is to set one
        for (const Op& op : e.ops) {
            Ev ev(op.name);
            if (op.name == "tick") {
                clock_ns += op.i(0) * 1000000LL;
                ev.f("d", op.i(0));
            } else if (op.name == "new") {
                if (op.s(1) == "s") {
                    bs[op.s(0)].reset(new sse::SearchBenchmark("search " + op.s(0)));
                    ev.f("b", op.s(0)).f("m", "search " + op.s(0));
                } else {
                    bs[op.s(0)].reset(new sse::Benchmark("{{ \"message\" : \"plain " + op.s(0)
                                                         + "\", \"items\" : {0}, \"time\" : {1}, \"time/item\" : {2} }}"));
                    ev.f("b", op.s(0)).f("m", "plain " + op.s(0));
                }
            } else if (op.name == "stop") {
                bs[op.s(0)]->stop();
                ev.f("b", op.s(0));
            } else if (op.name == "stopc") {
                bs[op.s(0)]->stop(op.i(1));
                ev.f("b", op.s(0)).f("c", op.i(1));
            } else if (op.name == "count") {
                bs[op.s(0)]->set_count(op.i(1));
                ev.f("b", op.s(0)).f("c", op.i(1));
            } else if (op.name == "destroy") {
                bs.erase(op.s(0));
                if (!files.empty()) {
                    lines.back()++;
                }
                ev.f("b", op.s(0));
            } else if (op.name == "setfile") {
                std::string r = "ok";
                std::string f = fresh("bench");
                try {
                    sse::Benchmark::set_benchmark_file(f);
                } catch (std::exception& x) {
                    r = x.what();
                }
                files.push_back(f);
                lines.push_back(0);
                ev.f("r", r);
            } else if (op.name == "burst") {
                // many benchmarks that end at the same time, in several threads; they report 1, 2, ..., n items
                size_t n = op.i(0), T = op.i(1);
                slow     = true;
                std::vector<std::thread> th;
                for (size_t t = 0; t < T; t++) {
                    th.emplace_back([n, t, T]() {
                        for (size_t i = t; i < n; i += T) {
                            sse::SearchBenchmark b("burst");
                            b.stop(i + 1);
                        }
                    });
                }
                for (auto& t : th) {
                    t.join();
                }
                slow = false;
                lines.back() += n;
                ev.f("n", n);
            } else if (op.name == "tally") {
                // the records of a file that only got a burst
                size_t                 k = op.i(0), n = 0;
                std::set<unsigned long> items;
                for (int w = 0, quiet = 0; w < 1000 && quiet < 60; w++) {
                    std::ifstream is(files[k - 1]);
                    std::string   x;
                    size_t        m = 0;
                    items.clear();
                    while (std::getline(is, x)) {
                        std::string d = decode(x);
                        m++;
                        if (d.find("{\"msg\":\"burst\",\"items\":") == 0 && d.find(",\"time\":0,\"per\":0}") != std::string::npos) {
                            items.insert(std::stoul(d.substr(d.find("items\":") + 7)));
                        }
                    }
                    // complete, or nothing new for a while
                    quiet = m == n ? (m >= lines[k - 1] ? 60 : quiet + 1) : 0;
                    n     = m;
                    usleep(5000);
                }
                ev.f("k", k).f("n", n).f("good", items.size()).f("min", items.empty() ? 0 : *items.begin()).f("max", items.empty() ? 0 : *items.rbegin());
            } else if (op.name == "setlog") {
                std::string k = op.s(0), r = "ok";
                try {
                    if (k == "null") {
                        sse::logger::set_logger(nullptr);
                    } else {
                        auto& s = sinks[k];
                        if (!s) {
                            s = std::make_shared<Sink>();
                        }
                        auto l = std::make_shared<spdlog::logger>(op.has(1) ? op.s(1) : "v", s);
                        sse::logger::set_logger(l);
                    }
                } catch (std::exception& x) {
                    r = x.what();
                }
                ev.f("k", k).f("r", r);
            } else if (op.name == "msg") {
                std::string m = "m" + std::to_string(made++);
                sse::logger::logger()->warn(m);
                ev.f("m", m);
            } else if (op.name == "read") {
                // the last file is completed by moving the target elsewhere
                size_t      k = op.i(0);
                std::string o;
                for (int w = 0; w < 400; w++) {
                    std::ifstream is(files[k - 1]);
                    std::string   x;
                    size_t        n = 0;
                    o.clear();
                    while (std::getline(is, x)) {
                        o += (n++ ? "," : "") + decode(x);
                    }
                    if (n >= lines[k - 1]) {
                        if (w > 0) {
                            break;
                        }
                        usleep(2000); // once more: nothing must follow
                        continue;
                    }
                    usleep(5000);
                }
                ev.f("k", k).raw("r", "[" + o + "]");
            } else if (op.name == "sink") {
                ev.f("k", op.s(0)).f("r", sinks[op.s(0)] ? sinks[op.s(0)]->got : std::vector<std::string>());
            } else {
                _exit(3);
            }
            ev.emit();
        }
        first = 0;
    });
}
