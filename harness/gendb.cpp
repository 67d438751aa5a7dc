// gen_db: the call-backs of one generation, grouped by document.
#include "vh.hpp"

#include <sse/crypto/standin.hpp>
#include <sse/schemes/utils/db_generator.hpp>
#include <sse/schemes/utils/logger.hpp>

#include <map>
#include <mutex>
#include <unordered_map>

using namespace vh;

static unsigned n_cpus = 1;
unsigned int    std::thread::hardware_concurrency() noexcept
{
    return n_cpus;
}

struct Entry
{
    std::string f;
    long        t, i;
};

static bool number(const std::string& s, long& n)
{
    if (s.empty() || s.size() > 9 || s.find_first_not_of("0123456789") != std::string::npos) {
        return false;
    }
    n = std::stol(s);
    return true;
}

// "Group-20_<thread>_<i>", "Group-[rand-]10^k_<thread>_<i>", "<percent>_<i>_<1|2>"
static Entry parse(const std::string& kw)
{
    auto a = kw.find('_');
    auto b = a == std::string::npos ? a : kw.find('_', a + 1);
    if (b != std::string::npos) {
        std::string x = kw.substr(0, a), y = kw.substr(a + 1, b - a - 1), z = kw.substr(b + 1);
        long        n, m;
        if (number(y, n) && number(z, m)) {
            return kw.compare(0, 6, "Group-") == 0 ? Entry{x, n, m} : Entry{x + "_" + z, 0, n};
        }
    }
    return {kw, -1, -1};
}

// a large generation: only the sizes of the groups are kept, as runs of equal consecutive groups
static void big(size_t n)
{
    struct Family
    {
        std::vector<std::array<long, 3>> runs; // first group, size of each, how many
        long                             cur = -1, size = 0;
        void close()
        {
            if (cur >= 0) {
                if (!runs.empty() && runs.back()[1] == size && runs.back()[0] + runs.back()[2] == cur) {
                    runs.back()[2]++;
                } else {
                    runs.push_back({cur, size, 1});
                }
            }
            size = 0;
        }
        void add(long i)
        {
            if (i != cur) {
                close();
                cur = i;
            }
            size++;
        }
    };
    std::mutex                                               mtx;
    std::map<long, std::unordered_map<std::string, Family>>  groups;
    std::unordered_map<std::string, std::map<std::pair<long, long>, size_t>> rand;
    std::unordered_map<std::string, std::array<long, 3>>     others; // calls, smallest, largest number
    std::atomic<long>                                        running{0}, late{0};
    std::atomic<bool>                                        returned{false};
    sse::sophos::gen_db(n, [&](const std::string& kw, size_t) {
        running++;
        late += returned;
        Entry k = parse(kw);
        {
            std::lock_guard<std::mutex> lock(mtx);
            if (k.f.compare(0, 11, "Group-rand-") == 0) {
                rand[k.f][{k.t, k.i}]++;
            } else if (k.f.compare(0, 6, "Group-") == 0) {
                groups[k.t][k.f].add(k.i);
            } else {
                auto it = others.emplace(k.f, std::array<long, 3>{0, k.i, k.i});
                it.first->second[0]++;
                it.first->second[1] = std::min(it.first->second[1], k.i);
                it.first->second[2] = std::max(it.first->second[2], k.i);
            }
        }
        running--;
    });
    long at_return = running;
    returned       = true;
    std::this_thread::sleep_for(std::chrono::milliseconds(15));
    std::lock_guard<std::mutex> lock(mtx);
    std::string                 th, ra, ot;
    for (auto& t : groups) {
        std::string fs;
        for (auto& f : t.second) {
            f.second.close();
            std::string rs;
            for (auto& r : f.second.runs) {
                rs += (rs.empty() ? "[" : ",[") + std::to_string(r[0]) + "," + std::to_string(r[1]) + "," + std::to_string(r[2]) + "]";
            }
            fs += (fs.empty() ? "" : ",") + std::string("{\"f\":") + quote(f.first) + ",\"runs\":[" + rs + "]}";
        }
        th += (th.empty() ? "" : ",") + std::string("{\"t\":") + std::to_string(t.first) + ",\"fams\":[" + fs + "]}";
    }
    for (auto& f : rand) {
        size_t most = 0;
        long   low  = 0;
        for (auto& g : f.second) {
            most = std::max(most, g.second);
            low  = std::min({low, g.first.first, g.first.second});
        }
        ra += (ra.empty() ? "" : ",") + std::string("{\"f\":") + quote(f.first) + ",\"most\":" + std::to_string(most) + ",\"low\":" + std::to_string(low) + "}";
    }
    for (auto& f : others) {
        ot += (ot.empty() ? "" : ",") + std::string("{\"f\":") + quote(f.first) + ",\"n\":" + std::to_string(f.second[0]) + ",\"lo\":"
              + std::to_string(f.second[1]) + ",\"hi\":" + std::to_string(f.second[2]) + "}";
    }
    Ev("whole").f("n", n).raw("threads", "[" + th + "]").raw("rand", "[" + ra + "]").raw("percent", "[" + ot + "]").f("running", at_return)
        .f("late", late.load()).emit();
}

int main(int argc, char** argv)
{
    sse::logger::set_logger(nullptr);
    return run(argc, argv, [](const Episode& e) {
        for (const Op& op : e.ops) {
            size_t n     = op.i(0);
            n_cpus       = static_cast<unsigned>(op.i(1));
            if (op.name == "big") {
                big(n);
                continue;
            }
            int sleep_us = static_cast<int>(op.i(2));
            Ev("gen").f("n", n).f("threads", n_cpus).emit();
            std::mutex                                        mtx;
            std::vector<std::vector<Entry>>                   docs;
            std::map<size_t, size_t>                          of_index;
            std::atomic<long>                                 running{0}, late{0}, calls{0};
            std::atomic<bool>                                 returned{false};
            sse::sophos::gen_db(n, [&](const std::string& kw, size_t ind) {
                running++;
                if (returned) {
                    late++;
                }
                if (sleep_us != 0 && calls++ % 97 == 0) {
                    std::this_thread::sleep_for(std::chrono::microseconds(sleep_us));
                }
                {
                    std::lock_guard<std::mutex> lock(mtx);
                    auto                        it = of_index.emplace(ind, docs.size());
                    if (it.second) {
                        docs.emplace_back();
                    }
                    docs[it.first->second].push_back(parse(kw));
                }
                running--;
            });
            long at_return = running;
            returned       = true;
            if (sleep_us != 0) {
                std::this_thread::sleep_for(std::chrono::milliseconds(15));
            }
            {
                std::lock_guard<std::mutex> lock(mtx);
                for (const auto& d : docs) {
                    std::string r;
                    long        t = -1;
                    for (const Entry& k : d) {
                        if (k.f.compare(0, 6, "Group-") == 0 && t == -1) {
                            t = k.t;
                        }
                        r += (r.empty() ? "[" : ",") + std::string("{\"f\":") + quote(k.f) + ",\"t\":" + std::to_string(k.t)
                             + ",\"i\":" + std::to_string(k.i) + "}";
                    }
                    Ev("doc").f("t", t).raw("r", r + "]").emit();
                }
            }
            Ev("return").f("running", at_return).f("late", late.load()).emit();
        }
    });
}
