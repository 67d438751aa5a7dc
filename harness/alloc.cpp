// TethysAllocator driven by scenarios.
#include "vh.hpp"

#include <sse/schemes/tethys/details/tethys_allocator.hpp>
#include <sse/schemes/utils/logger.hpp>

#include <memory>
#include <spdlog/sinks/null_sink.h>

using namespace vh;
using namespace sse::tethys::details;

int main(int argc, char** argv)
{
    sse::logger::set_logger(spdlog::null_logger_mt("null"));
    return run(argc, argv, [](const Episode& e) {
        TethysAllocator        a(e.i("nb"), e.i("page"));
        size_t                 n = 0; // accepted lists; list k (from 1) carries index k
        for (const Op& op : e.ops) {
            if (op.name == "insert") {
                std::string r = "ok";
                try {
                    size_t id = op.i(3) == -1 ? ~0UL : n + 1;
                    a.insert(TethysAllocatorKey(op.i(0), op.i(1), n % 2 ? ForcedLeft : ForcedRight), op.i(2), id);
                    n++;
                } catch (std::invalid_argument&) {
                    r = a.has_allocated() ? "state" : "invalid";
                } catch (std::out_of_range&) {
                    r = "invalid";
                }
                Ev("insert").f("u", op.i(0)).f("v", op.i(1)).f("len", op.i(2)).f("id", op.i(3)).f("r", r).emit();
            } else if (op.name == "query") {
                std::string r = "ok";
                try {
                    a.get_stashed_edges();
                    a.get_allocation_graph();
                } catch (std::invalid_argument&) {
                    r = "state";
                    try {
                        a.get_allocation_graph();
                        r = "half";
                    } catch (std::invalid_argument&) {
                    }
                }
                Ev("query").f("r", r).f("done", a.has_allocated()).emit();
            } else if (op.name == "allocate") {
                std::string r = "ok";
                try {
                    a.allocate();
                } catch (std::invalid_argument&) {
                    r = "state";
                }
                Ev ev("allocate");
                ev.f("r", r);
                if (a.has_allocated()) {
                    const TethysGraph&                  g = a.get_allocation_graph();
                    std::vector<long long>              pa(n, -7), pb(n, -7), stash;
                    std::vector<std::vector<long long>> parts;
                    auto                                clampi = [](size_t x) {
                        return x > 1000000000UL ? -9LL : static_cast<long long>(x);
                    };
                    size_t k = 0;
                    for (const Vertex& v : g.inner_vertices()) {
                        for (int side = 0; side < 2; side++) {
                            for (EdgePtr p : side == 0 ? v.out_edges : v.in_edges) {
                                const Edge& x = g.get_edge(p);
                                if (x.value_index == TethysAllocator::kEmptyIndexValue) {
                                    continue;
                                }
                                long long f = clampi(side == 0 ? x.flow : x.rec_flow);
                                long long i = clampi(x.value_index);
                                parts.push_back({static_cast<long long>(k), i, side, f});
                                if (i >= 1 && i <= (long long)n) {
                                    (side == 0 ? pa : pb)[i - 1] = f;
                                }
                            }
                        }
                        k++;
                    }
                    for (EdgePtr p : a.get_stashed_edges()) {
                        stash.push_back(clampi(g.get_edge(p).value_index));
                    }
                    ev.f("a", pa).f("b", pb).f("stash", stash).f("parts", parts);
                } else {
                    ev.raw("a", "[]").raw("b", "[]").raw("stash", "[]").raw("parts", "[]");
                }
                ev.emit();
            } else {
                _exit(3);
            }
        }
    });
}
