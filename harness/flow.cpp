// TethysGraph driven by scenarios.
#include "vh.hpp"

#include <sse/schemes/tethys/details/tethys_graph.hpp>
#include <sse/schemes/utils/logger.hpp>

#include <memory>
#include <spdlog/sinks/null_sink.h>

using namespace vh;
using namespace sse::tethys::details;

static VertexPtr vertex(const std::string& s)
{
    if (s == "s") {
        return kSourcePtr;
    }
    if (s == "t") {
        return kSinkPtr;
    }
    return VertexPtr(atoll(s.c_str()));
}
static long long vnum(const std::string& s)
{
    return s == "s" ? 100000 : s == "t" ? 100001 : atoll(s.c_str());
}

int main(int argc, char** argv)
{
    sse::logger::set_logger(spdlog::null_logger_mt("null"));
    return run(argc, argv, [](const Episode& e) {
        std::unique_ptr<TethysGraph> g;
        std::vector<EdgePtr>         ptrs;
        auto                         query = [](const std::function<size_t()>& f) -> long long {
            try {
                return static_cast<long long>(f());
            } catch (std::invalid_argument&) {
                return -1;
            }
        };
        for (const Op& op : e.ops) {
            if (op.name == "new") {
                std::string r = "ok";
                try {
                    g.reset(new TethysGraph(op.i(0)));
                    ptrs.clear();
                } catch (std::invalid_argument&) {
                    r = "range";
                }
                Ev("new").f("n", op.i(0)).f("r", r).emit();
            } else if (op.name == "move") {
                std::unique_ptr<TethysGraph> h(new TethysGraph(std::move(*g)));
                g = std::move(h);
                Ev("move").emit();
            } else if (op.name == "add") {
                std::string r = "ok", k = op.s(0);
                long long   i = -1;
                try {
                    EdgePtr p;
                    size_t  vi = 7000 + ptrs.size();
                    if (k == "source") {
                        p = g->add_edge_from_source(vi, op.i(3), op.i(2));
                    } else if (k == "sink") {
                        p = g->add_edge_to_sink(vi, op.i(3), op.i(1));
                    } else {
                        p = g->add_edge(vi, op.i(3), op.i(1), op.i(2));
                    }
                    i = p.index;
                    if (g->get_edge(p).value_index != vi) {
                        i = -2;
                    }
                    ptrs.push_back(p);
                } catch (std::invalid_argument&) {
                    r = "state";
                } catch (std::out_of_range&) {
                    r = "range";
                }
                Ev("add").f("k", k).f("s", op.i(1)).f("e", op.i(2)).f("c", op.i(3)).f("r", r).f("i", i).emit();
            } else if (op.name == "compute" || op.name == "pcompute") {
                std::string r = "ok";
                try {
                    if (op.name == "compute") {
                        g->compute_residual_maxflow();
                    } else if (op.has(0)) {
                        ThreadPool pool(op.i(0));
                        g->parallel_compute_residual_maxflow(pool);
                    } else {
                        g->parallel_compute_residual_maxflow();
                    }
                } catch (std::invalid_argument&) {
                    r = "state";
                }
                std::vector<long long> f, rest;
                for (auto p : ptrs) {
                    f.push_back(g->get_edge(p).rec_flow);
                    rest.push_back(g->get_edge(p).flow);
                }
                Ev("compute").f("how", op.name).f("f", f).f("rest", rest).f("r", r).emit();
            } else if (op.name == "transform") {
                std::string r = "ok";
                try {
                    g->transform_residual_to_flow();
                } catch (std::invalid_argument&) {
                    r = "state";
                }
                Ev("transform").f("r", r).emit();
            } else if (op.name == "total") {
                Ev("total").f("r", query([&] { return g->get_flow(); })).emit();
            } else if (op.name == "eflow" || op.name == "ecap") {
                if (op.i(0) >= (long long)ptrs.size()) {
                    continue;
                }
                Ev(op.name)
                    .f("i", op.i(0))
                    .f("r", query([&] {
                           return op.name == "eflow" ? g->get_edge_flow(ptrs[op.i(0)])
                                                     : g->get_edge_capacity(ptrs[op.i(0)]);
                       }))
                    .emit();
            } else if (op.name == "vflow" || op.name == "vcap") {
                VertexPtr v = vertex(op.s(0));
                bool      in = op.s(1) == "in";
                Ev(op.name)
                    .f("v", vnum(op.s(0)))
                    .f("d", op.s(1))
                    .f("r", query([&] {
                           if (op.name == "vflow") {
                               return in ? g->get_vertex_in_flow(v) : g->get_vertex_out_flow(v);
                           }
                           return in ? g->get_vertex_in_capacity(v) : g->get_vertex_out_capacity(v);
                       }))
                    .emit();
            } else {
                _exit(3);
            }
        }
    });
}
