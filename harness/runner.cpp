// The RPC services of Sophos and Diana and their clients, over the in-process gRPC stand-in.
#include "vh.hpp"
#ifdef SHAKE
#include "shake.hpp"
#else
namespace shake {
static volatile int on = 0;
}
#endif
#define DIANA_CLIENT_RUNNER_CPP
#define SOPHOS_CLIENT_RUNNER_CPP
#include "protos/diana.grpc.pb.h"
#include "protos/sophos.grpc.pb.h"

#include <sse/runners/diana/client_runner.hpp>
#include <sse/runners/diana/server_runner.hpp>
#include <sse/runners/sophos/sophos_client_runner.hpp>
#include <sse/runners/sophos/sophos_server_runner.hpp>
#include <sse/schemes/utils/logger.hpp>

#include <algorithm>
#include <list>
#include <spdlog/sinks/null_sink.h>
#include <spdlog/spdlog.h>
#include <sys/stat.h>
#include <thread>

using namespace vh;

static unsigned g_hw = 4;
unsigned int    std::thread::hardware_concurrency() noexcept
{
    return g_hw;
}

namespace {
bool g_wide = false;

uint64_t doc(long long id)
{
    uint64_t x = static_cast<uint64_t>(id);
    return g_wide && id != 0 ? x | (Rng(x).next() << 24) : x;
}
long long id_of_doc(uint64_t d)
{
    long long id = static_cast<long long>(d & 0xffffff);
    return doc(id) == d ? id : -1;
}
std::string kw(const std::string& s)
{
    return s == "@empty" ? "" : s;
}

struct DianaT
{
    using Client = sse::diana::DianaClientRunner;
    using Server = sse::diana::DianaServerRunner;
    using Net    = sse::diana::Diana;
    using Setup  = sse::diana::SetupMessage;
    using Search = sse::diana::SearchRequestMessage;
    using Reply  = sse::diana::SearchReply;
    using Update = sse::diana::UpdateRequestMessage;
    static void list(Client& c, const std::list<std::pair<std::string, uint64_t>>& l)
    {
        c.insert_in_session(l);
    }
    // the material of a setup, of a given size (32 is right)
    static bool setup(Setup& m, const std::string& arg)
    {
        size_t n = static_cast<size_t>(atoll(arg.c_str()));
        m.set_wrapping_key(std::string(n, 'k'));
        return n == 32;
    }
    static bool search(Search& m, const Op& o)
    {
        m.set_kw_token(std::string(static_cast<size_t>(o.i(0)), 't'));
        m.set_constrained_rcprf_rep(std::string(static_cast<size_t>(o.i(1)), 'r'));
        m.set_add_count(static_cast<uint32_t>(o.i(2)));
        return false; // not a constrained key of the user
    }
};
struct SophosT
{
    using Client = sse::sophos::SophosClientRunner;
    using Server = sse::sophos::SophosServerRunner;
    using Net    = sse::sophos::Sophos;
    using Setup  = sse::sophos::SetupMessage;
    using Search = sse::sophos::SearchRequestMessage;
    using Reply  = sse::sophos::SearchReply;
    using Update = sse::sophos::UpdateRequestMessage;
    static void list(Client& c, const std::list<std::pair<std::string, uint64_t>>& l)
    {
        for (const auto& p : l) {
            c.insert_in_session(p.first, p.second);
        }
    }
    static bool setup(Setup& m, const std::string& arg)
    {
        size_t n = static_cast<size_t>(atoll(arg.c_str()));
        m.set_public_key(n == 32 ? "PKabcdefgh" : std::string(n % 8, 'P'));
        return n == 32;
    }
    static bool search(Search& m, const Op& o)
    {
        m.set_search_token(std::string(static_cast<size_t>(o.i(0)), 't'));
        m.set_derivation_key(std::string(static_cast<size_t>(o.i(1)), 'r'));
        m.set_add_count(static_cast<uint32_t>(o.i(2)));
        return o.i(0) == static_cast<long long>(sse::sophos::kSearchTokenSize)
               && o.i(1) == static_cast<long long>(sse::sophos::kDerivationKeySize);
    }
};

using Pair = std::pair<std::string, long long>;

std::string pairs(const std::vector<Pair>& l)
{
    std::string s = "[";
    for (const auto& p : l) {
        s += (s.size() > 1 ? ",[" : "[") + quote(p.first) + "," + std::to_string(p.second) + "]";
    }
    return s + "]";
}

template<class S>
void episode(const Episode& ep)
{
    const std::string dir  = fresh("runner"), addr = "127.0.0.1:" + std::to_string(4000 + ep.i("port"));
    const long        miss = grpc::standin_misuse();
    mkdir(dir.c_str(), 0700);
    std::unique_ptr<typename S::Server> server;
    std::unique_ptr<typename S::Client> client;
    int                                 others = 0;
    bool                                async  = true;
    auto channel = [&] { return grpc::CreateChannel(addr, grpc::InsecureChannelCredentials()); };
    auto stub    = [&] { return S::Net::NewStub(channel()); };
    auto search  = [&](const std::string& k) {
        std::vector<long long> seen;
        std::list<uint64_t>    r;
        bool                   threw = false;
        try {
            r = client->search(kw(k), [&](uint64_t d) { seen.push_back(id_of_doc(d)); });
        } catch (const std::exception&) {
            threw = true;
        }
        std::vector<long long> got;
        for (uint64_t d : r) {
            got.push_back(id_of_doc(d));
        }
        bool same = got == seen && !threw;
        std::sort(got.begin(), got.end());
        Ev("search").f("k", k).f("r", got).f("same", same).emit();
    };
    // the keyword/document pairs from argument `from` on
    auto read_pairs = [](const Op& o, size_t from) {
        std::vector<Pair> l;
        for (size_t i = from; i + 1 < o.args.size(); i += 2) {
            l.emplace_back(o.s(i), o.i(i + 1));
        }
        return l;
    };
    bool in_session = false;
    auto update     = [&](const Pair& p, bool session) {
        if (session) {
            client->insert_in_session(kw(p.first), doc(p.second));
        } else {
            client->insert(kw(p.first), doc(p.second));
        }
    };
    for (const Op& o : ep.ops) {
        if (o.name == "start") {
            bool ok = true;
            try {
                if (ep.i("builder")) {
                    grpc::ServerBuilder b;
                    b.AddListeningPort(addr, grpc::InsecureServerCredentials());
                    server.reset(new typename S::Server(b, dir + "/server.db"));
                } else {
                    server.reset(new typename S::Server(addr, dir + "/server.db"));
                }
                server->set_async_search(async);
            } catch (const std::exception&) {
                ok = false;
            }
            Ev("start").f("ok", ok).emit();
            if (!ok) {
                break;
            }
        } else if (o.name == "async") {
            async = o.i(0) != 0;
            if (server) {
                server->set_async_search(async);
            }
        } else if (o.name == "stop") {
            server->shutdown();
            server.reset();
            Ev("stop").emit();
        } else if (o.name == "open") {
            bool ok = true;
            try {
                client.reset(new typename S::Client(channel(), dir + "/client.db"));
            } catch (const std::exception&) {
                ok = false;
            }
            Ev("open").f("ok", ok).emit();
        } else if (o.name == "intrude") {
            bool ok = true;
            try {
                typename S::Client c(channel(), dir + "/other" + std::to_string(others));
            } catch (const std::exception&) {
                ok = false;
            }
            others += o.has(0) ? 0 : 1; // "intrude again" will use the same directory
            Ev("intrude").f("ok", ok).emit();
        } else if (o.name == "close") {
            client.reset();
            Ev("close").emit();
        } else if (!client && (o.name == "upd" || o.name == "cupd" || o.name == "slist" || o.name == "mix" || o.name == "load" || o.name == "noload"
                               || o.name == "search" || o.name == "csearch" || o.name == "sopen" || o.name == "sclose" || o.name == "nosess")) {
            continue; // the client could not be opened
        } else if (o.name == "upd") { // single or in_session, as the runner sees fit
            auto l = read_pairs(o, 0);
            for (const auto& p : l) {
                update(p, false);
            }
            Ev("upd").raw("l", pairs(l)).emit();
        } else if (o.name == "slist") {
            auto                                        l = read_pairs(o, 0);
            std::list<std::pair<std::string, uint64_t>> u;
            for (const auto& p : l) {
                u.emplace_back(kw(p.first), doc(p.second));
            }
            S::list(*client, u);
            Ev("upd").raw("l", pairs(l)).emit();
        } else if (o.name == "cupd" || o.name == "mix") { // <threads> [<keyword searched>] pairs...
            bool                     mix = o.name == "mix";
            size_t                   n   = static_cast<size_t>(o.i(0));
            auto                     l   = read_pairs(o, mix ? 2 : 1);
            std::vector<std::thread> ts;
            std::atomic<size_t>      ready(0);
            shake::on = static_cast<int>(ep.i("shake"));
            for (size_t t = 0; t < n; t++) {
                ts.emplace_back([&, t] {
                    ready++;
                    while (ready < n) {
                        std::this_thread::yield();
                    }
                    for (size_t i = t; i < l.size(); i += n) {
                        update(l[i], in_session);
                    }
                });
            }
            if (mix) {
                search(o.s(1));
                search(o.s(1));
            }
            for (auto& t : ts) {
                t.join();
            }
            shake::on = 0;
            Ev("upd").raw("l", pairs(l)).emit();
        } else if (o.name == "csearch") {
            std::vector<std::thread> ts;
            shake::on = static_cast<int>(ep.i("shake"));
            for (const auto& k : o.args) {
                ts.emplace_back([&, k] { search(k); });
            }
            for (auto& t : ts) {
                t.join();
            }
            shake::on = 0;
        } else if (o.name == "search") {
            search(o.s(0));
        } else if (o.name == "sopen") {
            client->start_update_session();
            in_session = true;
            Ev("sopen").emit();
        } else if (o.name == "sclose") {
            client->end_update_session();
            in_session = false;
            Ev("sclose").emit();
        } else if (o.name == "nosess") {
            bool ok = true;
            try {
                if (o.has(2)) {
                    S::list(*client, {{kw(o.s(0)), doc(o.i(1))}, {kw(o.s(0)), doc(o.i(1))}});
                } else {
                    update({o.s(0), o.i(1)}, true);
                }
            } catch (const std::exception&) {
                ok = false;
            }
            Ev("nosess").f("ok", ok).emit();
        } else if (o.name == "load") { // keyword:doc,doc,... (documents are not wide here)
            std::string   f = dir + "/load.json", l = "[";
            std::ofstream j(f);
            j << "{";
            for (size_t i = 0; i < o.args.size(); i++) {
                size_t      c = o.s(i).find(':');
                std::string k = o.s(i).substr(0, c), d = o.s(i).substr(c + 1);
                j << (i ? ", " : "") << "\"" << k << "\": [" << d << "]";
                l += (i ? ",[" : "[") + quote(k) + ",[" + d + "]]";
            }
            j << "}";
            j.close();
            bool ok = client->load_inverted_index(f);
            Ev("load").raw("l", l + "]").f("ok", ok).emit();
        } else if (o.name == "noload") {
            bool ok = client->load_inverted_index(dir + "/missing.json");
            Ev("noload").f("ok", ok).emit();
        } else if (o.name == "rsetup") {
            grpc::ClientContext     ctx;
            typename S::Setup       m;
            google::protobuf::Empty e;
            bool                    good = S::setup(m, o.s(0));
            bool                    ok   = stub()->setup(&ctx, m, &e).ok();
            Ev("rawsetup").f("good", good).f("ok", ok).emit();
        } else if (o.name == "rins") {
            grpc::ClientContext     ctx;
            typename S::Update      m;
            google::protobuf::Empty e;
            m.set_update_token(std::string(static_cast<size_t>(o.i(0)), static_cast<char>('A' + o.i(0) % 20)));
            m.set_index(7);
            bool ok = stub()->insert(&ctx, m, &e).ok();
            Ev("raw").f("what", "insert").f("good", o.i(0) == 16).f("ok", ok).f("n", 0).emit();
        } else if (o.name == "rbulk") {
            grpc::ClientContext     ctx;
            google::protobuf::Empty e;
            auto                    st   = stub();
            auto                    w    = st->bulk_insert(&ctx, &e);
            bool                    good = true;
            for (size_t i = 0; i < o.args.size(); i++) {
                typename S::Update m;
                m.set_update_token(std::string(static_cast<size_t>(o.i(i)), static_cast<char>('a' + i % 20)));
                m.set_index(9);
                good = good && o.i(i) == 16;
                if (!w->Write(m)) {
                    break;
                }
            }
            w->WritesDone();
            bool ok = w->Finish().ok();
            Ev("raw").f("what", "bulk").f("good", good).f("ok", ok).f("n", 0).emit();
        } else if (o.name == "rsearch" || o.name == "rreplay") {
            grpc::ClientContext ctx;
            typename S::Search  m;
            bool                good = false;
            if (o.name == "rsearch") {
                good = S::search(m, o);
            } else {
                auto& last = grpc::StandinLast<typename S::Search>::get();
                if (!last.set || !ep.i("diana")) {
                    continue;
                }
                m = last.v;
                m.set_add_count(m.add_count() + static_cast<uint32_t>(o.i(0)));
            }
            auto              st = stub();
            auto              r  = st->search(&ctx, m);
            typename S::Reply rep;
            int               n = 0;
            while (r->Read(&rep)) {
                n++;
            }
            bool ok = r->Finish().ok();
            Ev("raw").f("what", "search").f("good", good).f("ok", ok).f("n", n).emit();
        } else {
            fprintf(stderr, "unknown operation %s\n", o.name.c_str());
            _exit(3);
        }
    }
    client.reset();
    if (server) {
        server->shutdown();
        server.reset();
    }
    grpc::StandinLast<typename S::Search>::get().set = false;
    Ev("done").f("misuse", static_cast<long long>(grpc::standin_misuse() - miss)).emit();
}
} // namespace

int main(int argc, char** argv)
{
    return run(argc, argv, [](const Episode& ep) {
        auto l = spdlog::get("runner_null");
        if (!l) {
            l = spdlog::null_logger_mt("runner_null");
        }
        sse::logger::set_logger(l);
        g_hw   = static_cast<unsigned>(ep.i("hw", 4));
        g_wide = ep.i("wide") != 0;
#ifdef SHAKE
        shake::step = static_cast<uint64_t>(ep.i("seed")) * 77 + 1;
#endif
        Ev("Reset").f("scheme", ep.s("scheme")).emit();
        if (ep.s("scheme") == "diana") {
            episode<DianaT>(ep);
        } else {
            episode<SophosT>(ep);
        }
    });
}
