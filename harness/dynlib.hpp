#pragma once
// The dynamic schemes (Sophos, Diana, Janus), client and server together, as the harnesses use them.
// Documents are numbered; every storage location (update token) and every mask is numbered when first seen.
#include "elt.hpp"
#ifdef SHAKE
#include "shake.hpp"
#else
namespace shake {
static volatile int on = 0;
}
#endif

#include <sse/schemes/diana/diana_client.hpp>
#include <sse/schemes/diana/diana_server.hpp>
#include <sse/schemes/janus/janus_client.hpp>
#include <sse/schemes/janus/janus_server.hpp>
#include <sse/schemes/sophos/sophos_client.hpp>
#include <sse/schemes/sophos/sophos_server.hpp>
#include <sse/schemes/utils/logger.hpp>

#include <algorithm>
#include <atomic>
#include <map>
#include <memory>
#include <set>
#include <thread>

#include <spdlog/sinks/null_sink.h>
#include <sys/stat.h>

using namespace vh;

static unsigned g_hw = 4;
unsigned int    std::thread::hardware_concurrency() noexcept
{
    return g_hw;
}

namespace {
using Doc = uint64_t;

struct Intern
{
    std::map<std::string, int> ids;
    bool                       hashed = false; // the same numbers in every process
    int                        of(const std::string& s)
    {
        if (hashed) {
            uint64_t h = 0xcbf29ce484222325ULL;
            for (unsigned char ch : s) {
                h = (h ^ ch) * 0x100000001b3ULL;
            }
            return static_cast<int>((h ^ (h >> 31)) & 0x3fffffff);
        }
        return ids.emplace(s, static_cast<int>(ids.size()) + 1).first->second;
    }
};
Intern g_tok, g_mask;
bool   g_windows = false;
std::mutex g_intern;

template<class A>
std::string bytes(const A& a)
{
    return std::string(reinterpret_cast<const char*>(a.data()), a.size());
}

// What one search reported
struct Found
{
    std::mutex                         m;
    std::vector<int>                   docs;
    std::vector<std::vector<long long>> pos;
    std::map<int, std::set<std::thread::id>> tids;
    int                                maxtid  = -1;
    bool                               haspos  = false;
    bool                               hasvec  = false;
    long long                          presize = 0;
    std::vector<int>                   vec;
    bool                               returned = false;
    int                                late     = 0;
    void                               doc(Doc d)
    {
        std::lock_guard<std::mutex> g(m);
        late += returned;
        docs.push_back(id_of(d));
    }
    void docpos(size_t p, Doc d)
    {
        std::lock_guard<std::mutex> g(m);
        late += returned;
        docs.push_back(id_of(d));
        pos.push_back({static_cast<long long>(std::min<size_t>(p, 2000000000)), id_of(d)});
    }
    void tid(int t)
    {
        std::lock_guard<std::mutex> g(m);
        tids[t].insert(std::this_thread::get_id());
        maxtid = std::max(maxtid, t);
    }
};

struct Update
{
    int                   token, mask = -1;
    std::vector<int>      windows; // the masks that can be read in the token
    std::function<void()> apply;
};
struct Locs
{
    std::vector<int> inside, beyond;
};

std::string kw(const std::string& s)
{
    return s == "@empty" ? "" : s;
}

// an answer that no failing disk excuses
struct Wrong : public std::runtime_error
{
    using std::runtime_error::runtime_error;
};

struct Scheme
{
    virtual ~Scheme() = default;
    std::string  dir;
    virtual void open(bool client, bool server)  = 0;
    virtual void close(bool client, bool server) = 0;
    virtual Update insert(const std::string& k, Doc d) = 0;
    virtual std::vector<Update> bulk(const std::vector<std::pair<std::string, Doc>>& l)
    {
        std::vector<Update> r;
        for (const auto& x : l) {
            r.push_back(insert(x.first, x.second));
        }
        return r;
    }
    virtual Update remove(const std::string&, Doc)
    {
        throw std::logic_error("no removal");
    }
    virtual void forget(const std::string&)
    {
        throw std::logic_error("no forget");
    }
    virtual long long count(const std::string&)
    {
        return -1;
    }
    // makes a request; returns the number of entries it announces
    virtual long long request(const std::string& k) = 0;
    virtual Locs      locations()                   = 0;
    virtual void      run(const Op& op, size_t a, std::shared_ptr<Found> f) = 0;

    Update update(const std::string& token, const std::string& payload, Doc d, bool masked)
    {
        std::lock_guard<std::mutex> g(g_intern);
        Update                      u;
        u.token = g_tok.of(token);
        if (masked) {
            std::string m(8, 0);
            Doc         p;
            memcpy(&p, payload.data(), 8);
            p ^= d;
            memcpy(&m[0], &p, 8);
            for (size_t i = 0; g_windows && i + 8 <= token.size(); i++) {
                std::string w = token.substr(i, 8);
                u.windows.push_back(g_mask.of(w));
                u.windows.push_back(g_mask.of(std::string(w.rbegin(), w.rend())));
            }
            u.mask = g_mask.of(m);
        }
        return u;
    }
};

struct Sophos : Scheme
{
    std::unique_ptr<sse::sophos::SophosClient> c;
    std::unique_ptr<sse::sophos::SophosServer> s;
    std::array<uint8_t, 32>                    k1, k2;
    std::string                                sk, pk;
    static thread_local sse::sophos::SearchRequest req;

    Sophos()
    {
        k1 = sse::crypto::random_bytes<uint8_t, 32>();
        k2 = sse::crypto::random_bytes<uint8_t, 32>();
        sse::crypto::TdpInverse t;
        sk = t.private_key();
        pk = t.public_key();
    }
    void open(bool client, bool server) override
    {
        if (client) {
            auto a = k1, b = k2;
            c.reset(new sse::sophos::SophosClient(
                dir + "/client", sk, sse::crypto::Key<32>(a.data()), sse::crypto::Key<32>(b.data())));
        }
        if (server) {
            s.reset(new sse::sophos::SophosServer(dir + "/server", pk));
        }
    }
    void close(bool client, bool server) override
    {
        if (client) {
            c.reset();
        }
        if (server) {
            s.reset();
        }
    }
    Update insert(const std::string& k, Doc d) override
    {
        auto   r = c->insertion_request(k, d);
        Update u = update(bytes(r.token), std::string(reinterpret_cast<char*>(&r.index), 8), d, true);
        u.apply  = [this, r]() { s->insert(r); };
        return u;
    }
    long long request(const std::string& k) override
    {
        req = c->search_request(k);
        return req.add_count;
    }
    Locs locations() override
    {
        Locs r;
        if (req.add_count == 0) {
            return r;
        }
        auto                  key = req.derivation_key;
        sse::crypto::Prf<16>  prf{sse::crypto::Key<32>(key.data())};
        sse::crypto::Tdp      tdp(pk);
        auto                  st = req.token;
        for (uint32_t i = 0; i < req.add_count + 4; i++) {
            sse::sophos::update_token_type ut;
            std::array<uint8_t, 16>        mask;
            sse::sophos::gen_update_token_masks(prf, st.data(), ut, mask);
            (i < req.add_count ? r.inside : r.beyond).push_back(g_tok.of(bytes(ut)));
            st = tdp.eval(st);
        }
        return r;
    }
    void run(const Op& op, size_t a, std::shared_ptr<Found> f) override
    {
        std::string           how = op.s(a);
        auto                  cb  = [f](Doc d) { f->doc(d); };
        std::list<Doc>        l;
        auto                  q = req; // a search consumes the derivation key of its request
        if (how == "seq") {
            l = s->search(q);
        } else if (how == "cb") {
            s->search_callback(q, cb);
        } else if (how == "par") {
            l = s->search_parallel(q, static_cast<uint8_t>(op.i(a + 1)));
        } else if (how == "light") {
            l = s->search_parallel_light(q, static_cast<uint8_t>(op.i(a + 1)));
        } else if (how == "parcb") {
            s->search_parallel_callback(q,
                                        cb,
                                        static_cast<uint8_t>(op.i(a + 1)),
                                        static_cast<uint8_t>(op.i(a + 2)),
                                        static_cast<uint8_t>(op.i(a + 3)));
        } else if (how == "lightcb") {
            s->search_parallel_light_callback(q, cb, static_cast<uint8_t>(op.i(a + 1)));
        } else {
            throw std::logic_error("unknown variant " + how);
        }
        for (Doc d : l) {
            f->doc(d);
        }
    }
};

struct Diana : Scheme
{
    std::unique_ptr<sse::diana::DianaClient<Doc>> c;
    std::unique_ptr<sse::diana::DianaServer<Doc>> s;
    std::array<uint8_t, 32>                       k1, k2;
    static thread_local std::unique_ptr<sse::diana::SearchRequest> req;

    Diana()
    {
        k1 = sse::crypto::random_bytes<uint8_t, 32>();
        k2 = sse::crypto::random_bytes<uint8_t, 32>();
    }
    void open(bool client, bool server) override
    {
        if (client) {
            auto a = k1, b = k2;
            c.reset(new sse::diana::DianaClient<Doc>(
                dir + "/client", sse::crypto::Key<32>(a.data()), sse::crypto::Key<32>(b.data())));
        }
        if (server) {
            s.reset(new sse::diana::DianaServer<Doc>(dir + "/server"));
        }
    }
    void close(bool client, bool server) override
    {
        if (client) {
            c.reset();
        }
        if (server) {
            s.reset();
        }
    }
    Update make(const sse::diana::UpdateRequest<Doc>& r, Doc d)
    {
        Update u = update(bytes(r.token), std::string(reinterpret_cast<const char*>(&r.index), 8), d, true);
        u.apply  = [this, r]() { s->insert(r); };
        return u;
    }
    Update insert(const std::string& k, Doc d) override
    {
        return make(c->insertion_request(k, d), d);
    }
    std::vector<Update> bulk(const std::vector<std::pair<std::string, Doc>>& l) override
    {
        std::list<std::pair<std::string, Doc>> in(l.begin(), l.end());
        auto                                   rs = c->bulk_insertion_request(in);
        std::vector<Update>                    u;
        if (rs.size() != l.size()) {
            throw Wrong("a bulk request gives " + std::to_string(rs.size()) + " updates");
        }
        size_t i = 0;
        for (const auto& r : rs) {
            u.push_back(make(r, l[i++].second));
        }
        return u;
    }
    void forget(const std::string& k) override
    {
        c->remove_keyword(k);
    }
    long long count(const std::string& k) override
    {
        return c->get_match_count(k);
    }
    long long request(const std::string& k) override
    {
        req.reset(new sse::diana::SearchRequest(c->search_request(k)));
        return req->add_count;
    }
    static void leaves(const sse::diana::SearchRequest& r, std::vector<int>& out, const std::string& prefix)
    {
        if (r.add_count == 0) {
            return;
        }
        for (uint64_t i = r.constrained_rcprf.min_leaf(); i <= r.constrained_rcprf.max_leaf(); i++) {
            auto                          st = r.constrained_rcprf.eval(i);
            sse::diana::update_token_type ut;
            Doc                           mask;
            sse::diana::gen_update_token_mask(st, ut, mask);
            out.push_back(g_tok.of(prefix + bytes(ut)));
        }
    }
    Locs locations() override
    {
        Locs r;
        leaves(*req, r.inside, "");
        return r;
    }
    std::atomic<unsigned> calls{0};
    void run(const Op& op, size_t a, std::shared_ptr<Found> f) override
    {
        std::string                                       how = op.s(a);
        auto                                              th  = static_cast<uint8_t>(op.i(a + 1));
        bool                                              del = op.i(a + 2) != 0;
        sse::diana::DianaServer<Doc>::basic_callback_type cb  = [f](Doc d) { f->doc(d); };
        std::list<Doc>                                    l;
        // a search that deletes nothing is asked for explicitly or by default
        bool plain = !del && (calls++ % 2) == 0;
        if (how == "seq") {
            l = plain ? s->search(*req) : s->search(*req, del);
        } else if (how == "cb") {
            plain ? s->search(*req, cb) : s->search(*req, cb, del);
        } else if (how == "par") {
            l = plain ? s->search_parallel(*req, th) : s->search_parallel(*req, th, del);
        } else if (how == "parcb") {
            plain ? s->search_parallel(*req, cb, th) : s->search_parallel(*req, cb, th, del);
        } else if (how == "partl") {
            f->haspos = true;
            sse::diana::DianaServer<Doc>::tl_callback_type tl = [f](size_t p, Doc d, uint8_t t) {
                f->docpos(p, d);
                f->tid(t);
            };
            plain ? s->search_parallel(*req, tl, th) : s->search_parallel(*req, tl, th, del);
        } else if (how == "parvec") {
            std::vector<Doc> v(static_cast<size_t>(op.i(a + 3)), elt<Doc>(777777));
            f->hasvec  = true;
            f->presize = op.i(a + 3);
            plain ? s->search_parallel(*req, th, v) : s->search_parallel(*req, th, v, del);
            for (Doc d : v) {
                f->vec.push_back(id_of(d));
            }
        } else {
            throw std::logic_error("unknown variant " + how);
        }
        for (Doc d : l) {
            f->doc(d);
        }
    }
};

struct Janus : Scheme
{
    std::unique_ptr<sse::janus::JanusClient>   c;
    std::unique_ptr<sse::janus::JanusServer>   s;
    std::array<uint8_t, 32>                    k1;
    static thread_local std::unique_ptr<sse::janus::SearchRequest> req;

    Janus()
    {
        k1 = sse::crypto::random_bytes<uint8_t, 32>();
    }
    void open(bool client, bool server) override
    {
        if (client) {
            auto a = k1;
            c.reset(new sse::janus::JanusClient(
                dir + "/csearch", dir + "/cadd", dir + "/cdel", sse::crypto::Key<32>(a.data())));
        }
        if (server) {
            s.reset(new sse::janus::JanusServer(dir + "/sadd", dir + "/sdel", dir + "/scache"));
        }
    }
    void close(bool client, bool server) override
    {
        if (client) {
            c.reset();
        }
        if (server) {
            s.reset();
        }
    }
    Update insert(const std::string& k, Doc d) override
    {
        auto   r = c->insertion_request(k, d);
        Update u = update("a" + bytes(r.token), "", d, false);
        u.apply  = [this, r]() { s->insert(r); };
        return u;
    }
    Update remove(const std::string& k, Doc d) override
    {
        auto   r = c->removal_request(k, d);
        Update u = update("d" + bytes(r.token), "", d, false);
        u.apply  = [this, r]() { s->remove(r); };
        return u;
    }
    long long request(const std::string& k) override
    {
        req.reset(new sse::janus::SearchRequest(c->search_request(k)));
        return req->insertion_search_request.add_count;
    }
    Locs locations() override
    {
        Locs r;
        Diana::leaves(req->insertion_search_request, r.inside, "a");
        Diana::leaves(req->deletion_search_request, r.inside, "d");
        return r;
    }
    void run(const Op& op, size_t a, std::shared_ptr<Found> f) override
    {
        std::string    how = op.s(a);
        auto           th  = static_cast<uint8_t>(op.i(a + 1));
        std::list<Doc> l;
        if (how == "seq") {
            l = s->search(*req);
        } else if (how == "par") {
            l = s->search_parallel(*req, th);
        } else if (how == "parcb") {
            std::function<void(Doc)> cb = [f](Doc d) { f->doc(d); };
            s->search_parallel(*req, th, cb);
        } else if (how == "partid") {
            std::function<void(Doc, uint8_t)> cb = [f](Doc d, uint8_t t) {
                f->doc(d);
                f->tid(t);
            };
            s->search_parallel(*req, th, cb);
        } else {
            throw std::logic_error("unknown variant " + how);
        }
        for (Doc d : l) {
            f->doc(d);
        }
    }
};

thread_local sse::sophos::SearchRequest                 Sophos::req;
thread_local std::unique_ptr<sse::diana::SearchRequest> Diana::req;
thread_local std::unique_ptr<sse::janus::SearchRequest> Janus::req;

std::unique_ptr<Scheme> make_scheme(const std::string& name)
{
    std::unique_ptr<Scheme> s;
    if (name == "sophos") {
        s.reset(new Sophos);
    } else if (name == "diana") {
        s.reset(new Diana);
    } else {
        s.reset(new Janus);
    }
    return s;
}

void emit_ins(const char* ev, const std::string& k, long long v, const Update& u)
{
    Ev(ev).f("k", k).f("v", v).f("t", u.token).f("m", u.mask).f("w", u.windows).emit();
}

void emit_found(const char* ev, const std::string& k, const std::string& how, long long n, const Locs& x, Found& f, Ev e)
{
    usleep(f.pos.empty() ? 50 : 100);
    std::lock_guard<std::mutex> g(f.m);
    std::sort(f.docs.begin(), f.docs.end());
    std::sort(f.pos.begin(), f.pos.end());
    int most = 0;
    for (const auto& t : f.tids) {
        most = std::max(most, static_cast<int>(t.second.size()));
    }
    e.f("k", k)
        .f("how", how)
        .f("n", n)
        .f("r", f.docs)
        .f("haspos", f.haspos)
        .f("p", f.pos)
        .f("hasvec", f.hasvec)
        .f("vec", f.vec)
        .f("presize", f.presize)
        .f("late", f.late)
        .f("maxtid", f.maxtid)
        .f("pertid", most)
        .f("x", x.inside)
        .f("y", x.beyond)
        .emit();
}

} // namespace
