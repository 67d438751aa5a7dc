// The dynamic schemes, replaying histories.
#include "dynlib.hpp"

#include <sstream>

namespace {
void body(const Episode& ep)
{
    g_hw = static_cast<unsigned>(ep.i("hw", 4));
    g_tok.ids.clear();
    g_mask.ids.clear();
    g_mask.of(std::string(8, 0)); // the mask that hides nothing is number 1
    std::string             name = ep.s("scheme");
    std::unique_ptr<Scheme> s    = make_scheme(name);
    g_windows = ep.i("priv") != 0;
    s->dir = fresh("dyn");
    ::mkdir(s->dir.c_str(), 0700);
    s->open(true, true);
    bool priv = ep.i("priv") != 0;
    Rng  rng(static_cast<uint64_t>(ep.i("seed", 1)));
    int  sh = static_cast<int>(ep.i("shake"));
    std::vector<std::shared_ptr<Found>> keep;
    std::string                         last;
    long long                           lastn = 0;
    for (const Op& op : ep.ops) {
        try {
            if (op.name == "ins") {
                Update u = s->insert(kw(op.s(0)), elt<Doc>(static_cast<int>(op.i(1))));
                u.apply();
                emit_ins("ins", op.s(0), op.i(1), u);
            } else if (op.name == "rem") {
                Update u = s->remove(kw(op.s(0)), elt<Doc>(static_cast<int>(op.i(1))));
                u.apply();
                emit_ins("rem", op.s(0), op.i(1), u);
            } else if (op.name == "bulk") {
                std::vector<std::pair<std::string, Doc>> l;
                for (size_t i = 0; i + 1 < op.args.size(); i += 2) {
                    l.emplace_back(kw(op.s(i)), elt<Doc>(static_cast<int>(op.i(i + 1))));
                }
                auto us = s->bulk(l);
                for (size_t i = 0; i < us.size(); i++) {
                    us[i].apply();
                    emit_ins("ins", op.s(2 * i), op.i(2 * i + 1), us[i]);
                }
            } else if (op.name == "many") {
                // a run of insertions: documents v, v+1, ..., v+n-1 under one keyword
                int       v = static_cast<int>(op.i(1)), n = static_cast<int>(op.i(2)), first = -1;
                long long fresh_tokens = 0;
                int       step = static_cast<int>((op.has(3) ? op.i(3) : 0)) > 0 ? static_cast<int>((op.has(3) ? op.i(3) : 0)) : 1;
                for (int i = 0; i < n; i += step) {
                    std::vector<std::pair<std::string, Doc>> l;
                    for (int j = i; j < std::min(n, i + step); j++) {
                        l.emplace_back(kw(op.s(0)), elt<Doc>(v + j));
                    }
                    std::vector<Update> us;
                    if ((op.has(3) ? op.i(3) : 0) > 0) {
                        us = s->bulk(l);
                    } else {
                        us.push_back(s->insert(l[0].first, l[0].second));
                    }
                    for (Update& u : us) {
                        u.apply();
                        first = first < 0 ? u.token : first;
                        fresh_tokens += u.token == first + fresh_tokens;
                    }
                }
                Ev("many").f("k", op.s(0)).f("v", v).f("n", n).f("t", first).f("fresh", fresh_tokens).emit();
            } else if (op.name == "cins") {
                // concurrent requests from several threads, then the server gets them in another order;
                // "T:B" makes bulk requests of B insertions
                size_t                   T = std::stoul(op.s(0));
                size_t                   n = (op.args.size() - 1) / 2;
                size_t                   colon = op.s(0).find(':');
                size_t                   B = colon == std::string::npos ? 0 : std::stoul(op.s(0).substr(colon + 1));
                std::vector<Update>      us(n);
                std::vector<std::thread> th;
                std::atomic<size_t>      ready{0};
                std::atomic<bool>        bad{false};
                shake::on = sh;
                for (size_t t = 0; t < T; t++) {
                    th.emplace_back([&, t]() {
                        ready++;
                        while (ready < T) {
                        }
                        for (size_t i = t * B; B > 0 && i < n; i += T * B) {
                            std::vector<std::pair<std::string, Doc>> l;
                            for (size_t j = i; j < std::min(n, i + B); j++) {
                                l.emplace_back(kw(op.s(1 + 2 * j)), elt<Doc>(static_cast<int>(op.i(2 + 2 * j))));
                            }
                            try {
                                auto b = s->bulk(l);
                                if (b.size() != l.size()) {
                                    bad = true;
                                    continue;
                                }
                                for (size_t j = 0; j < b.size(); j++) {
                                    us[i + j] = b[j];
                                }
                            } catch (const std::exception&) {
                                bad = true;
                            }
                        }
                        for (size_t i = t; B == 0 && i < n; i += T) {
                            try {
                                us[i] = s->insert(kw(op.s(1 + 2 * i)), elt<Doc>(static_cast<int>(op.i(2 + 2 * i))));
                            } catch (const std::exception&) {
                                bad = true;
                            }
                        }
                    });
                }
                for (auto& t : th) {
                    t.join();
                }
                shake::on = 0;
                if (bad) {
                    throw std::runtime_error("an insertion request failed");
                }
                std::vector<size_t> order(n);
                for (size_t i = 0; i < n; i++) {
                    order[i] = i;
                }
                for (size_t i = n; i > 1; i--) {
                    std::swap(order[i - 1], order[rng.below(i)]);
                }
                for (size_t i : order) {
                    us[i].apply();
                    emit_ins("ins", op.s(1 + 2 * i), op.i(2 + 2 * i), us[i]);
                }
            } else if (op.name == "conc") {
                // insertions and searches at the same time: "i,keyword,document" and "s,keyword,variant,arguments"
                size_t                   T = static_cast<size_t>(op.i(0));
                size_t                   n = op.args.size() - 1;
                std::vector<std::thread> th;
                std::atomic<size_t>      ready{0};
                std::mutex               lg, updates;
                shake::on = sh;
                for (size_t t = 0; t < T; t++) {
                    th.emplace_back([&, t]() {
                        ready++;
                        while (ready < T) {
                        }
                        for (size_t i = t; i < n; i += T) {
                            Op                item;
                            std::stringstream ss(op.s(1 + i));
                            std::string       w, what, key;
                            std::getline(ss, what, ',');
                            std::getline(ss, key, ',');
                            while (std::getline(ss, w, ',')) {
                                item.args.push_back(w);
                            }
                            auto f = std::make_shared<Found>();
                            {
                                std::lock_guard<std::mutex> g(lg);
                                keep.push_back(f);
                                if (what == "i") {
                                    Ev("ibegin").f("id", i + 1).f("k", key).f("v", item.i(0)).emit();
                                } else {
                                    Ev("sbegin").f("id", i + 1).f("k", key).emit();
                                }
                            }
                            try {
                                if (what == "i") {
                                    Update u = s->insert(kw(key), elt<Doc>(static_cast<int>(item.i(0))));
                                    std::lock_guard<std::mutex> up(updates);
                                    u.apply();
                                    std::lock_guard<std::mutex> g(lg);
                                    Ev("iend").f("id", i + 1).f("t", u.token).emit();
                                } else {
                                    long long m = s->request(kw(key));
                                    s->run(item, 0, f);
                                    std::lock_guard<std::mutex> g(lg), g2(f->m);
                                    f->returned = true;
                                    std::vector<int> r = f->hasvec ? f->vec : f->docs;
                                    r.erase(std::remove(r.begin(), r.end(), 777777), r.end());
                                    std::sort(r.begin(), r.end());
                                    // the vector variant leaves a zero where an insertion has not arrived yet
                                    auto z = f->hasvec ? std::count(r.begin(), r.end(), 0) : 0;
                                    r.erase(r.begin(), r.begin() + z);
                                    Ev("send").f("id", i + 1).f("n", m).f("r", r).f("z", z).f("late", f->late).emit();
                                }
                            } catch (const std::exception& e) {
                                std::lock_guard<std::mutex> g(lg);
                                Ev("error").f("id", i + 1).f("what", e.what()).emit();
                            }
                        }
                    });
                }
                for (auto& t : th) {
                    t.join();
                }
                shake::on = 0;
            } else if (op.name == "forget") {
                s->forget(kw(op.s(0)));
                Ev("forget").f("k", op.s(0)).emit();
            } else if (op.name == "count") {
                Ev("count").f("k", op.s(0)).f("r", s->count(kw(op.s(0)))).emit();
            } else if (op.name == "reopen") {
                bool c = op.s(0) != "server", v = op.s(0) != "client";
                s->close(c, v);
                s->open(c, v);
                Ev("reopen").f("what", op.s(0)).emit();
            } else if (op.name == "search" || op.name == "again") {
                bool   fresh_req = op.name == "search";
                size_t a         = fresh_req ? 1 : 0;
                Locs   x;
                if (fresh_req) {
                    last  = op.s(0);
                    lastn = s->request(kw(last));
                    if (priv) {
                        x = s->locations();
                    }
                } else if (last.empty()) {
                    continue;
                }
                auto f = std::make_shared<Found>();
                keep.push_back(f);
                shake::on = sh;
                s->run(op, a, f);
                shake::on = 0;
                {
                    std::lock_guard<std::mutex> g(f->m);
                    f->returned = true;
                }
                bool del = name == "diana" && op.i(a + 2) != 0;
                Ev   e(op.name.c_str());
                e.f("del", del).f("threads", op.has(a + 1) ? op.i(a + 1) : 0);
                emit_found(op.name.c_str(), last, op.s(a), lastn, x, *f, e);
            } else if (op.name == "request") {
                // a request that is never sent: it must not lose anything that was stored before it
                last  = op.s(0);
                lastn = s->request(kw(last));
                Locs x;
                if (priv) {
                    x = s->locations();
                }
                Ev("request").f("k", last).f("n", lastn).f("x", x.inside).f("y", x.beyond).emit();
            } else {
                fprintf(stderr, "unknown op %s\n", op.name.c_str());
                _exit(3);
            }
        } catch (const std::exception& e) {
            shake::on = 0;
            Ev("error").f("op", op.name).f("what", e.what()).emit();
        }
    }
    s->close(true, true);
}
} // namespace

int main(int argc, char** argv)
{
    return run(argc, argv, [](const Episode& e) {
        static bool set = false;
        if (e.i("fresh")) { // the logger is created by the first call that needs it
            (void)!freopen("/dev/null", "w", stderr);
        } else if (!set) {
            sse::logger::set_logger(spdlog::null_logger_mt("null"));
            set = true;
        }
        body(e);
    });
}
