// The dynamic schemes under kills and failing writes: client and server live in child processes.
#include "killpoints.hpp"
#include "dynlib.hpp"

namespace {
void phase(const Episode& e, Scheme& s, size_t from)
{
    std::vector<std::shared_ptr<Found>> keep;
    const int                           before = sh->faults;
    for (size_t i = from; i < e.ops.size(); i++) {
        const Op& op = e.ops[i];
        try {
            if (op.name == "open") {
                if (i != from) {
                    return; // not reached: every phase ends with kill or close
                }
                s.open(true, true);
                sh->opened = 1;
                Ev("open").emit();
            } else if (op.name == "kill") {
                die();
            } else if (op.name == "close") {
                sh->at      = 0;
                sh->closing = 1;
                s.close(true, true);
                Ev("close").emit();
                _exit(0);
            } else if (op.name == "armopen") {
                continue; // read by the parent
            } else if (op.name == "arm") {
                killpoints::arm(op.i(0), static_cast<int>(op.i(1)), op.has(2) ? op.i(2) : 1);
            } else if (op.name == "disarm" || op.name == "heal") {
                killpoints::arm(0, 0);
            } else if (op.name == "ins" || op.name == "rem") {
                Ev("begin").f("op", op.name).f("k", op.s(0)).f("v", op.i(1)).emit();
                Doc    d = elt<Doc>(static_cast<int>(op.i(1)));
                Update u = op.name == "ins" ? s.insert(kw(op.s(0)), d) : s.remove(kw(op.s(0)), d);
                Ev("issued").f("t", u.token).emit();
                u.apply();
                emit_ins(op.name.c_str(), op.s(0), op.i(1), u);
            } else if (op.name == "bulk") {
                std::vector<std::pair<std::string, Doc>> in;
                std::vector<std::string>                 ks;
                std::vector<long long>                   vs, ts;
                for (size_t i = 0; i + 1 < op.args.size(); i += 2) {
                    in.emplace_back(kw(op.s(i)), elt<Doc>(static_cast<int>(op.i(i + 1))));
                    ks.push_back(op.s(i));
                    vs.push_back(op.i(i + 1));
                }
                Ev("bbegin").f("k", ks).f("v", vs).emit();
                auto us = s.bulk(in);
                for (const Update& u : us) {
                    ts.push_back(u.token);
                }
                Ev("bissued").f("t", ts).emit();
                for (size_t i = 0; i < us.size(); i++) {
                    try {
                        us[i].apply();
                    } catch (const std::exception&) {
                        if (sh->faults == before) {
                            throw;
                        }
                        Ev("failed").f("op", "item").f("k", ks[i]).f("t", us[i].token).emit();
                        continue;
                    }
                    emit_ins("ins", ks[i], vs[i], us[i]);
                }
            } else if (op.name == "search") {
                Ev("sbegin").f("k", op.s(0)).emit();
                long long n = s.request(kw(op.s(0)));
                auto      f = std::make_shared<Found>();
                keep.push_back(f);
                s.run(op, 1, f);
                {
                    std::lock_guard<std::mutex> g(f->m);
                    f->returned = true;
                }
                Ev ev("search");
                ev.f("del", false).f("threads", op.has(2) ? op.i(2) : 0);
                emit_found("search", op.s(0), op.s(1), n, Locs(), *f, ev);
            } else {
                fprintf(stderr, "unknown op %s\n", op.name.c_str());
                _exit(3);
            }
        } catch (const Wrong& ex) {
            Ev("error").f("op", op.name).f("what", ex.what()).emit();
            _exit(7);
        } catch (const std::exception& ex) {
            if (sh->faults > before) {
                if (op.name == "open") {
                    Ev("openfail").emit();
                    _exit(0);
                }
                Ev("failed").f("op", op.name).f("k", op.s(0)).f("t", -1).emit();
                continue;
            }
            Ev("error").f("op", op.name).f("what", ex.what()).emit();
            _exit(7);
        }
    }
    die();
}
} // namespace

int main(int argc, char** argv)
{
    sse::logger::set_logger(spdlog::null_logger_mt("null"));
    killpoints::init();
    return run(argc, argv, [](const Episode& e) {
        g_hw         = 4;
        g_tok.hashed = g_mask.hashed = true;
        std::unique_ptr<Scheme> s = make_scheme(e.s("scheme"));
        s->dir                    = fresh("dyncrash");
        ::mkdir(s->dir.c_str(), 0700);
        killpoints::phases(e, [&](size_t from) { phase(e, *s, from); });
    });
}
