// The persistent stores under kills.  Every phase (from one open to the next) runs in its own
// child process, which is killed with SIGKILL either between two operations or at a chosen
// write-like system call (before it, in the middle of it, or after it).
#include "killpoints.hpp"

#include <sse/schemes/abstractio/awonvm_vector.hpp>
#include <sse/schemes/abstractio/scheduler.hpp>
#include <sse/schemes/utils/logger.hpp>
#include <sse/schemes/utils/rocksdb_wrapper.hpp>

#include <array>
#include <dirent.h>
#include <list>
#include <memory>

#include <spdlog/sinks/null_sink.h>

using namespace vh;
using sse::sophos::RockDBListStore;
using sse::sophos::RockDBWrapper;
using sse::sophos::RocksDBCounter;

// ---------------------------------------------------------------- values
using elt = std::array<uint8_t, 5>;
namespace sse {
namespace sophos {
template<>
struct serialization<elt>
{
    std::string serialize(const elt& e)
    {
        return std::string(e.begin(), e.end());
    }
    bool deserialize(std::string::iterator& begin, const std::string::iterator& end, elt& out)
    {
        if (end - begin < 5) {
            return false;
        }
        std::copy(begin, begin + 5, out.begin());
        begin += 5;
        return true;
    }
};
} // namespace sophos
} // namespace sse

static std::array<uint8_t, 16> mk_key(const std::string& n)
{
    std::array<uint8_t, 16> k;
    k.fill(0x11);
    memcpy(k.data(), n.data(), std::min<size_t>(16, n.size()));
    return k;
}
template<size_t N>
static std::array<uint8_t, N> mk_val(long long n)
{
    std::array<uint8_t, N> v;
    Rng                    r(0xd00d + n);
    for (auto& x : v) {
        x = r.next();
    }
    return v;
}
template<size_t N>
static std::string name(const std::array<uint8_t, N>& v)
{
    for (int k = 0; k < 400; k++) {
        if (mk_val<N>(k) == v) {
            return std::to_string(k);
        }
    }
    return "bad";
}
struct alignas(512) Sector
{
    uint8_t b[512];
};
static Sector mk_sector(long long n)
{
    Sector s;
    Rng    r(n * 77 + 5);
    for (auto& x : s.b) {
        x = r.next();
    }
    return s;
}
static std::string sector_name(const Sector& s)
{
    for (int k = 0; k < 400; k++) {
        if (memcmp(mk_sector(k).b, s.b, 512) == 0) {
            return std::to_string(k);
        }
    }
    return "bad";
}

struct Store
{
    std::unique_ptr<RockDBWrapper>                        map;
    std::unique_ptr<RocksDBCounter>                       cnt;
    std::unique_ptr<RockDBListStore<elt>>                 lst;
    std::unique_ptr<sse::abstractio::awonvm_vector<Sector, 512>> vec;
};

static void begin(const char* op, const std::string& k, const std::string& v)
{
    Ev("begin").f("op", op).f("k", k).f("v", v).emit();
}
static void begin(const char* op, const std::string& k, long long v)
{
    Ev("begin").f("op", op).f("k", k).f("v", v).emit();
}
static void end(bool ok, long long r = -1)
{
    Ev("end").f("ok", ok).f("r", r).emit();
}

using svec = sse::abstractio::awonvm_vector<Sector, 512>;
static std::unique_ptr<svec> open_vec(const Episode& e, const std::string& path)
{
    using namespace sse::abstractio;
    bool direct = e.i("direct") != 0;
    if (e.s("sched") == "tp") {
        return std::unique_ptr<svec>(
            new svec(path, std::unique_ptr<Scheduler>(make_thread_pool_aio_scheduler()), direct));
    }
    if (e.s("sched") == "aio") {
        return std::unique_ptr<svec>(
            new svec(path, std::unique_ptr<Scheduler>(make_linux_aio_scheduler(512, 16)), direct));
    }
    return std::unique_ptr<svec>(new svec(path, std::unique_ptr<Scheduler>(), direct));
}

// changes one byte of every table file of a database
static void scratch(const std::string& path, long at)
{
    DIR* d = opendir(path.c_str());
    if (!d) {
        return;
    }
    while (struct dirent* f = readdir(d)) {
        std::string n = f->d_name;
        if (n.size() > 4 && n.substr(n.size() - 4) == ".sst") {
            int     fd = ::open((path + "/" + n).c_str(), O_RDWR);
            uint8_t b  = 0;
            if (syscall(SYS_pread64, fd, &b, 1, at) == 1) {
                b ^= 0x41;
                syscall(SYS_pwrite64, fd, &b, 1, at);
            }
            ::close(fd);
        }
    }
    closedir(d);
}

// runs ops[from..] up to the next "open"; the first one is an "open"
static void phase(const Episode& e, const std::string& path, size_t from)
{
    Store       s;
    std::string kind = e.s("kind");
    std::string content;
    for (size_t i = from; i < e.ops.size(); i++) {
        const Op& op = e.ops[i];
        if (op.name == "open") {
            if (i != from) {
                return; // not reached: every phase ends with kill or close
            }
            bool ok = true;
            if (i + 1 < e.ops.size() && e.ops[i + 1].name == "scratch") {
                scratch(path, e.ops[i + 1].i(0));
                Ev("scratched").emit();
            }
            try {
                if (kind == "map") {
                    s.map.reset(new RockDBWrapper(path));
                } else if (kind == "counter") {
                    s.cnt.reset(new RocksDBCounter(path));
                } else if (kind == "list") {
                    s.lst.reset(new RockDBListStore<elt>(path));
                } else {
                    s.vec = open_vec(e, path);
                }
            } catch (std::exception& ex) {
                fprintf(stderr, "open: %s\n", ex.what());
                ok = false;
            }
            sh->opened = 1;
            Ev("open").f("r", ok).emit();
            if (!ok) {
                _exit(sh->faults ? 0 : 7); // with faults, the next phase tries again
            }
        } else if (op.name == "kill") {
            die();
        } else if (op.name == "close") {
            sh->at      = 0;
            sh->closing = !s.vec; // RocksDB only
            s           = Store();
            Ev("close").emit();
            _exit(0);
        } else if (op.name == "armopen" || op.name == "scratch") {
            continue; // already done
        } else if (op.name == "heal") {
            sh->at = 0;
        } else if (op.name == "arm") {
            killpoints::arm(op.i(0), static_cast<int>(op.i(1)), op.has(2) ? op.i(2) : 1);
        } else if (op.name == "flush") {
            if (sh->faults) {
                continue; // this RocksDB build asserts that nobody flushes after a failed write
            }
            if (s.map) {
                s.map->flush(true);
            } else if (s.cnt) {
                s.cnt->flush(true);
            } else if (s.lst) {
                s.lst->flush(true);
            }
            Ev("flush").emit();
        } else if (op.name == "remove") {
            begin("remove", op.s(0), 0LL);
            end(s.map ? s.map->remove(mk_key(op.s(0))) : s.cnt->remove_key(op.s(0)));
        } else if (op.name == "put") {
            if (s.map) {
                begin("put", op.s(0), op.s(1));
                end(s.map->put(mk_key(op.s(0)), mk_val<24>(op.i(1))));
            } else if (s.cnt) {
                begin("put", op.s(0), op.i(1));
                end(s.cnt->set(op.s(0), op.i(1)));
            } else {
                std::string    names;
                std::list<elt> l;
                for (size_t j = 1; j < op.args.size(); j++) {
                    l.push_back(mk_val<5>(op.i(j)));
                    names += op.s(j) + ",";
                }
                begin("put", op.s(0), names);
                end(s.lst->put(mk_key(op.s(0)), l));
            }
        } else if (op.name == "gai") {
            uint32_t v = 99999;
            begin("inc", op.s(0), 0LL);
            bool ok = s.cnt->get_and_increment(op.s(0), v);
            end(ok, v);
        } else if (op.name == "inc") {
            begin("inc", op.s(0), op.has(1) ? op.i(1) : 0);
            end(op.has(1) ? s.cnt->increment(op.s(0), op.i(1)) : s.cnt->increment(op.s(0)));
        } else if (op.name == "get") {
            std::string r = "None";
            if (s.map) {
                std::array<uint8_t, 24> v;
                if (s.map->get(mk_key(op.s(0)), v)) {
                    r = name(v);
                }
            } else if (s.cnt) {
                uint32_t v = 0;
                bool     f = s.cnt->get(op.s(0), v);
                Ev("get").f("k", op.s(0)).f("r", f ? (long long)v : -1LL).emit();
                continue;
            } else if (s.lst) {
                std::list<elt> l;
                if (s.lst->get(mk_key(op.s(0)), l)) {
                    r = "";
                    for (auto& x : l) {
                        r += name(x) + ",";
                    }
                }
            }
            Ev("get").f("k", op.s(0)).f("r", r).emit();
        } else if (op.name == "push" || op.name == "apush") {
            static Sector* buf = static_cast<Sector*>(aligned_alloc(512, 512));
            *buf               = mk_sector(op.i(0));
            bool ok = true;
            try {
                if (op.name == "push") {
                    s.vec->push_back(*buf);
                } else {
                    s.vec->async_push_back(*buf);
                }
            } catch (const std::exception&) {
                ok = false;
                if (!sh->faults) {
                    throw;
                }
            }
            if (ok) {
                content += op.s(0) + ",";
            }
        } else if (op.name == "commit") {
            begin("put", "vec", content);
            s.vec->commit();
            sh->committed = 1;
            end(true);
        } else if (op.name == "read") {
            if (!sh->committed) {
                continue; // a file whose commit was interrupted is not covered by the contract
            }
            std::string r;
            if (!s.vec->is_committed()) {
                r = "uncommitted";
            } else {
                for (size_t j = 0; j < s.vec->size(); j++) {
                    r += sector_name(s.vec->get(j)) + ",";
                }
            }
            Ev("get").f("k", "vec").f("r", r).emit();
        } else {
            _exit(3);
        }
    }
    die();
}

int main(int argc, char** argv)
{
    sse::logger::set_logger(spdlog::null_logger_mt("null"));
    killpoints::init();
    return run(argc, argv, [](const Episode& e) {
        std::string path = fresh("db");
        killpoints::phases(e, [&](size_t from) { phase(e, path, from); });
    });
}
