// The Linux-AIO scheduler against the stand-in kernel (see kernel.hpp).
#include "kernel.hpp"

#include <sse/schemes/abstractio/scheduler.hpp>
#include <sse/schemes/utils/logger.hpp>

#include <spdlog/sinks/null_sink.h>

using namespace vh;
using namespace vk;
using namespace sse::abstractio;

namespace {
struct Req
{
    int                 id;
    int                 kind; // 0 read, 1 write
    int                 off;
    int                 len;
    bool                valid;
    uint8_t*            buf;
    std::atomic<int>    calls{0};
};
struct State
{
    int                                  fd = -1;
    std::map<int, std::shared_ptr<Req>>  reqs;
    std::map<void*, int>                 by_buf;
    std::map<int, std::shared_ptr<Call>> calls;
    std::map<int, std::thread>           threads;
    int                                  next = 1;
    std::unique_ptr<Scheduler>           sched;
};
State* S;

constexpr int kHang = 6; // seconds

[[noreturn]] void hang(const std::string& where)
{
    Ev("Hang").f("where", where).emit();
    _exit(9);
}

std::string describe(const struct iocb* cb)
{
    auto        it = S->by_buf.find(cb->u.c.buf);
    std::string o  = "[";
    o += std::to_string(it == S->by_buf.end() ? 0 : it->second) + ",";
    o += std::to_string(cb->aio_lio_opcode == IO_CMD_PREAD ? 0 : cb->aio_lio_opcode == IO_CMD_PWRITE ? 1 : 9) + ",";
    o += std::to_string(static_cast<long long>(cb->u.c.offset)) + "," + std::to_string(cb->u.c.nbytes) + ",";
    o += std::to_string(cb->aio_fildes == S->fd ? 1 : 0) + "]";
    return o;
}

void on_callback(int id, void* tag, int64_t res)
{
    std::lock_guard<std::mutex> g(K().m);
    auto                        r = S->reqs[id];
    r->calls++;
    Ev("cb").f("id", id).f("res", static_cast<long long>(res)).f("tag", tag == static_cast<void*>(r.get())).emit();
}

// the submitting thread
void submit(int c, char kind, std::vector<std::shared_ptr<Req>> rs, std::shared_ptr<Call> call)
{
    tls() = call.get();
    int ret;
    if (kind == 'R') {
        std::vector<Scheduler::PReadSumission> subs;
        for (auto& r : rs) {
            int id = r->id;
            subs.emplace_back(S->fd, r->buf, r->len, r->off, r.get(),
                              [id](void* t, int64_t n) { on_callback(id, t, n); });
        }
        ret = S->sched->submit_preads(subs);
    } else {
        auto& r  = rs[0];
        int   id = r->id;
        auto  cb = [id](void* t, int64_t n) { on_callback(id, t, n); };
        ret      = kind == 'r' ? S->sched->submit_pread(S->fd, r->buf, r->len, r->off, r.get(), cb)
                               : S->sched->submit_pwrite(S->fd, r->buf, r->len, r->off, r.get(), cb);
    }
    std::lock_guard<std::mutex> g(K().m);
    Ev("submitret").f("c", c).f("ret", ret).emit();
    call->returned = true;
    K().cv.notify_all();
}

template<typename P>
bool wait_for(P p, int ms)
{
    std::unique_lock<std::mutex> lk(K().m);
    return K().cv.wait_for(lk, std::chrono::milliseconds(ms), p);
}

void body(const Episode& e)
{
    State st;
    S = &st;
    // a file of 64 sectors of 512 bytes; sector i holds bytes of value i
    std::string path = fresh("f");
    st.fd            = ::open(path.c_str(), O_RDWR | O_CREAT, 0600);
    std::vector<uint8_t> img(64 * 512);
    for (size_t i = 0; i < img.size(); i++) {
        img[i] = static_cast<uint8_t>(i / 512 + 1);
    }
    if (::write(st.fd, img.data(), img.size()) != static_cast<ssize_t>(img.size())) {
        _exit(3);
    }
    std::string md = e.s("mode", "auto");
    Kernel&     k  = K();
    k.p_again      = e.i("again");
    k.p_err        = e.i("err");
    k.p_partial    = e.i("partial");
    k.p_short      = e.i("short");
    k.p_intr       = e.i("intr");
    k.p_delay      = e.i("delay");
    k.id_of        = [](const struct iocb* cb) {
        auto it = S->by_buf.find(cb->u.c.buf);
        return it == S->by_buf.end() ? 0 : it->second;
    };
    k.describe = describe;
    k.start(md == "script" ? SCRIPT : md == "random" ? RANDOM : md == "real" ? REAL : AUTO, e.i("seed", 1));
    const size_t page = 4096;
    st.sched.reset(make_linux_aio_scheduler(page, static_cast<unsigned>(e.i("nr", 8))));

    std::thread waiter;
    auto        waited   = std::make_shared<std::atomic<int>>(0);
    auto        finished = [&](int c) {
        auto it = st.calls.find(c);
        return it == st.calls.end() || it->second->returned;
    };
    auto start_wait = [&] {
        if (*waited) {
            return;
        }
        *waited = 1;
        Ev("waitcall").emit();
        waiter = std::thread([&st, waited] {
            st.sched->wait_completions();
            std::lock_guard<std::mutex> g(K().m);
            Ev("waitret").emit();
            *waited = 2;
            K().cv.notify_all();
        });
    };
    auto all_returned = [&](int secs) {
        return wait_for([&] {
            for (auto& c : st.calls) {
                if (!c.second->returned) {
                    return false;
                }
            }
            return true;
        }, secs * 1000);
    };
    Rng rng(e.i("seed", 1) * 77 + 5);
    for (const Op& op : e.ops) {
        if (op.name == "submit") { // submit <call> <r|w|R> <n> [<index of an invalid request>...]
            int                               c    = static_cast<int>(op.i(0));
            char                              kind = op.s(1)[0];
            int                               n    = static_cast<int>(op.i(2));
            std::vector<std::shared_ptr<Req>> rs;
            std::string                       list = "[";
            std::lock_guard<std::mutex>       g(k.m);
            for (int i = 0; i < n; i++) {
                auto r   = std::make_shared<Req>();
                r->id    = st.next++;
                r->kind  = kind == 'w' ? 1 : 0;
                r->len   = 512 * (1 + r->id % 3);
                r->off   = 512 * ((r->id * 5) % 60);
                r->valid = true;
                uint8_t* mem = static_cast<uint8_t*>(aligned_alloc(page, 2 * page));
                memset(mem, 0xA0 + r->id % 16, 2 * page);
                r->buf = mem;
                for (size_t j = 3; j < op.args.size(); j++) {
                    if (op.i(j) == i) {
                        r->valid = false;
                        switch (r->id % 3) {
                        case 0:
                            r->buf = mem + 512;
                            break;
                        case 1:
                            r->len += 7;
                            break;
                        default:
                            r->off += 100;
                        }
                    }
                }
                st.reqs[r->id]    = r;
                st.by_buf[r->buf] = r->id;
                rs.push_back(r);
                list += (i ? "," : "") + ("[" + std::to_string(r->id) + "," + std::to_string(r->kind) + ","
                                          + std::to_string(r->off) + "," + std::to_string(r->len) + ","
                                          + (r->valid ? "1" : "0") + "]");
            }
            auto call = std::make_shared<Call>();
            call->id  = c;
            st.calls[c] = call;
            Ev("submit").f("c", c).raw("reqs", list + "]").emit();
            st.threads[c] = std::thread(submit, c, kind, rs, call);
        }
        if (k.mode == SCRIPT) {
            if (op.name == "submit") {
                int c = static_cast<int>(op.i(0));
                if (!wait_for([&] { return st.calls[c]->at_kernel || st.calls[c]->returned; }, kHang * 1000)) {
                    hang("submit");
                }
            } else if (op.name == "k") { // k <call> <n | -11 | -5> [hold]
                int  c    = static_cast<int>(op.i(0));
                auto call = st.calls[c];
                if (!wait_for([&] { return call->at_kernel || call->returned; }, kHang * 1000)) {
                    hang("retry");
                }
                if (!finished(c)) {
                    std::unique_lock<std::mutex> lk(k.m);
                    call->answer    = static_cast<int>(op.i(1));
                    call->hold      = op.has(2);
                    call->decided   = true;
                    call->at_kernel = false;
                    k.cv.notify_all();
                    bool hold = op.has(2);
                    lk.unlock();
                    if (hold) {
                        wait_for([&] { return call->held || call->returned; }, kHang * 1000);
                    } else {
                        wait_for([&] { return call->returned || call->at_kernel; }, op.i(1) == -11 ? 2 : 20);
                    }
                }
            } else if (op.name == "release") {
                auto call = st.calls[static_cast<int>(op.i(0))];
                {
                    std::lock_guard<std::mutex> g(k.m);
                    call->hold = false;
                    k.cv.notify_all();
                }
                wait_for([&] { return call->returned || call->at_kernel; }, 3);
            } else if (op.name == "done") { // done <request> <full|short|err|zero>
                std::lock_guard<std::mutex> g(k.m);
                int                         id = static_cast<int>(op.i(0));
                for (auto& q : k.kq) {
                    for (size_t i = 0; i < q.second.size(); i++) {
                        if (q.second[i].id == id) {
                            Rq r = q.second[i];
                            q.second.erase(q.second.begin() + i);
                            k.perform(r, op.s(1));
                            break;
                        }
                    }
                }
            } else if (op.name == "get") { // get <n | 0 | -4>
                if (!wait_for([&] { return k.at_get || *waited == 2; }, kHang * 1000)) {
                    hang("notify");
                }
                std::unique_lock<std::mutex> lk(k.m);
                if (k.at_get) {
                    k.get_answer  = op.i(0);
                    k.get_decided = true;
                    k.at_get      = false;
                    k.cv.notify_all();
                    lk.unlock();
                    wait_for([&] { return k.at_get || *waited == 2; }, *waited ? 20 : kHang * 1000);
                }
            } else if (op.name == "wait") {
                bool all = true;
                {
                    std::lock_guard<std::mutex> g(k.m);
                    for (auto& c : st.calls) {
                        all = all && c.second->returned;
                    }
                }
                if (all) {
                    start_wait();
                    usleep(1000);
                }
            }
        } else if (rng.below(3) == 0) {
            usleep(rng.below(150));
        }
    }
    // the kernel makes progress again: every call has to return
    {
        std::lock_guard<std::mutex> g(k.m);
        if (k.mode == SCRIPT) {
            k.mode = AUTO;
        }
        k.p_err = 0;
        k.cv.notify_all();
    }
    if (!all_returned(kHang)) {
        hang("submit never returned");
    }
    for (auto& t : st.threads) {
        t.second.join();
    }
    if (e.i("nowait") == 0 || *waited) {
        start_wait();
        if (!wait_for([&] { return *waited == 2; }, kHang * 1000)) {
            hang("wait never returned");
        }
        waiter.join();
    }
    if (e.i("late") && *waited) { // a submission after the wait
        auto  r  = std::make_shared<Req>();
        r->id    = st.next++;
        r->buf   = static_cast<uint8_t*>(aligned_alloc(page, page));
        st.reqs[r->id] = r;
        st.by_buf[r->buf] = r->id;
        int   id = r->id;
        Ev("late").f("id", id).emit();
        int ret = st.sched->submit_pread(st.fd, r->buf, 512, 0, r.get(), [id](void* t, int64_t n) { on_callback(id, t, n); });
        Ev("lateret").f("ret", ret).emit();
    }
    auto gone = std::make_shared<std::atomic<bool>>(false);
    Ev("destroy").emit();
    std::thread d([&st, gone] {
        st.sched.reset();
        std::lock_guard<std::mutex> g(K().m);
        Ev("destroyed").emit();
        *gone = true;
        K().cv.notify_all();
    });
    if (!wait_for([&] { return gone->load(); }, kHang * 1000)) {
        hang("destruction");
    }
    d.join();
    k.finish();
    usleep(e.i("nowait") ? 300 : 0);
    // what the file holds now: every write that succeeded in full and nothing else
    std::vector<uint8_t> now(img.size() + 4096);
    ssize_t              got = ::pread(st.fd, now.data(), now.size(), 0);
    Ev("final").f("size", got).emit();
    ::close(st.fd);
    for (auto& r : st.reqs) {
        (void)r; // buffers are leaked on purpose: a late access must not hit reused memory
    }
}
} // namespace

int main(int argc, char** argv)
{
    sse::logger::set_logger(spdlog::null_logger_mt("null"));
    return run(argc, argv, body);
}
