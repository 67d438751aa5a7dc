// Stand-in for the synchronous API of gRPC, which is not installed: client and server live in one process and are
// connected through a registry of addresses.  What it keeps of the real thing: messages are values (the server sees a
// copy), streams are bounded queues between a handler thread and the caller, an exception that leaves a handler turns
// into a status UNKNOWN, a call to an address nobody listens on is UNAVAILABLE, Server::Shutdown() waits for the calls in
// progress, a stream must not be written from two threads at a time (counted in standin_misuse()), and a call whose
// context is dropped before its end is cancelled.
#pragma once
#include <atomic>
#include <condition_variable>
#include <cstdint>
#include <deque>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <typeinfo>
#include <utility>
#include <vector>

namespace grpc {

enum StatusCode
{
    OK                  = 0,
    CANCELLED           = 1,
    UNKNOWN             = 2,
    INVALID_ARGUMENT    = 3,
    DEADLINE_EXCEEDED   = 4,
    NOT_FOUND           = 5,
    ALREADY_EXISTS      = 6,
    PERMISSION_DENIED   = 7,
    RESOURCE_EXHAUSTED  = 8,
    FAILED_PRECONDITION = 9,
    ABORTED             = 10,
    OUT_OF_RANGE        = 11,
    UNIMPLEMENTED       = 12,
    INTERNAL            = 13,
    UNAVAILABLE         = 14,
    DATA_LOSS           = 15,
    UNAUTHENTICATED     = 16
};

class Status
{
public:
    static const Status& OK;
    static const Status& CANCELLED;
    Status() = default;
    Status(StatusCode c, const std::string& m) : code_(c), message_(m)
    {
    }
    Status(StatusCode c, const std::string& m, const std::string& d) : code_(c), message_(m), details_(d)
    {
    }
    StatusCode error_code() const
    {
        return code_;
    }
    std::string error_message() const
    {
        return message_;
    }
    std::string error_details() const
    {
        return details_;
    }
    bool ok() const
    {
        return code_ == StatusCode::OK;
    }
    void IgnoreError() const
    {
    }

private:
    StatusCode  code_ = StatusCode::OK;
    std::string message_, details_;
};
inline const Status& standin_ok()
{
    static Status s;
    return s;
}
inline const Status& standin_cancelled()
{
    static Status s(StatusCode::CANCELLED, "");
    return s;
}
inline const Status& Status::OK        = standin_ok();
inline const Status& Status::CANCELLED = standin_cancelled();

// streams written by two threads at a time, or after their end
inline std::atomic<long>& standin_misuse()
{
    static std::atomic<long> n(0);
    return n;
}

class Service
{
public:
    virtual ~Service() = default;
    virtual const char* standin_name() const = 0;
};

struct StandinServer
{
    std::map<std::string, Service*> services;
    std::mutex                      m;
    std::condition_variable         cv;
    long                            calls = 0;
    bool                            down  = false;
    bool                            enter()
    {
        std::lock_guard<std::mutex> g(m);
        if (down) {
            return false;
        }
        calls++;
        return true;
    }
    void leave()
    {
        std::lock_guard<std::mutex> g(m);
        calls--;
        cv.notify_all();
    }
};
struct StandinRegistry
{
    std::mutex                                            m;
    std::map<std::string, std::shared_ptr<StandinServer>> at;
    static std::string                                    norm(const std::string& a)
    {
        size_t p = a.rfind(':');
        return p == std::string::npos ? a : a.substr(p);
    }
    std::shared_ptr<StandinServer> find(const std::string& a)
    {
        std::lock_guard<std::mutex> g(m);
        auto                        i = at.find(norm(a));
        return i == at.end() ? nullptr : i->second;
    }
};
inline StandinRegistry& standin_registry()
{
    static StandinRegistry* r = new StandinRegistry;
    return *r;
}

class ChannelCredentials
{
};
class ServerCredentials
{
};
inline std::shared_ptr<ChannelCredentials> InsecureChannelCredentials()
{
    return std::make_shared<ChannelCredentials>();
}
inline std::shared_ptr<ServerCredentials> InsecureServerCredentials()
{
    return std::make_shared<ServerCredentials>();
}

class ChannelInterface
{
public:
    virtual ~ChannelInterface() = default;
};
class Channel : public ChannelInterface
{
public:
    explicit Channel(std::string a) : address(std::move(a))
    {
    }
    std::string address;
};
inline std::shared_ptr<Channel> CreateChannel(const std::string& target, const std::shared_ptr<ChannelCredentials>&)
{
    return std::make_shared<Channel>(target);
}

class ServerContext
{
public:
    bool IsCancelled() const
    {
        return cancelled;
    }
    std::string peer() const
    {
        return "inproc";
    }
    std::atomic<bool> cancelled{false};
};

struct StandinCall
{
    std::shared_ptr<StandinServer> server;
    ServerContext                  context;
    std::mutex                     m;
    std::condition_variable        cv;
    bool                           finished = false; // the handler has returned
    bool                           closed   = false; // no more messages from the client
    std::atomic<int>               writing{0};
    Status                         status;
    std::thread                    thread;
    virtual ~StandinCall() = default;
    void cancel()
    {
        std::lock_guard<std::mutex> g(m);
        context.cancelled = true;
        cv.notify_all();
    }
    void join()
    {
        if (thread.joinable()) {
            thread.join();
        }
    }
    // runs the handler; what it throws is a status
    template<class F>
    void run(F f)
    {
        Status s;
        try {
            s = f();
        } catch (const std::exception& e) {
            s = Status(StatusCode::UNKNOWN, "Unexpected error in RPC handling");
        } catch (...) {
            s = Status(StatusCode::UNKNOWN, "Unexpected error in RPC handling");
        }
        {
            std::lock_guard<std::mutex> g(m);
            status   = s;
            finished = true;
            cv.notify_all();
        }
        server->leave();
    }
};
template<class M>
struct StandinStream : public StandinCall
{
    std::deque<M> queue;
    size_t        limit = 8;
    // a message of the side that writes; false when the other side is gone
    bool put(const M& v)
    {
        if (writing.fetch_add(1) != 0) {
            standin_misuse()++;
        }
        std::unique_lock<std::mutex> g(m);
        bool                         r = put_locked(v, g);
        writing--;
        return r;
    }
    bool put_locked(const M& v, std::unique_lock<std::mutex>& g)
    {
        cv.wait(g, [&] { return queue.size() < limit || context.cancelled || stop_writes(); });
        if (context.cancelled || stop_writes()) {
            return false;
        }
        queue.push_back(v);
        cv.notify_all();
        return true;
    }
    virtual bool stop_writes() = 0; // called with m held
};
template<class M>
struct StandinUp final : public StandinStream<M> // client to server
{
    ~StandinUp()
    {
        this->cancel();
        this->join();
    }
    bool stop_writes() override
    {
        return this->finished || this->closed;
    }
};
template<class M>
struct StandinDown final : public StandinStream<M> // server to client
{
    ~StandinDown()
    {
        this->cancel();
        this->join();
    }
    bool stop_writes() override
    {
        return this->finished;
    }
};

class ClientContext
{
public:
    ~ClientContext()
    {
        TryCancel();
    }
    void TryCancel()
    {
        if (auto c = call.lock()) {
            c->cancel();
        }
    }
    std::weak_ptr<StandinCall> call;
};

template<class M>
class ServerWriter
{
public:
    explicit ServerWriter(StandinDown<M>* c) : call_(c)
    {
    }
    bool Write(const M& v)
    {
        return call_->put(v);
    }

private:
    StandinDown<M>* call_;
};
template<class M>
class ServerReader
{
public:
    explicit ServerReader(StandinUp<M>* c) : call_(c)
    {
    }
    bool Read(M* v)
    {
        std::unique_lock<std::mutex> g(call_->m);
        call_->cv.wait(g, [&] { return !call_->queue.empty() || call_->closed || call_->context.cancelled; });
        if (call_->context.cancelled || call_->queue.empty()) {
            return false;
        }
        *v = call_->queue.front();
        call_->queue.pop_front();
        call_->cv.notify_all();
        return true;
    }

private:
    StandinUp<M>* call_;
};
template<class M>
class ClientReader
{
public:
    explicit ClientReader(std::shared_ptr<StandinDown<M>> c) : call_(std::move(c))
    {
    }
    bool Read(M* v)
    {
        std::unique_lock<std::mutex> g(call_->m);
        call_->cv.wait(g, [&] { return !call_->queue.empty() || call_->finished || call_->context.cancelled; });
        if (call_->queue.empty()) {
            return false;
        }
        *v = call_->queue.front();
        call_->queue.pop_front();
        call_->cv.notify_all();
        return true;
    }
    Status Finish()
    {
        std::unique_lock<std::mutex> g(call_->m);
        call_->cv.wait(g, [&] { return call_->finished; });
        return call_->status;
    }

private:
    std::shared_ptr<StandinDown<M>> call_;
};
template<class M>
class ClientWriter
{
public:
    explicit ClientWriter(std::shared_ptr<StandinUp<M>> c) : call_(std::move(c))
    {
    }
    bool Write(const M& v)
    {
        return call_->put(v);
    }
    bool WritesDone()
    {
        std::lock_guard<std::mutex> g(call_->m);
        call_->closed = true;
        call_->cv.notify_all();
        return !call_->finished;
    }
    Status Finish()
    {
        std::unique_lock<std::mutex> g(call_->m);
        call_->cv.wait(g, [&] { return call_->finished; });
        return call_->status;
    }

private:
    std::shared_ptr<StandinUp<M>> call_;
};

// the last message of a type that a client sent
template<class Q>
struct StandinLast
{
    std::mutex m;
    Q          v;
    bool       set = false;
    static StandinLast& get()
    {
        static StandinLast* l = new StandinLast;
        return *l;
    }
    void note(const Q& q)
    {
        std::lock_guard<std::mutex> g(m);
        v   = q;
        set = true;
    }
};

// the three kinds of calls
inline std::shared_ptr<StandinServer> standin_connect(const Channel& ch)
{
    auto s = standin_registry().find(ch.address);
    return s && s->enter() ? s : nullptr;
}
template<class S, class Q, class R>
Status standin_unary(const Channel& ch, const char* name, Status (S::*f)(ServerContext*, const Q*, R*), const Q& q, R* r)
{
    auto srv = standin_connect(ch);
    if (!srv) {
        return Status(StatusCode::UNAVAILABLE, "failed to connect");
    }
    S*          s = static_cast<S*>(srv->services[name]);
    StandinCall c;
    c.server = srv;
    const Q copy(q);
    c.run([&] { return s ? (s->*f)(&c.context, &copy, r) : Status(StatusCode::UNIMPLEMENTED, ""); });
    return c.status;
}
template<class S, class Q, class R>
std::unique_ptr<ClientReader<R>> standin_down(const Channel& ch, const char* name, ClientContext* ctx,
                                              Status (S::*f)(ServerContext*, const Q*, ServerWriter<R>*), const Q& q)
{
    auto c    = std::make_shared<StandinDown<R>>();
    ctx->call = c;
    StandinLast<Q>::get().note(q);
    c->server = standin_connect(ch);
    if (!c->server) {
        c->status   = Status(StatusCode::UNAVAILABLE, "failed to connect");
        c->finished = true;
    } else {
        S*              s = static_cast<S*>(c->server->services[name]);
        StandinDown<R>* p = c.get();
        c->thread         = std::thread([p, s, f, q] {
            ServerWriter<R> w(p);
            p->run([&] { return s ? (s->*f)(&p->context, &q, &w) : Status(StatusCode::UNIMPLEMENTED, ""); });
        });
    }
    return std::unique_ptr<ClientReader<R>>(new ClientReader<R>(c));
}
template<class S, class Q, class R>
std::unique_ptr<ClientWriter<Q>> standin_up(const Channel& ch, const char* name, ClientContext* ctx,
                                            Status (S::*f)(ServerContext*, ServerReader<Q>*, R*), R* r)
{
    auto c    = std::make_shared<StandinUp<Q>>();
    ctx->call = c;
    c->server = standin_connect(ch);
    if (!c->server) {
        c->status   = Status(StatusCode::UNAVAILABLE, "failed to connect");
        c->finished = true;
    } else {
        S*            s = static_cast<S*>(c->server->services[name]);
        StandinUp<Q>* p = c.get();
        c->thread       = std::thread([p, s, f, r] {
            ServerReader<Q> rd(p);
            p->run([&] { return s ? (s->*f)(&p->context, &rd, r) : Status(StatusCode::UNIMPLEMENTED, ""); });
        });
    }
    return std::unique_ptr<ClientWriter<Q>>(new ClientWriter<Q>(c));
}

class Server
{
public:
    explicit Server(std::shared_ptr<StandinServer> s, std::vector<std::string> a) : core_(std::move(s)), addresses_(std::move(a))
    {
    }
    ~Server()
    {
        Shutdown();
    }
    void Shutdown()
    {
        {
            auto&                       r = standin_registry();
            std::lock_guard<std::mutex> g(r.m);
            for (const auto& a : addresses_) {
                auto i = r.at.find(a);
                if (i != r.at.end() && i->second == core_) {
                    r.at.erase(i);
                }
            }
        }
        std::unique_lock<std::mutex> g(core_->m);
        core_->down = true;
        core_->cv.notify_all();
        core_->cv.wait(g, [&] { return core_->calls == 0; });
    }
    void Wait()
    {
        std::unique_lock<std::mutex> g(core_->m);
        core_->cv.wait(g, [&] { return core_->down && core_->calls == 0; });
    }

private:
    std::shared_ptr<StandinServer> core_;
    std::vector<std::string>       addresses_;
};
class ServerBuilder
{
public:
    ServerBuilder& AddListeningPort(const std::string& a, std::shared_ptr<ServerCredentials>, int* port = nullptr)
    {
        addresses_.push_back(StandinRegistry::norm(a));
        return *this;
    }
    ServerBuilder& RegisterService(Service* s)
    {
        core_->services[s->standin_name()] = s;
        return *this;
    }
    std::unique_ptr<Server> BuildAndStart()
    {
        auto&                       r = standin_registry();
        std::lock_guard<std::mutex> g(r.m);
        for (const auto& a : addresses_) {
            if (r.at.count(a)) {
                return nullptr;
            }
        }
        for (const auto& a : addresses_) {
            r.at[a] = core_;
        }
        return std::unique_ptr<Server>(new Server(core_, addresses_));
    }

private:
    std::shared_ptr<StandinServer> core_ = std::make_shared<StandinServer>();
    std::vector<std::string>       addresses_;
};
} // namespace grpc
