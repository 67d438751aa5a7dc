// Scenario reading and event recording shared by all harnesses.
//
// usage: harness <scenario file> <trace file> <scratch directory>
// The scenario file holds episodes: a line "EPISODE k=v ..." followed by one operation
// per line ("op arg ..."), and a last line END.  Every event is written with one write(2),
// so that a crash or a kill loses at most the event being written.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <mutex>
#include <sstream>
#include <string>
#include <cerrno>
#include <csignal>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace vh {

struct Op
{
    std::string              name;
    std::vector<std::string> args;
    const std::string&       s(size_t i) const
    {
        if (i >= args.size()) {
            fprintf(stderr, "scenario error: op %s misses argument %zu\n", name.c_str(), i);
            _exit(3);
        }
        return args[i];
    }
    long long i(size_t k) const
    {
        return atoll(s(k).c_str());
    }
    bool has(size_t k) const
    {
        return k < args.size();
    }
};

struct Episode
{
    std::map<std::string, std::string> par;
    std::vector<Op>                    ops;
    long long                          i(const std::string& k, long long def = 0) const
    {
        auto it = par.find(k);
        return it == par.end() ? def : atoll(it->second.c_str());
    }
    std::string s(const std::string& k, const std::string& def = "") const
    {
        auto it = par.find(k);
        return it == par.end() ? def : it->second;
    }
};

inline std::string quote(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else {
            o += c;
        }
    }
    return o + "\"";
}

struct Out
{
    int        fd = -1;
    std::mutex m;
    void       line(const std::string& s)
    {
        std::lock_guard<std::mutex> g(m);
        std::string                 x = s + "\n";
        const char*                 p = x.data();
        size_t                      n = x.size();
        while (n) {
            ssize_t k = ::write(fd, p, n);
            if (k <= 0) {
                _exit(3);
            }
            p += k;
            n -= k;
        }
    }
};
inline Out& out()
{
    static Out* o = new Out;
    return *o;
}

// JSON event builder: Ev("put").f("k", 1).f("r", true).emit()
class Ev
{
    std::string b;

public:
    explicit Ev(const std::string& name) : b("{\"ev\":" + quote(name))
    {
    }
    Ev& raw(const std::string& k, const std::string& v)
    {
        b += ",\"" + k + "\":" + v;
        return *this;
    }
    Ev& f(const std::string& k, const std::string& v)
    {
        return raw(k, quote(v));
    }
    Ev& f(const std::string& k, const char* v)
    {
        return raw(k, quote(v));
    }
    Ev& f(const std::string& k, bool v)
    {
        return raw(k, v ? "true" : "false");
    }
    template<typename I, typename = std::enable_if_t<std::is_integral<I>::value && !std::is_same<I, bool>::value>>
    Ev& f(const std::string& k, I v)
    {
        // TLC integers have 32 bits: clamp, keeping the sign
        long long x;
        if (std::is_unsigned<I>::value && static_cast<unsigned long long>(v) > 2000000000ULL) {
            x = 2000000000LL;
        } else {
            x = static_cast<long long>(v);
            if (x > 2000000000LL) {
                x = 2000000000LL;
            }
            if (x < -2000000000LL) {
                x = -2000000000LL;
            }
        }
        return raw(k, std::to_string(x));
    }
    template<typename T>
    Ev& f(const std::string& k, const std::vector<T>& v)
    {
        std::string o = "[";
        bool        first = true;
        for (const auto& x : v) {
            if (!first) {
                o += ",";
            }
            first = false;
            o += val(x);
        }
        return raw(k, o + "]");
    }
    static std::string val(const std::string& s)
    {
        return quote(s);
    }
    static std::string val(long long v)
    {
        if (v > 2000000000LL) {
            v = 2000000000LL;
        }
        if (v < -2000000000LL) {
            v = -2000000000LL;
        }
        return std::to_string(v);
    }
    static std::string val(unsigned long long v)
    {
        return val(v > 2000000000ULL ? 2000000000LL : (long long)v);
    }
    static std::string val(unsigned long v)
    {
        return val((unsigned long long)v);
    }
    static std::string val(long v)
    {
        return val((long long)v);
    }
    static std::string val(int v)
    {
        return std::to_string(v);
    }
    static std::string val(unsigned v)
    {
        return val((unsigned long long)v);
    }
    template<typename T>
    static std::string val(const std::vector<T>& v)
    {
        std::string o = "[";
        for (size_t i = 0; i < v.size(); i++) {
            o += (i ? "," : "") + val(v[i]);
        }
        return o + "]";
    }
    std::string str() const
    {
        return b + "}";
    }
    void emit() const
    {
        out().line(str());
    }
};

// splitmix64: the deterministic generator of the harnesses
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t x) : s(x)
    {
    }
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z          = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n)
    {
        return next() % n;
    }
};

inline std::string& scratch()
{
    static std::string s;
    return s;
}

// A fresh directory name inside the scratch directory
inline std::string fresh(const std::string& stem)
{
    static std::atomic<int> n{0};
    return scratch() + "/" + stem + std::to_string(n.fetch_add(1));
}

inline int run(int argc, char** argv, const std::function<void(const Episode&)>& body)
{
    if (argc < 4) {
        return 3;
    }
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    struct rlimit rl = {8UL << 30, 8UL << 30}; // a runaway allocation must not end the machine
    setrlimit(RLIMIT_AS, &rl);
#endif
    scratch() = argv[3];
    out().fd  = ::open(argv[2], O_WRONLY | O_CREAT | O_APPEND, 0600);
    if (out().fd < 0) {
        return 3;
    }
    std::ifstream        in(argv[1]);
    std::string          line;
    std::vector<Episode> eps;
    bool                 ended = false;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string        w;
        if (!(is >> w)) {
            continue;
        }
        if (w == "END") {
            ended = true;
            break;
        }
        if (w == "EPISODE") {
            eps.emplace_back();
            std::string kv;
            while (is >> kv) {
                auto e = kv.find('=');
                if (e != std::string::npos) {
                    eps.back().par[kv.substr(0, e)] = kv.substr(e + 1);
                }
            }
            continue;
        }
        Op op;
        op.name = w;
        std::string a;
        while (is >> a) {
            op.args.push_back(a);
        }
        eps.back().ops.push_back(op);
    }
    if (!ended) {
        return 3;
    }
    for (const auto& e : eps) {
        Ev("@episode").emit();
        if (!e.i("fresh")) {
            body(e);
            continue;
        }
        // in a process of its own, in which nothing has been used before (all episodes of such a run are fresh)
        pid_t p = fork();
        if (p == 0) {
            scratch() += "/f" + std::to_string(getpid());
            mkdir(scratch().c_str(), 0700);
            body(e);
            _exit(0);
        }
        int st = 0;
        while (p < 0 || waitpid(p, &st, 0) < 0) {
            if (p < 0 || errno != EINTR) {
                _exit(3);
            }
        }
        if (WIFSIGNALED(st)) {
            raise(WTERMSIG(st));
        }
        if (st != 0) {
            _exit(4);
        }
    }
    Ev("@end").emit();
    return 0;
}

} // namespace vh
