// concat_iterator and concat_const_iterator driven by scenarios.
#include "vh.hpp"

#include <cstddef>
#include <sse/schemes/utils/concat_iterator.hpp>

#include <deque>
#include <list>
#include <set>
#include <vector>

using namespace vh;
using namespace sse::utility;

template<class C, class It>
struct Run
{
    C&                        c1;
    C&                        c2;
    std::map<std::string, It> its;

    // first: the border is named by the end of the first range
    It at(size_t p, bool first)
    {
        if (p < c1.size() || (first && p == c1.size())) {
            auto i = c1.begin();
            std::advance(i, p);
            return It(c1, c2, i, false);
        }
        auto i = c2.begin();
        std::advance(i, p - c1.size());
        return It(c1, c2, i, true);
    }
    It& get(const std::string& n)
    {
        return its.find(n)->second;
    }
    void set(const std::string& n, const It& i)
    {
        auto x = its.find(n);
        if (x == its.end()) {
            its.emplace(n, i);
        } else {
            x->second = i;
        }
    }
    template<bool W>
    void go(const Episode& e)
    {
        for (const Op& op : e.ops) {
            Ev ev(op.name);
            if (!op.args.empty()) {
                ev.f("x", op.s(0));
            }
            if (op.name == "begin") {
                set(op.s(0), It(c1, c2));
            } else if (op.name == "end") {
                set(op.s(0), It(c1, c2, c2.end(), true));
            } else if (op.name == "at") {
                set(op.s(0), at(op.i(1), op.args.size() > 2));
                ev.f("p", op.i(1));
            } else if (op.name == "inc") {
                ++get(op.s(0));
            } else if (op.name == "post") {
                It y = get(op.s(0))++;
                set(op.s(1), y);
                ev.f("y", op.s(1));
            } else if (op.name == "copy") {
                It y = get(op.s(0));
                set(op.s(1), y);
                ev.f("y", op.s(1));
            } else if (op.name == "deref") {
                ev.f("r", *get(op.s(0)));
            } else if (op.name == "write") {
                if constexpr (W) {
                    *get(op.s(0)) = op.i(1);
                    ev.f("v", op.i(1));
                } else {
                    continue;
                }
            } else if (op.name == "eq") {
                const It& a = get(op.s(0));
                const It& b = get(op.s(1));
                ev.f("y", op.s(1)).f("r", a == b).f("n", a != b);
            } else if (op.name == "loop") {
                std::vector<int> v;
                It               end(c1, c2, c2.end(), true);
                for (It i(c1, c2); i != end && v.size() < 500; ++i) {
                    v.push_back(*i);
                }
                ev.f("r", v);
            } else {
                _exit(3);
            }
            ev.emit();
        }
    }
};

static std::vector<int> ints(const std::string& s)
{
    std::vector<int>   v;
    std::istringstream is(s);
    std::string        x;
    while (std::getline(is, x, '.')) {
        if (!x.empty()) {
            v.push_back(atoi(x.c_str()));
        }
    }
    return v;
}

template<class C>
static void with(const Episode& e)
{
    auto a = ints(e.s("a")), b = ints(e.s("b"));
    C    c1(a.begin(), a.end()), c2(b.begin(), b.end());
    C&   second = e.i("alias") ? c1 : c2;
    if (e.i("konst")) {
        const C& k1 = c1;
        const C& k2 = second;
        Run<const C, concat_const_iterator<C>>{k1, k2, {}}.template go<false>(e);
    } else {
        Run<C, concat_iterator<C>>{c1, second, {}}.template go<true>(e);
    }
}

int main(int argc, char** argv)
{
    return run(argc, argv, [](const Episode& e) {
        std::string c = e.s("c");
        if (c == "vector") {
            with<std::vector<int>>(e);
        } else if (c == "list") {
            with<std::list<int>>(e);
        } else {
            with<std::deque<int>>(e);
        }
    });
}
