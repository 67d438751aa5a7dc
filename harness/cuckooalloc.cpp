// CuckooAllocator: one event per insertion, with both tables after it.
#include "vh.hpp"

#include <sse/schemes/oceanus/details/cuckoo.hpp>

using namespace vh;
using namespace sse::oceanus;

int main(int argc, char** argv)
{
    return run(argc, argv, [](const Episode& e) {
        size_t                      size = static_cast<size_t>(e.i("size"));
        details::CuckooAllocator    al(size, static_cast<size_t>(e.i("depth")));
        std::vector<CuckooKey>      keys(1);
        auto                        dump = [&](auto b, auto end) {
            std::vector<int> r;
            for (; b != end; ++b) {
                size_t v = b->value_index;
                if (details::CuckooAllocator::is_empty_placeholder(v)) {
                    r.push_back(0);
                } else if (v >= keys.size() || b->key.h[0] != keys[v].h[0] || b->key.h[1] != keys[v].h[1]) {
                    r.push_back(-1);
                } else {
                    r.push_back(static_cast<int>(v));
                }
            }
            return r;
        };
        for (const Op& op : e.ops) {
            CuckooKey k;
            k.h[0] = std::stoull(op.s(0));
            k.h[1] = std::stoull(op.s(1));
            if (op.name == "bad") {
                bool refused = false;
                try {
                    al.insert(k, ~0UL);
                } catch (std::invalid_argument&) {
                    refused = true;
                }
                Ev("bad").f("r", refused).emit();
                continue;
            }
            size_t id = keys.size();
            keys.push_back(k);
            size_t s = al.insert(k, id);
            Ev("ins")
                .f("id", id)
                .f("a", k.h[0] % size)
                .f("b", k.h[1] % size)
                .f("r", details::CuckooAllocator::is_empty_placeholder(s) ? -1L : static_cast<long>(s))
                .f("t1", dump(al.table_0_begin(), al.table_0_end()))
                .f("t2", dump(al.table_1_begin(), al.table_1_end()))
                .emit();
        }
    });
}
