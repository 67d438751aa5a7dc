// Stand-in for the db-parser library: reads {"keyword": [1, 2, ...], ...}
#pragma once
#include <fstream>
#include <functional>
#include <list>
#include <sstream>
#include <stdexcept>
#include <string>

namespace dbparser {

class DBParserJSON
{
    std::string                                                             path;
    std::function<void(const std::string&, const std::list<unsigned int>&)> list_cb;
    std::function<void(const std::string&, unsigned int)>                   pair_cb;

public:
    explicit DBParserJSON(const char* p) : path(p)
    {
        if (!std::ifstream(path)) {
            throw std::runtime_error("cannot open " + path);
        }
    }
    void addCallbackList(std::function<void(const std::string&, const std::list<unsigned int>&)> cb)
    {
        list_cb = std::move(cb);
    }
    void addCallbackPair(std::function<void(const std::string&, unsigned int)> cb)
    {
        pair_cb = std::move(cb);
    }
    void parse()
    {
        std::ifstream     in(path);
        std::stringstream ss;
        ss << in.rdbuf();
        std::string s = ss.str();
        size_t      p = s.find('{');
        while (p != std::string::npos && (p = s.find('"', p)) != std::string::npos) {
            size_t                  q  = s.find('"', p + 1);
            std::string             kw = s.substr(p + 1, q - p - 1);
            size_t                  b  = s.find('[', q), e = s.find(']', b);
            std::list<unsigned int> docs;
            std::stringstream       l(s.substr(b + 1, e - b - 1));
            std::string             n;
            while (std::getline(l, n, ',')) {
                if (n.find_first_of("0123456789") != std::string::npos) {
                    docs.push_back(static_cast<unsigned int>(std::stoul(n)));
                }
            }
            if (list_cb) {
                list_cb(kw, docs);
            }
            if (pair_cb) {
                for (unsigned int d : docs) {
                    pair_cb(kw, d);
                }
            }
            p = e;
        }
    }
};

} // namespace dbparser
