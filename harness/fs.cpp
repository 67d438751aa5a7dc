// The file helpers, acting on a tree inside the scratch directory, as an unprivileged user.
#include "vh.hpp"

#include <sse/schemes/utils/utils.hpp>

#include <algorithm>
#include <dirent.h>
#include <grp.h>
#include <sys/stat.h>

using namespace vh;
using namespace sse::utility;

static bool        dropped = false;
static std::string base;

static std::vector<std::string> split(const std::string& s)
{
    std::vector<std::string> v;
    std::istringstream       is(s);
    std::string              x;
    while (std::getline(is, x, '/')) {
        if (!x.empty()) {
            v.push_back(x);
        }
    }
    return v;
}
// names of the scenario to awkward names on disk, and back
static const std::vector<std::pair<std::string, std::string>> kNames
    = {{"a", "a"}, {"b", ".b"}, {"c", "c c"}, {"d", "d\n*"}, {"e", "e.txt"}};
static std::string disk(const std::string& n)
{
    for (auto& x : kNames) {
        if (x.first == n) {
            return x.second;
        }
    }
    return n;
}
static std::string undisk(const std::string& n)
{
    for (auto& x : kNames) {
        if (x.second == n) {
            return x.first;
        }
    }
    return "?" + n;
}
static std::string real(const std::string& p)
{
    std::string r = base;
    for (auto& x : split(p)) {
        r += "/" + disk(x);
    }
    return r;
}
// the text of a link at p to q, relative to the directory of p
static std::string link_text(const std::string& p, const std::string& q)
{
    std::string r;
    for (size_t i = 1; i < split(p).size(); i++) {
        r += "../";
    }
    for (auto& x : split(q)) {
        r += disk(x) + "/";
    }
    if (!r.empty()) {
        r.pop_back();
    }
    return r.empty() ? "." : r;
}
static std::map<std::string, std::string> targets; // path on disk -> scenario target

static void walk(const std::string& dir, std::vector<std::string>& name, std::string& o)
{
    DIR* d = opendir(dir.c_str());
    if (!d) {
        return;
    }
    std::vector<std::string> names;
    while (dirent* e = readdir(d)) {
        std::string n = e->d_name;
        if (n != "." && n != "..") {
            names.push_back(n);
        }
    }
    closedir(d);
    std::sort(names.begin(), names.end());
    for (auto& n : names) {
        std::string p = dir + "/" + n;
        struct stat s;
        if (lstat(p.c_str(), &s) != 0) {
            continue;
        }
        name.push_back(undisk(n));
        bool                     isl = S_ISLNK(s.st_mode), isd = S_ISDIR(s.st_mode);
        std::vector<std::string> to;
        if (isl) {
            char    buf[4096];
            ssize_t k = readlink(p.c_str(), buf, sizeof buf);
            auto    it = targets.find(p);
            if (it != targets.end() && k >= 0) {
                to = split(it->second);
            } else {
                to = {"?"};
            }
        }
        o += std::string(o.empty() ? "" : ",") + "{\"p\":" + Ev::val(name) + ",\"t\":\""
             + (isl ? "l" : isd ? "d" : S_ISREG(s.st_mode) ? "f" : "?") + "\",\"n\":"
             + std::to_string(S_ISREG(s.st_mode) ? s.st_size : 0) + ",\"to\":" + Ev::val(to) + ",\"ro\":"
             + ((isd && dropped && !(s.st_mode & S_IWUSR)) ? "true" : "false") + "}";
        if (isd) {
            walk(p, name, o);
        }
        name.pop_back();
    }
}

// makes everything removable again and removes it; used for clean-up only, on the base directory
static void unlock(const std::string& dir)
{
    chmod(dir.c_str(), 0755);
    DIR* d = opendir(dir.c_str());
    if (!d) {
        return;
    }
    while (dirent* e = readdir(d)) {
        std::string n = e->d_name;
        struct stat s;
        if (n != "." && n != ".." && lstat((dir + "/" + n).c_str(), &s) == 0 && S_ISDIR(s.st_mode)) {
            unlock(dir + "/" + n);
        }
    }
    closedir(d);
}

int main(int argc, char** argv)
{
    static int episodes = 0;
    return run(argc, argv, [](const Episode& e) {
        if (episodes++ == 0) {
            // relative names only: the scratch directory is the working directory
            if (chdir(scratch().c_str()) != 0) {
                _exit(3);
            }
            mkdir("fs", 0755);
            if (getuid() == 0 && chown("fs", 65534, 65534) == 0 && setgroups(0, nullptr) == 0 && setgid(65534) == 0
                && setuid(65534) == 0) {
                dropped = true;
            } else {
                dropped = getuid() != 0;
            }
            umask(022);
        }
        base = "fs/e" + std::to_string(episodes);
        mkdir(base.c_str(), 0755);
        targets.clear();
        for (const Op& op : e.ops) {
            Ev          ev(op.name);
            std::string p = real(op.s(0));
            ev.f("p", split(op.s(0)));
            if (op.name == "touch") {
                int fd = open(p.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_NOFOLLOW, 0644);
                if (fd >= 0) {
                    for (int i = 0; i < op.i(1); i++) {
                        (void)!write(fd, "x", 1);
                    }
                    close(fd);
                }
            } else if (op.name == "link") {
                // the parents of p must be real directories: relative targets are from there
                bool        ok = true;
                std::string q  = base;
                auto        v  = split(op.s(0));
                for (size_t i = 0; i + 1 < v.size(); i++) {
                    struct stat s;
                    q += "/" + disk(v[i]);
                    ok = ok && lstat(q.c_str(), &s) == 0 && S_ISDIR(s.st_mode);
                }
                if (ok && symlink(link_text(op.s(0), op.s(1)).c_str(), p.c_str()) == 0) {
                    targets[p] = op.s(1);
                }
            } else if (op.name == "lock") {
                struct stat s;
                if (dropped && lstat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode)) {
                    chmod(p.c_str(), 0555);
                }
            } else if (op.name == "mkdir") {
                ev.f("r", create_directory(p, 0755) ? "true" : "false");
            } else if (op.name == "rmfile") {
                ev.f("r", remove_file(p) ? "true" : "false");
            } else if (op.name == "rmdir") {
                std::string r;
                try {
                    r = remove_directory(p) ? "true" : "false";
                } catch (std::exception&) {
                    r = "error";
                }
                ev.f("r", r);
            } else if (op.name == "openfd") {
                long long r = -1;
                try {
                    int fd = open_fd(p, false);
                    r      = file_size(fd);
                    close(fd);
                } catch (std::exception&) {
                }
                ev.f("r", r);
            } else if (op.name == "query") {
                ev.raw("r", std::string("[") + (exists(p) ? "true" : "false") + "," + (is_file(p) ? "true" : "false")
                                + "," + (is_directory(p) ? "true" : "false") + "]");
            } else {
                _exit(3);
            }
            std::vector<std::string> n;
            std::string              o;
            walk(base, n, o);
            ev.raw("tree", "[" + o + "]").emit();
        }
        unlock(base);
    });
}
