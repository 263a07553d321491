// Common driver infrastructure: scenario files, fork-per-scenario, ndjson logging, worker threads.
#pragma once
#include <condition_variable>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <fcntl.h>
#include <poll.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vf
{

typedef std::vector<std::string> Toks;

struct Scenario {
    std::string       id;
    std::vector<Toks> lines;
};

// Tokens are separated by blanks; a token "%XX" escape encodes any byte; "%-" is the empty string.
inline std::string unesc(const std::string& s)
{
    if (s == "%-")
        return "";
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%' && i + 2 < s.size() + 0 && isxdigit(s[i + 1]) && isxdigit(s[i + 2])) {
            r.push_back((char) strtol(s.substr(i + 1, 2).c_str(), nullptr, 16));
            i += 2;
        } else
            r.push_back(s[i]);
    }
    return r;
}

inline std::vector<Scenario> read_scenarios(const char* fn)
{
    std::vector<Scenario> ret;
    std::ifstream         is(fn);
    std::string           line;
    while (std::getline(is, line)) {
        std::istringstream ls(line);
        Toks               t;
        std::string        w;
        while (ls >> w)
            t.push_back(unesc(w));
        if (t.empty() || t[0] == "#")
            continue;
        if (t[0] == "S") {
            ret.push_back({ t[1], {} });
            continue;
        }
        if (ret.empty())
            continue;
        ret.back().lines.push_back(t);
    }
    return ret;
}

// ---- JSON

struct J {
    std::string s;
    bool        first = true;
    explicit J(char open = '{') { s.push_back(open); }
    void        sep()
    {
        if (!first)
            s.push_back(',');
        first = false;
    }
    static std::string q(const std::string& v)
    {
        std::string r = "\"";
        for (unsigned char c : v) {
            if (c == '"' || c == '\\') {
                r.push_back('\\');
                r.push_back(c);
            } else if (c < 0x20 || c >= 0x7f) {
                char b[8];
                snprintf(b, 8, "\\u%04x", c);
                r += b;
            } else
                r.push_back(c);
        }
        return r + "\"";
    }
    J& key(const char* k)
    {
        sep();
        s += q(k);
        s.push_back(':');
        return *this;
    }
    J& i(const char* k, long long v)
    {
        key(k);
        s += std::to_string(v);
        return *this;
    }
    J& str(const char* k, const std::string& v)
    {
        key(k);
        s += q(v);
        return *this;
    }
    J& raw(const char* k, const std::string& v)
    {
        key(k);
        s += v;
        return *this;
    }
    J& el(const std::string& v)
    {
        sep();
        s += v;
        return *this;
    }
    J& el(long long v) { return el(std::to_string(v)); }
    std::string done(char close = '}') const { return s + close; }
};

template <class T>
std::string jarr(const std::vector<T>& v)
{
    J a('[');
    for (const auto& x : v)
        a.el(x);
    return a.done(']');
}

// ---- output of the running scenario

inline int& out_fd()
{
    static int fd = 1;
    return fd;
}
inline std::string& out_buf()
{
    static std::string b;
    return b;
}
inline void flush_out()
{
    std::string& b = out_buf();
    size_t       p = 0;
    while (p < b.size()) {
        ssize_t n = write(out_fd(), b.data() + p, b.size() - p);
        if (n <= 0) {
            if (n < 0 && errno == EINTR)
                continue;
            _exit(97);
        }
        p += n;
    }
    b.clear();
}
inline void emit(const std::string& line)
{
    out_buf() += line;
    out_buf() += '\n';
    if (out_buf().size() > (1u << 16))
        flush_out();
}
inline void emit(const J& j) { emit(j.done()); }

//   Runs fn(scenario) in a forked child for each scenario. The child writes ndjson lines;
// they are copied to the output file between {"e":"scenario"} and {"e":"end"} lines.
// Abnormal child ends are reported as {"e":"abnormal"}.
inline int run_all(
    int argc, char** argv, std::function<void(const Scenario&)> fn, unsigned timeout_s = 60, bool normal_exit = false,
    std::function<std::string(const Scenario&)> after = nullptr
)
{
    if (argc < 3) {
        fprintf(stderr, "usage: driver scenarios out.ndjson\n");
        return 2;
    }
    auto  scs = read_scenarios(argv[1]);
    FILE* out = fopen(argv[2], "w");
    int   hung = 0;
    if (!out)
        return 2;
    const char* scratch = getenv("VF_SCRATCH");
    for (const Scenario& sc : scs) {
        if (hung >= 2) { // two time-outs are enough to report
            fprintf(out, "{\"e\":\"scenario\",\"id\":%s}\n{\"e\":\"skipped\"}\n{\"e\":\"end\"}\n", J::q(sc.id).c_str());
            continue;
        }
        int p[2];
        if (pipe(p))
            return 2;
        fflush(out);
        pid_t pid = fork();
        if (pid == 0) {
            close(p[0]);
            out_fd() = p[1];
            if (!getenv("VF_STDERR")) {
                int   nul = -1;
                if (scratch) {
                    // keep the library's log for the end-of-scenario record
                    std::string fn = std::string(scratch) + "/stderr." + std::to_string(getppid());
                    nul = open(fn.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
                } else
                    nul = open("/dev/null", O_WRONLY);
                dup2(nul, 2);
                int n1 = open("/dev/null", O_WRONLY);
                dup2(n1, 1);
            }
            alarm(timeout_s);
            fn(sc);
            flush_out();
            if (normal_exit)
                exit(0);
            _exit(0);
        }
        close(p[1]);
        fprintf(out, "{\"e\":\"scenario\",\"id\":%s}\n", J::q(sc.id).c_str());
        char    buf[65536];
        ssize_t n;
        bool    nl = true;
        while ((n = read(p[0], buf, sizeof(buf))) != 0) {
            if (n < 0) {
                if (errno == EINTR)
                    continue;
                break;
            }
            fwrite(buf, 1, n, out);
            nl = buf[n - 1] == '\n';
        }
        close(p[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        if (!nl)
            fputc('\n', out);
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)
            ++hung;
        if (WIFSIGNALED(st))
            fprintf(out, "{\"e\":\"abnormal\",\"sig\":%d,\"code\":0}\n", WTERMSIG(st));
        else if (WEXITSTATUS(st) != 0)
            fprintf(out, "{\"e\":\"abnormal\",\"sig\":0,\"code\":%d}\n", WEXITSTATUS(st));
        if (after)
            fprintf(out, "%s\n", after(sc).c_str());
        fprintf(out, "{\"e\":\"end\"}\n");
    }
    fclose(out);
    return 0;
}

// ---- worker threads executing closures one at a time (controlled schedule)

class Worker
{
    std::mutex              m;
    std::condition_variable cv;
    std::function<void()>   job;
    bool                    has = false, quit = false;
    std::thread             th;

public:

    Worker()
    {
        th = std::thread([this] {
            std::unique_lock<std::mutex> g(m);
            while (true) {
                cv.wait(g, [this] { return has || quit; });
                if (has) {
                    job();
                    has = false;
                    cv.notify_all();
                } else if (quit)
                    return;
            }
        });
    }
    void start(std::function<void()> f)
    {
        std::unique_lock<std::mutex> g(m);
        cv.wait(g, [this] { return !has; });
        job = f;
        has = true;
        cv.notify_all();
    }
    void wait()
    {
        std::unique_lock<std::mutex> g(m);
        cv.wait(g, [this] { return !has; });
    }
    void run(std::function<void()> f)
    {
        start(f);
        wait();
    }
    void join()
    {
        if (!th.joinable())
            return;
        {
            std::unique_lock<std::mutex> g(m);
            quit = true;
            cv.notify_all();
        }
        th.join();
    }
    ~Worker() { join(); }
};

inline long to_i(const std::string& s) { return strtol(s.c_str(), nullptr, 0); }

} // namespace vf
