// C10: console streams, in a forked process whose descriptors 0, 1 and 2 are pipes the harness reads after every call.
#include "rt.hpp"
#include "Caitlyn/String"
#include "Caitlyn/IO"
#include <sys/wait.h>
#include <sys/mman.h>
using namespace rt;
using Caitlyn::String;
using Caitlyn::InputStream;
using Caitlyn::OutputStream;
using Caitlyn::LogStream;
using Caitlyn::ErrorStream;
extern "C" void __sanitizer_set_report_fd(void*);

struct Any { String v; String ToString() const { return v; } };
struct HasStrT { std::string v; std::string str() const { return v; } };
struct HasToStr { std::string v; std::string to_string() const { return v; } };

static int outfd[2], errfd[2];

static std::string drain(int fd)
{
    std::string r;
    char b[65536];
    ssize_t k;
    while ((k = ::read(fd, b, sizeof b)) > 0) r.append(b, static_cast<size_t>(k));
    return r;
}

template <typename S>
static void write_op(const std::string& v, Toks& in)
{
    if (v == "l0") { S::WriteLine(); return; }
    const std::string s = in.str();
    if (v == "s") S::Write(String(s));
    else if (v == "c") S::Write(CBuf(s).p);
    else if (v == "t") S::Write(Any{String(s)});
    else if (v == "y") S::Write(HasStrT{s});
    else if (v == "z") S::Write(HasToStr{s});
    else if (v == "f") { const int i = static_cast<int>(in.num()); S::Write("{0}|{1:>4d}{{}}", String(s), i); }
    else if (v == "ls") S::WriteLine(String(s));
    else if (v == "lc") S::WriteLine(CBuf(s).p);
    else if (v == "lt") S::WriteLine(Any{String(s)});
    else if (v == "ly") S::WriteLine(HasStrT{s});
    else if (v == "lz") S::WriteLine(HasToStr{s});
    else if (v == "lf") { const int i = static_cast<int>(in.num()); S::WriteLine("{0}|{1:>4d}{{}}", String(s), i); }
    else _exit(96);
}

static void child(Toks& in, Out& o, bool merged)
{
    while (in.more())
    {
        const std::string op = in.next();
        guarded(o, [&] {
            if (op == "wo") write_op<OutputStream>(in.next(), in);
            else if (op == "we") write_op<ErrorStream>(in.next(), in);
            else if (op == "wl") write_op<LogStream>(in.next(), in);
            else if (op == "rl") { o.hex(InputStream::ReadLine().str()); }
            else if (op == "rlp") { const String p(in.str()); o.hex(InputStream::ReadLine(p).str()); }
            else if (op == "rlf") { const String p(in.str()); o.hex(InputStream::ReadLine(String("{}?{} "), p, 7).str()); }
            else if (op == "rc") { o.hex(InputStream::ReadChar().str()); }
            else if (op == "rcp") { const String p(in.str()); o.hex(InputStream::ReadChar(p).str()); }
            else if (op == "rcf") { const String p(in.str()); o.hex(InputStream::ReadChar(String("{}?{} "), p, 7).str()); }
            else _exit(96);
            o.tok("ok");
        });
        o.hex(drain(outfd[0])).hex(merged ? std::string() : drain(errfd[0])).tok(";");
    }
}

void run_case(Toks& in, Out& o)
{
    const std::string mode = in.next(); // stdin mode + m for merged
    const std::string input = in.str();
    const bool merged = mode.find('m') != std::string::npos;
    int res[2], inp[2];
    if (pipe(res)) _exit(94);
    const pid_t pid = fork();
    if (pid == 0)
    {
        __sanitizer_set_report_fd(reinterpret_cast<void*>(static_cast<intptr_t>(dup(2))));
        close(res[0]);
        if (pipe2(outfd, O_NONBLOCK) || pipe2(errfd, O_NONBLOCK) || pipe(inp)) _exit(94);
        fcntl(inp[1], F_SETPIPE_SZ, 1 << 20);
        fcntl(outfd[1], F_SETPIPE_SZ, 1 << 20);
        fcntl(errfd[1], F_SETPIPE_SZ, 1 << 20);
        fcntl(outfd[1], F_SETFL, 0);
        fcntl(errfd[1], F_SETFL, 0);
        if (mode[0] == 'f')
        {
            const int m = memfd_create("stdin", 0);
            if (::write(m, input.data(), input.size()) != static_cast<ssize_t>(input.size())) _exit(94);
            lseek(m, 0, SEEK_SET);
            dup2(m, 0);
        }
        else if (fork() == 0) // feeder: everything at once, or in small pieces
        {
            size_t p = 0, step = mode[0] == 't' ? 3 : 65536;
            while (p < input.size())
            {
                const ssize_t k = ::write(inp[1], input.data() + p, std::min(step, input.size() - p));
                if (k <= 0) break;
                p += static_cast<size_t>(k);
                if (mode[0] == 't') usleep(300);
            }
            _exit(0);
        }
        else
            dup2(inp[0], 0);
        close(inp[1]);
        dup2(outfd[1], 1);
        dup2(merged ? outfd[1] : errfd[1], 2);
        arm(20);
        child(in, o, merged);
        size_t w = 0;
        while (w < o.n)
        {
            const ssize_t k = ::write(res[1], o.buf + w, o.n - w);
            if (k <= 0) _exit(94);
            w += static_cast<size_t>(k);
        }
        _exit(0);
    }
    close(res[1]);
    std::string r;
    char b[65536];
    ssize_t k;
    while ((k = ::read(res[0], b, sizeof b)) > 0) r.append(b, static_cast<size_t>(k));
    close(res[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 99);
    o.raw(r.data(), r.size());
}
