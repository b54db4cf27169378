// C36: File histories during which system calls fail. The functions the C++ library calls are interposed; a fault is armed
// for one File operation ("! kind skip times errno partial") and only calls on the files of the case are affected.
#include "rt.hpp"
#include "Caitlyn/String"
#include "Caitlyn/File"
#include <cerrno>
#include <dlfcn.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
using namespace rt;
using Caitlyn::File;
using Caitlyn::String;
using Caitlyn::MakeFile;

static struct Fault
{
    char kind = 0;
    long skip = 0, times = 0, part = 0;
    int err = 0;
    long fired = 0;
    bool hit(char k)
    {
        if (kind != k || times == 0) return false;
        if (skip > 0) { --skip; return false; }
        --times;
        ++fired;
        return true;
    }
} fault;

static bool is_std(int fd) { return fd <= 2; }

extern "C" ssize_t write(int fd, const void* p, size_t n)
{
    if (!is_std(fd) && fault.hit('w'))
    {
        if (fault.part > 0 && n > 1)
            return syscall(SYS_write, fd, p, std::min(n - 1, static_cast<size_t>(fault.part)));
        errno = fault.err;
        return -1;
    }
    return syscall(SYS_write, fd, p, n);
}
extern "C" ssize_t writev(int fd, const iovec* v, int n)
{
    if (!is_std(fd) && fault.hit('w'))
    {
        if (fault.part > 0 && n > 0 && v[0].iov_len > 1)
            return syscall(SYS_write, fd, v[0].iov_base, std::min(v[0].iov_len - 1, static_cast<size_t>(fault.part)));
        errno = fault.err;
        return -1;
    }
    return syscall(SYS_writev, fd, v, n);
}
extern "C" ssize_t read(int fd, void* p, size_t n)
{
    if (!is_std(fd) && fault.hit('r'))
    {
        if (fault.part > 0 && n > 1)
            return syscall(SYS_read, fd, p, std::min(n - 1, static_cast<size_t>(fault.part)));
        errno = fault.err;
        return -1;
    }
    return syscall(SYS_read, fd, p, n);
}
extern "C" FILE* fopen(const char* p, const char* m)
{
    static FILE* (*real)(const char*, const char*) = reinterpret_cast<FILE* (*)(const char*, const char*)>(dlsym(RTLD_NEXT, "fopen"));
    if (fault.hit('o')) { errno = fault.err; return nullptr; }
    return real(p, m);
}
extern "C" FILE* fopen64(const char* p, const char* m)
{
    static FILE* (*real)(const char*, const char*) = reinterpret_cast<FILE* (*)(const char*, const char*)>(dlsym(RTLD_NEXT, "fopen64"));
    if (fault.hit('o')) { errno = fault.err; return nullptr; }
    return real(p, m);
}

struct Any { String v; String ToString() const { return v; } };
struct HasStrT { std::string v; std::string str() const { return v; } };
struct HasToStr { std::string v; std::string to_string() const { return v; } };

static std::string slurp(const std::string& p)
{
    std::string r;
    const int fd = ::open(p.c_str(), O_RDONLY);
    if (fd < 0) return r;
    char b[65536];
    ssize_t k;
    while ((k = syscall(SYS_read, fd, b, sizeof b)) > 0) r.append(b, static_cast<size_t>(k));
    ::close(fd);
    return r;
}

static void put(File& f, const std::string& meth, const std::string& kind, Toks& in)
{
    const std::string s = in.str();
    const int i = kind == "f" ? static_cast<int>(in.num()) : 0;
    const CBuf c(s);
#define DO(M)                                                                                     \
    if (kind == "s") f.M(String(s));                                                              \
    else if (kind == "c") f.M(static_cast<const char*>(c));                                       \
    else if (kind == "t") f.M(Any{String(s)});                                                    \
    else if (kind == "y") f.M(HasStrT{s});                                                        \
    else if (kind == "z") f.M(HasToStr{s});                                                       \
    else if (kind == "f") f.M("{0}|{1}{{}}", String(s), i);                                       \
    else _exit(96);
    if (meth == "w") { DO(Write) }
    else if (meth == "wl") { DO(WriteLine) }
    else if (meth == "a") { DO(Append) }
    else if (meth == "al") { DO(AppendLine) }
    else _exit(96);
}

void run_case(Toks& in, Out& o)
{
    const std::string what = in.next();
    if (what == "full") // a device that has no room
    {
        const std::string m = in.next(), k = in.next();
        guarded(o, [&] {
            File f(String("/dev/full"));
            put(f, m, k, in);
            o.tok("ok");
        });
        return;
    }
    static int serial = 0;
    const std::string dir = "e" + std::to_string(++serial);
    mkdir(dir.c_str(), 0755);
    if (what == "open") // names that cannot be opened
    {
        const std::string how = in.next(), rel = in.str();
        const std::string name = rel.empty() ? rel : rel[0] == '/' ? rel : dir + "/" + rel;
        guarded(o, [&] {
            if (how == "new") { File f{String(name)}; }
            else if (how == "fmt") { File f{String("{}{}"), String(name.substr(0, 2)), String(name.size() > 2 ? name.substr(2) : std::string())}; }
            else if (how == "mk") { File f(MakeFile(String(name))); }
            else if (how == "lit") { File f(operator""_file(name.c_str(), name.size())); }
            else if (how == "dflt") { File f; f.Open(); }
            else if (how == "dfltw") { File f; f.Write("x"); }
            else if (how == "dfltr") { File f; f.Read(); }
            else if (how == "dfltl") { File f; f.ReadLine(); }
            else _exit(96);
            o.tok("ok");
        });
        rmdir(dir.c_str());
        return;
    }
    const std::string path[2] = {dir + "/a.txt", dir + "/b {}é.txt"};
    {
        std::unique_ptr<File> h[3];
        while (in.more())
        {
            std::string op = in.next();
            fault.kind = 0;
            fault.fired = 0;
            Fault next;
            if (op == "!")
            {
                next.kind = in.next()[0];
                next.skip = static_cast<long>(in.num());
                next.times = static_cast<long>(in.num());
                next.err = static_cast<int>(in.num());
                next.part = static_cast<long>(in.num());
                op = in.next();
            }
            if (op == "ext")
            {
                const size_t p = in.unum();
                const std::string s = in.str();
                const int fd = ::open(path[p].c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
                if (syscall(SYS_write, fd, s.data(), s.size()) != static_cast<ssize_t>(s.size())) _exit(94);
                ::close(fd);
                o.tok("ok");
            }
            else
            {
                const size_t a = in.unum();
                const bool two = op == "open" || op == "openf" || op == "mk" || op == "lit" || op == "copy" || op == "rld" || op == "sp";
                const long b = two ? static_cast<long>(in.num()) : 0;
                const std::string m = op == "put" ? in.next() : "", k = op == "put" ? in.next() : "";
                const bool opens = op == "open" || op == "openf" || op == "mk" || op == "lit";
                if (!opens && (op == "copy" ? !h[b] : !h[a])) // an earlier construction failed
                {
                    if (op == "put") { in.str(); if (k == "f") in.num(); }
                    o.tok("none");
                }
                else {
                fault = next;
                guarded(o, [&] {
                    if (op == "open") { h[a].reset(); h[a].reset(new File(String(path[b]))); }
                    else if (op == "openf") { h[a].reset(); h[a].reset(new File(String("{}{}"), String(path[b].substr(0, 3)), String(path[b].substr(3)))); }
                    else if (op == "mk") { h[a].reset(); h[a].reset(new File(MakeFile(String(path[b])))); }
                    else if (op == "lit") { h[a].reset(); h[a].reset(new File(operator""_file(path[b].c_str(), path[b].size()))); }
                    else if (op == "copy") { std::unique_ptr<File> t(new File(*h[b])); h[a] = std::move(t); }
                    else if (op == "del") h[a].reset();
                    else if (op == "close") h[a]->Close();
                    else if (op == "reopen") h[a]->Open();
                    else if (op == "erase") h[a]->Erase();
                    else if (op == "put") put(*h[a], m, k, in);
                    else if (op == "rd") { o.hex(h[a]->Read().str()); }
                    else if (op == "rl") { o.hex(h[a]->ReadLine().str()); }
                    else if (op == "rld") { o.hex(h[a]->ReadLine(static_cast<char>(b)).str()); }
                    else if (op == "sp") { h[a]->SetPosition(static_cast<std::streamoff>(b)); }
                    else if (op == "gp") { const File& c = *h[a]; o.num(static_cast<long long>(std::streamoff(c.GetPosition()))); }
                    else if (op == "eof") { const File& c = *h[a]; o.boolean(c.IsEof()).boolean(static_cast<bool>(c)); }
                    else _exit(96);
                    o.tok("ok");
                });
                }
            }
            o.num(fault.fired);
            fault.kind = 0;
            for (int p = 0; p < 2; ++p) o.hex(slurp(path[p]));
            o.tok(";");
        }
    }
    for (auto& p : path) unlink(p.c_str());
    rmdir(dir.c_str());
}
