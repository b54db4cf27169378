// C13: File histories killed at every system call (ptrace), with short and interrupted writes, and appending processes
// killed at random instants. Acknowledgements go through shared memory; the file is read independently afterwards.
#include "rt.hpp"
#include "Caitlyn/String"
#include "Caitlyn/File"
#include <atomic>
#include <cerrno>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <time.h>
using namespace rt;
using Caitlyn::String;
using Caitlyn::File;

struct Any { String v; String ToString() const { return v; } };
struct HasStrT { std::string v; std::string str() const { return v; } };
struct HasToStr { std::string v; std::string to_string() const { return v; } };

static uint32_t crc32(const std::string& s)
{
    uint32_t c = ~0u;
    for (unsigned char b : s)
    {
        c ^= b;
        for (int k = 0; k < 8; ++k) c = c & 1 ? 0xEDB88320u ^ (c >> 1) : c >> 1;
    }
    return ~c;
}

static std::string slurp(const std::string& p)
{
    std::string r;
    const int fd = ::open(p.c_str(), O_RDONLY);
    if (fd < 0) return r;
    char b[65536];
    ssize_t k;
    while ((k = ::read(fd, b, sizeof b)) > 0) r.append(b, static_cast<size_t>(k));
    ::close(fd);
    return r;
}

static void spit(const std::string& p, const std::string& s)
{
    const int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ::write(fd, s.data(), s.size()) != static_cast<ssize_t>(s.size())) _exit(94);
    ::close(fd);
}

static void put(File& f, const std::string& meth, const std::string& kind, const std::string& s)
{
#define DO(M)                                                                     \
    if (kind == "s") f.M(String(s));                                              \
    else if (kind == "c") f.M(s.c_str());                                         \
    else if (kind == "t") f.M(Any{String(s)});                                    \
    else if (kind == "y") f.M(HasStrT{s});                                        \
    else if (kind == "z") f.M(HasToStr{s});                                       \
    else if (kind == "f") { f.M("{0}|{1}{{}}", String(s), 7); }                   \
    else _exit(96);
    if (meth == "w") { DO(Write) }
    else if (meth == "wl") { DO(WriteLine) }
    else if (meth == "a") { DO(Append) }
    else if (meth == "al") { DO(AppendLine) }
    else _exit(96);
}

struct Shm
{
    std::atomic<uint64_t> started, returned, failed;
};
struct Shared
{
    Shm p[16];
    std::atomic<int> go;
};
static Shared* shm()
{
    static Shared* s = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    return s;
}

struct Op { std::string op; size_t h = 0, g = 0; std::string meth, kind, data; };

static void run_history(const std::vector<Op>& ops, const std::string& path, Shm& s)
{
    std::unique_ptr<File> h[2];
    for (const Op& p : ops)
    {
        s.started.fetch_add(1);
        try
        {
            auto& f = h[p.h];
            if (p.op == "open") { f.reset(); f.reset(new File(String(path))); }
            else if (p.op == "copy") { std::unique_ptr<File> t(new File(*h[p.g])); f = std::move(t); }
            else if (p.op == "del") f.reset();
            else if (p.op == "close") f->Close();
            else if (p.op == "reopen") f->Open();
            else if (p.op == "erase") f->Erase();
            else if (p.op == "put") put(*f, p.meth, p.kind, p.data);
            else if (p.op == "rd") (void)f->Read();
            else if (p.op == "rl") (void)f->ReadLine();
            else if (p.op == "sp") f->SetPosition(0);
            else _exit(96);
        }
        catch (...)
        {
            s.failed.fetch_add(1);
        }
        s.returned.fetch_add(1);
        ::syscall(SYS_getppid); // a kill point right after the call returned
    }
}

// One run. point: -1 = no kill; otherwise kill at the point-th system call stop (even: entry, odd: exit).
// cut >= 0: a write at that point is shortened to cut bytes first. mode: 0 plain, 1 short writes, 2 interrupted writes.
struct RunInfo { long stops = 0; long writes = 0; std::vector<std::pair<long, unsigned long>> wr; bool killed = false; int status = 0; };

static RunInfo run_traced(const std::vector<Op>& ops, const std::string& path, long point, long cut, int mode, unsigned seed)
{
    Shm& s = shm()->p[0];
    s.started = s.returned = s.failed = 0;
    const pid_t pid = fork();
    if (pid == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (ptrace(PTRACE_TRACEME, 0, nullptr, nullptr) != 0) _exit(93);
        ::alarm(30);
        raise(SIGSTOP);
        run_history(ops, path, s);
        _exit(0);
    }
    RunInfo ri;
    int st;
    if (waitpid(pid, &st, 0) != pid || !WIFSTOPPED(st))
    {
        std::fprintf(stderr, "RT: ptrace is not available\n");
        _exit(95);
    }
    ptrace(PTRACE_SETOPTIONS, pid, nullptr, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
    int sig = 0;
    bool entry = true, retry = false, interrupted = false;
    for (;;)
    {
        if (ptrace(PTRACE_SYSCALL, pid, nullptr, sig) != 0) break;
        sig = 0;
        if (waitpid(pid, &st, 0) != pid) break;
        if (WIFEXITED(st) || WIFSIGNALED(st)) { ri.status = st; return ri; }
        if (!WIFSTOPPED(st)) continue;
        if (WSTOPSIG(st) != (SIGTRAP | 0x80)) { sig = WSTOPSIG(st); continue; }
        const long here = ri.stops++;
        user_regs_struct r;
        ptrace(PTRACE_GETREGS, pid, nullptr, &r);
        const bool is_write = r.orig_rax == SYS_write || r.orig_rax == SYS_pwrite64;
        const bool is_any_write = is_write || r.orig_rax == SYS_writev;
        if (entry)
        {
            if (is_any_write)
            {
                ++ri.writes;
                ri.wr.push_back(std::make_pair(here, is_write ? static_cast<unsigned long>(r.rdx) : 0ul));
            }
            if (here == point && cut < 0) { kill(pid, SIGKILL); ri.killed = true; waitpid(pid, &st, 0); return ri; }
            if (here == point && is_write && static_cast<unsigned long>(cut) < r.rdx)
            {
                r.rdx = static_cast<unsigned long>(cut);
                ptrace(PTRACE_SETREGS, pid, nullptr, &r);
                point = here + 1;
            }
            else if (mode == 1 && is_write && r.rdx > 1)
            {
                seed = seed * 1103515245u + 12345u;
                r.rdx = 1 + (seed >> 8) % (r.rdx - 1);
                ptrace(PTRACE_SETREGS, pid, nullptr, &r);
            }
            else if (mode == 2 && is_any_write && !retry)
            {
                interrupted = true;
                r.orig_rax = static_cast<unsigned long long>(-1);
                ptrace(PTRACE_SETREGS, pid, nullptr, &r);
            }
            else retry = false;
        }
        else
        {
            if (interrupted)
            {
                interrupted = false;
                retry = true;
                r.rax = static_cast<unsigned long long>(-EINTR);
                ptrace(PTRACE_SETREGS, pid, nullptr, &r);
            }
            if (here == point) { kill(pid, SIGKILL); ri.killed = true; waitpid(pid, &st, 0); return ri; }
        }
        entry = !entry;
    }
    ri.status = -1;
    return ri;
}

static void enumerate_kills(Toks& in, Out& o)
{
    static int serial = 0;
    const std::string path = "k" + std::to_string(++serial) + ".txt";
    unsigned seed = static_cast<unsigned>(in.unum());
    const long maxpoints = static_cast<long>(in.unum());
    const std::string init = in.str();
    std::vector<Op> ops;
    while (in.more())
    {
        Op p;
        p.op = in.next();
        p.h = in.unum();
        if (p.op == "copy") p.g = in.unum();
        if (p.op == "put") { p.meth = in.next(); p.kind = in.next(); p.data = in.str(); }
        ops.push_back(p);
    }
    auto record = [&](const char* what, const RunInfo& ri) {
        const std::string s = slurp(path);
        Shm& m = shm()->p[0];
        o.tok(what).num(ri.killed ? 1 : ri.status).unum(m.started).unum(m.returned).unum(m.failed).unum(s.size()).unum(crc32(s)).tok(";");
    };
    auto rnd = [&] { seed = seed * 1103515245u + 12345u; return static_cast<long>((seed >> 4) & 0xffffff); };
    spit(path, init);
    const RunInfo base = run_traced(ops, path, -1, -1, 0, seed);
    record("full", base);
    std::vector<long> pts;
    if (base.stops <= maxpoints) for (long i = 0; i < base.stops; ++i) pts.push_back(i);
    else for (long i = 0; i < maxpoints; ++i) pts.push_back(rnd() % base.stops);
    for (long p : pts)
    {
        spit(path, init);
        record(p % 2 ? "kx" : "ke", run_traced(ops, path, p, -1, 0, seed));
    }
    for (const auto& w : base.wr)
    {
        if (w.second < 2) continue;
        const long cuts[3] = {1, static_cast<long>(w.second / 2), static_cast<long>(w.second) - 1};
        for (long c : cuts)
        {
            spit(path, init);
            record("kp", run_traced(ops, path, w.first, c, 0, seed));
        }
    }
    for (int mode = 1; mode <= 2; ++mode)
    {
        spit(path, init);
        const RunInfo m = run_traced(ops, path, -1, -1, mode, seed);
        record(mode == 1 ? "short" : "eintr", m);
        for (int k = 0; k < 6 && m.stops > 0; ++k)
        {
            spit(path, init);
            record(mode == 1 ? "ks" : "ki", run_traced(ops, path, rnd() % m.stops, -1, mode, seed));
        }
    }
    unlink(path.c_str());
}

// app SEED PROCS RECORDS MAXLEN KILLS(0/1): concurrent appenders; records are <p:seq:payload>
static std::string record_text(unsigned p, unsigned long seq, unsigned maxlen)
{
    unsigned x = p * 7919u + static_cast<unsigned>(seq) * 104729u + 17u;
    x = x * 1103515245u + 12345u;
    const unsigned n = (x >> 5) % maxlen;
    std::string s = "<" + std::to_string(p) + ":" + std::to_string(seq) + ":" + std::to_string(n) + ":";
    for (unsigned i = 0; i < n; ++i) s += static_cast<char>('a' + (seq + i * (p + 1)) % 26);
    return s + ">";
}

static void appenders(Toks& in, Out& o)
{
    static int serial = 0;
    const std::string path = "m" + std::to_string(++serial) + ".txt";
    unsigned seed = static_cast<unsigned>(in.unum());
    const unsigned procs = static_cast<unsigned>(in.unum());
    const unsigned long records = in.unum();
    const unsigned maxlen = static_cast<unsigned>(in.unum());
    const bool kills = in.unum() != 0;
    spit(path, "");
    Shared* s = shm();
    s->go = 0;
    std::vector<pid_t> pids;
    for (unsigned p = 0; p < procs; ++p)
    {
        s->p[p].started = s->p[p].returned = s->p[p].failed = 0;
        const pid_t pid = fork();
        if (pid == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            ::alarm(60);
            while (s->go.load() == 0) {}
            Shm& m = s->p[p];
            std::unique_ptr<File> f(new File(String(path)));
            for (unsigned long i = 0; i < records; ++i)
            {
                const std::string t = record_text(p, i, maxlen);
                m.started.fetch_add(1);
                switch ((i + p) % 8)
                {
                case 0: f->Write(String(t)); break;
                case 1: f->WriteLine(String(t)); break;
                case 2: f->Append(String(t)); break;
                case 3: f->AppendLine(String(t)); break;
                case 4: f->Write(t.c_str()); break;
                case 5: f->AppendLine(t.c_str()); break;
                case 6: f->WriteLine(HasStrT{t}); break;
                default: f->Append("{}", String(t)); break;
                }
                m.returned.fetch_add(1);
                if (i % 37 == 36) f.reset(new File(String(path)));
                if (i % 23 == 22) (void)f->ReadLine();
            }
            _exit(0);
        }
        pids.push_back(pid);
    }
    s->go = 1;
    auto rnd = [&] { seed = seed * 1103515245u + 12345u; return (seed >> 4) & 0xffffff; };
    std::vector<int> killed(procs, 0);
    if (kills)
    {
        for (unsigned k = 0; k < procs; ++k)
        {
            timespec ts = {0, static_cast<long>(rnd() % 3000) * 1000};
            nanosleep(&ts, nullptr);
            if (rnd() % 4 != 0) { kill(pids[k], SIGKILL); killed[k] = 1; }
        }
    }
    for (unsigned p = 0; p < procs; ++p)
    {
        int st;
        waitpid(pids[p], &st, 0);
        o.num(WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st)).unum(s->p[p].started).unum(s->p[p].returned);
    }
    // parse
    const std::string c = slurp(path);
    std::vector<unsigned long> next(procs, 0);
    unsigned long torn = 0, bad = 0, whole = 0, switches = 0, partial_ok = 0;
    unsigned lastp = 999;
    size_t i = 0;
    std::vector<int> tornp(procs, 0);
    while (i < c.size())
    {
        if (c[i] == '\n') { ++i; continue; }
        bool hit = false;
        if (c[i] == '<')
        {
            const unsigned p = static_cast<unsigned>(std::strtoul(c.c_str() + i + 1, nullptr, 10));
            if (p < procs && next[p] < records)
            {
                const std::string want = record_text(p, next[p], maxlen);
                if (c.compare(i, want.size(), want) == 0)
                {
                    hit = true;
                    i += want.size();
                    const unsigned long seq = next[p]++;
                    ++whole;
                    if (p != lastp) ++switches;
                    lastp = p;
                    const unsigned k = static_cast<unsigned>((seq + p) % 8);
                    const bool line = k == 1 || k == 3 || k == 5 || k == 6;
                    const bool has = i < c.size() && c[i] == '\n';
                    if (line && !has) { if (killed[p] && seq + 1 == s->p[p].started && s->p[p].returned <= seq) ++partial_ok; else ++bad; }
                    if (!line && has) ++bad;
                    if (has) ++i;
                }
            }
        }
        if (!hit)
        {
            // a prefix of the record a killed process was writing?
            size_t e = i;
            bool ok = false;
            for (unsigned p = 0; p < procs && !ok; ++p)
            {
                if (!killed[p] || tornp[p] || next[p] >= records || s->p[p].returned > next[p]) continue;
                const std::string want = record_text(p, next[p], maxlen);
                size_t k = 0;
                while (i + k < c.size() && k < want.size() && c[i + k] == want[k]) ++k;
                if (k > 0 && (i + k == c.size() || c[i + k] == '<')) { tornp[p] = 1; ++torn; e = i + k; ok = true; }
            }
            if (!ok) { ++bad; e = c.find('<', i + 1); if (e == std::string::npos) e = c.size(); }
            i = e;
        }
    }
    o.tok("|");
    for (unsigned p = 0; p < procs; ++p) o.unum(next[p]);
    o.tok("|").unum(whole).unum(torn).unum(bad).unum(switches).unum(partial_ok);
    unlink(path.c_str());
}

void run_case(Toks& in, Out& o)
{
    const std::string k = in.next();
    if (k == "kill") enumerate_kills(in, o);
    else if (k == "app") appenders(in, o);
    else _exit(96);
}
