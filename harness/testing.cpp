// C24: generated test suites run by the library's own TestRegistry, each in a process of its own.
#include "rt.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include "Caitlyn/String"
#include "Caitlyn/Testing"
using namespace rt;
using Caitlyn::String;
using Caitlyn::Test::TestRegistry;

static int g_log = -1;
static void ev(const std::string& s)
{
    const std::string t = s + " ";
    ssize_t r = ::write(g_log, t.data(), t.size());
    (void)r;
}

typedef std::vector<std::string> Script;
static std::vector<Script> g_scripts;

template <typename T>
static const T& op(const T& x)
{
    ev("e");
    return x;
}

struct NonStd
{
    int x;
};
struct Custom : std::exception
{
    std::string s;
    explicit Custom(const std::string& m) : s(m) {}
    ~Custom() noexcept override {}
    const char* what() const noexcept override { return s.c_str(); }
};

struct Cleanup
{
    ~Cleanup() { ev("c"); }
};

template <typename T>
static void cmp(const std::string& k, const T& a, const T& b)
{
    if (k == "eq") { ASSERT_EQ(op(a), op(b)); }
    else if (k == "ne") { ASSERT_NE(op(a), op(b)); }
    else if (k == "lt") { ASSERT_LT(op(a), op(b)); }
    else if (k == "le") { ASSERT_LE(op(a), op(b)); }
    else if (k == "gt") { ASSERT_GT(op(a), op(b)); }
    else if (k == "ge") { ASSERT_GE(op(a), op(b)); }
    else { ASSERT_EQ_PRINTABLE(op(a), op(b)); }
}

static void fail_at(Toks& in, const std::string& k)
{
    const std::string m = in.str();
    if (k == "rt") throw std::runtime_error(m);
    if (k == "lg") throw std::logic_error(m);
    if (k == "cu") throw Custom(m);
    if (k == "ba") throw std::bad_alloc();
    if (k == "in") throw 42;
    if (k == "cs") throw "literal";
    if (k == "ss") throw std::string(m);
    if (k == "ns") throw NonStd{1};
    if (k == "io") throw std::ios_base::failure(m);
    if (k == "ca") throw String(m);
    if (k == "nest")
    {
        try
        {
            throw std::runtime_error(m);
        }
        catch (...)
        {
            std::throw_with_nested(std::logic_error(m));
        }
    }
    if (k == "at") (void)std::string(m).at(1000000);
}

static void run_script(size_t i)
{
    Toks in;
    in.t = g_scripts[i];
    ev("t" + std::to_string(i));
    Cleanup c;
    while (in.more())
    {
        const std::string k = in.next();
        if (k == "m") ev("m" + in.next());
        else if (k == "T") fail_at(in, in.next());
        else if (k == "C") // an exception the test handles itself
        {
            try
            {
                fail_at(in, in.next());
            }
            catch (...)
            {
            }
        }
        else if (k == "A")
        {
            const std::string a = in.next();
            ev("b");
            if (a == "true") { const bool v = in.num() != 0; ASSERT_TRUE(op(v)); }
            else if (a == "false") { const bool v = in.num() != 0; ASSERT_FALSE(op(v)); }
            else if (a == "pass") { PASS(); }
            else if (a == "fail") { FAIL(); }
            else if (a == "msg") { const std::string m = in.str(); FAIL_MESSAGE() << m; }
            else if (a == "elset")
            {
                const bool f = in.num() != 0, v = in.num() != 0;
                if (f) ASSERT_TRUE(v);
                else ev("else");
            }
            else if (a == "elsef")
            {
                const bool f = in.num() != 0, v = in.num() != 0;
                if (f) ASSERT_FALSE(v);
                else ev("else");
            }
            else if (a == "streq")
            {
                const std::string x = in.next(), y = in.next();
                auto dec = [](const std::string& s) {
                    Toks t;
                    t.t.push_back(s);
                    return t.str();
                };
                const std::string xd = x == "N" ? "" : dec(x), yd = y == "N" ? "" : dec(y);
                const char* xp = x == "N" ? nullptr : xd.c_str();
                const char* yp = y == "N" ? nullptr : yd.c_str();
                ASSERT_STREQ(op(xp), op(yp));
            }
            else
            {
                const std::string ty = in.next();
                if (ty == "i") { const int x = static_cast<int>(in.num()), y = static_cast<int>(in.num()); cmp(a, x, y); }
                else if (ty == "l") { const long long x = in.num(), y = in.num(); cmp(a, x, y); }
                else if (ty == "u") { const unsigned long long x = in.unum(), y = in.unum(); cmp(a, x, y); }
                else if (ty == "d")
                {
                    const double x = rt::real(in.next()), y = rt::real(in.next());
                    cmp(a, x, y);
                }
                else if (ty == "s") { const std::string x = in.str(), y = in.str(); cmp(a, x, y); }
                else { const String x(in.str()), y(in.str()); cmp(a, x, y); }
            }
            ev("a");
        }
    }
    ev("z");
}

template <int I>
static void test_fn()
{
    run_script(I);
}

template <int I>
struct Table
{
    static void fill(std::vector<void (*)()>& v)
    {
        Table<I - 1>::fill(v);
        v.push_back(&test_fn<I>);
    }
};
template <>
struct Table<-1>
{
    static void fill(std::vector<void (*)()>&) {}
};
static const int kMax = 40;

static std::string slurp(int fd)
{
    std::string s;
    ::lseek(fd, 0, SEEK_SET);
    char b[65536];
    ssize_t k;
    while ((k = ::read(fd, b, sizeof b)) > 0) s.append(b, static_cast<size_t>(k));
    ::close(fd);
    return s;
}

// s RUNS NTESTS (xSUITE xNAME LEN tokens...)*
void run_case(Toks& in, Out& o)
{
    in.next();
    const int runs = static_cast<int>(in.num());
    const size_t n = in.unum();
    std::vector<std::pair<std::string, std::string>> names;
    g_scripts.clear();
    for (size_t i = 0; i < n; ++i)
    {
        const std::string s = in.str(), t = in.str();
        names.push_back(std::make_pair(s, t));
        Script sc;
        for (size_t k = in.unum(); k > 0; --k) sc.push_back(in.next());
        g_scripts.push_back(sc);
    }
    const int log = memfd_create("log", 0), text = memfd_create("text", 0);
    const pid_t pid = fork();
    if (pid == 0)
    {
        g_log = log;
        ::dup2(text, 1);
        static std::vector<void (*)()> table;
        Table<kMax - 1>::fill(table);
        for (size_t i = 0; i < n; ++i) TestRegistry::Instance().AddTest(names[i].first, names[i].second, table.at(i));
        int rc = 0;
        for (int r = 0; r < runs; ++r)
        {
            rc = TestRegistry::Instance().RunAll();
            ev("R" + std::to_string(rc));
            std::cout << "\n@@END\n";
        }
        std::cout.flush();
        std::exit(rc);
    }
    int st = 0;
    while (::waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st)) o.tok("X").num(WEXITSTATUS(st));
    else o.tok("S").num(WTERMSIG(st));
    const std::string l = slurp(log);
    o.hex(slurp(text));
    o.tok(l.c_str());
}
