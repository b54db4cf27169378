// C11/C12: File histories over three handles and two paths in a scratch directory; the bytes on disk are read
// independently after every operation.
#include "rt.hpp"
#include "Caitlyn/String"
#include "Caitlyn/File"
#include <sys/stat.h>
using namespace rt;
using Caitlyn::File;
using Caitlyn::String;
using Caitlyn::MakeFile;

struct Any { String v; String ToString() const { return v; } };
struct HasStrT { std::string v; std::string str() const { return v; } };
struct HasToStr { std::string v; std::string to_string() const { return v; } };

static uint32_t crc32(const std::string& s)
{
    static uint32_t tab[256];
    static bool init = false;
    if (!init)
    {
        for (uint32_t i = 0; i < 256; ++i)
        {
            uint32_t c = i;
            for (int k = 0; k < 8; ++k) c = c & 1 ? 0xEDB88320u ^ (c >> 1) : c >> 1;
            tab[i] = c;
        }
        init = true;
    }
    uint32_t c = ~0u;
    for (unsigned char b : s) c = tab[(c ^ b) & 255] ^ (c >> 8);
    return ~c;
}

static std::string slurp(const std::string& p, long long from = 0)
{
    std::string r;
    const int fd = ::open(p.c_str(), O_RDONLY);
    if (fd < 0) return r;
    if (::lseek(fd, 0, SEEK_END) < from) r = "shorter";
    ::lseek(fd, from, SEEK_SET);
    char b[65536];
    ssize_t k;
    while ((k = ::read(fd, b, sizeof b)) > 0) r.append(b, static_cast<size_t>(k));
    ::close(fd);
    return r;
}

static void put(File& f, const std::string& meth, const std::string& kind, Toks& in)
{
    const std::string s = in.str();
    const CBuf c(s);
#define DO(M)                                                                                     \
    if (kind == "s") f.M(String(s));                                                              \
    else if (kind == "c") f.M(static_cast<const char*>(c));                                       \
    else if (kind == "t") f.M(Any{String(s)});                                                    \
    else if (kind == "y") f.M(HasStrT{s});                                                        \
    else if (kind == "z") f.M(HasToStr{s});                                                       \
    else if (kind == "f") { const int i = static_cast<int>(in.num()); f.M("{0}|{1}{{}}", String(s), i); } \
    else _exit(96);
    if (meth == "w") { DO(Write) }
    else if (meth == "wl") { DO(WriteLine) }
    else if (meth == "a") { DO(Append) }
    else if (meth == "al") { DO(AppendLine) }
    else _exit(96);
}

void run_case(Toks& in, Out& o)
{
    const bool big = in.next() == "g"; // the first file starts with a hole of many GB
    const long long hole = big ? in.num() : 0;
    static int serial = 0;
    const std::string dir = "f" + std::to_string(++serial);
    mkdir(dir.c_str(), 0755);
    const std::string path[2] = {dir + "/a.txt", dir + "/b {}é.txt"};
    bool made = true;
    if (big)
    {
        const int fd = ::open(path[0].c_str(), O_WRONLY | O_CREAT, 0644);
        made = fd >= 0 && ::ftruncate(fd, hole) == 0;
        ::close(fd);
        if (!made) o.tok("nohole");
    }
    if (made)
    {
        std::unique_ptr<File> h[3];
        while (in.more())
        {
            const std::string op = in.next();
            guarded(o, [&] {
                if (op == "ext")
                {
                    const size_t p = in.unum();
                    const std::string s = in.str();
                    const int fd = ::open(path[p].c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
                    if (::write(fd, s.data(), s.size()) != static_cast<ssize_t>(s.size())) _exit(94);
                    ::close(fd);
                }
                else
                {
                    const size_t a = in.unum();
                    if (op == "open") { const size_t p = in.unum(); h[a].reset(); h[a].reset(new File(String(path[p]))); }
                    else if (op == "openf") { const size_t p = in.unum(); h[a].reset(); h[a].reset(new File(String("{}{}"), String(path[p].substr(0, 3)), String(path[p].substr(3)))); }
                    else if (op == "mk") { const size_t p = in.unum(); h[a].reset(); h[a].reset(new File(MakeFile(String(path[p])))); }
                    else if (op == "lit") { const size_t p = in.unum(); h[a].reset(); h[a].reset(new File(operator""_file(path[p].c_str(), path[p].size()))); }
                    else if (op == "copy") { const size_t k = in.unum(); std::unique_ptr<File> t(new File(*h[k])); h[a] = std::move(t); }
                    else if (op == "del") h[a].reset();
                    else if (op == "close") h[a]->Close();
                    else if (op == "reopen") h[a]->Open();
                    else if (op == "erase") h[a]->Erase();
                    else if (op == "put") { const std::string m = in.next(); const std::string k = in.next(); put(*h[a], m, k, in); }
                    else if (op == "rd") { o.hex(h[a]->Read().str()); }
                    else if (op == "rl") { o.hex(h[a]->ReadLine().str()); }
                    else if (op == "rld") { const char d = static_cast<char>(in.num()); o.hex(h[a]->ReadLine(d).str()); }
                    else if (op == "sp") { h[a]->SetPosition(static_cast<std::streamoff>(in.num())); }
                    else if (op == "gp") { const File& c = *h[a]; o.num(static_cast<long long>(std::streamoff(c.GetPosition()))); }
                    else if (op == "eof") { const File& c = *h[a]; o.boolean(c.IsEof()).boolean(static_cast<bool>(c)); }
                    else _exit(96);
                }
                o.tok("ok");
            });
            for (int p = 0; p < 2; ++p)
            {
                const std::string s = slurp(path[p], p == 0 ? hole : 0);
                o.idx(s.size()).unum(crc32(s));
            }
            o.tok(";");
        }
    }
    for (auto& p : path) unlink(p.c_str());
    rmdir(dir.c_str());
}
