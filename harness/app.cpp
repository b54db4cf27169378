// C31: one process per case; APP_OPS scripts what is done with the process's real arguments.
#include "sanopt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <string>
#include <vector>
#include <unistd.h>
#include "Caitlyn/Utility"
using Caitlyn::Application;

const Application* early_application();
const char* early_outcome();

static std::string out;
static void hex(const char* s)
{
    out += 'x';
    for (; *s; ++s)
    {
        char b[3];
        std::snprintf(b, sizeof b, "%02x", static_cast<unsigned char>(*s));
        out += b;
    }
    out += ' ';
}

int main(int argc, char** argv)
{
    const char* ops = std::getenv("APP_OPS");
    std::vector<char*> own;
    for (int i = 0; i < argc; ++i) own.push_back(strdup(argv[i]));
    const char** av = static_cast<const char**>(std::malloc(sizeof(char*) * (own.size() + 1)));
    for (size_t i = 0; i < own.size(); ++i) av[i] = own[i];
    av[own.size()] = nullptr;
    const Application* app = early_application();
    if (early_outcome()) out += std::string(early_outcome()) + " ";
    for (const char* p = ops; *p; ++p)
    {
        const Application* got = nullptr;
        const char* other[] = {"other", "vector", "of", "arguments"};
        out += *p;
        out += ' ';
        try
        {
            switch (*p)
            {
                case 'i': got = Application::Initialise(); break;
                case 'a': got = Application::Initialize(argc, av); break;
                case '1': got = Application::Initialize(argc > 0 ? 1 : 0, av); break;
                case 'n': got = Application::Initialize(0, nullptr); break;
                case 'x': got = Application::Initialize(4, other); break;
                case 'm':
                    for (char* s : own) std::memset(s, '#', std::strlen(s));
                    break;
                case 'f':
                    for (char*& s : own) { std::free(s); s = nullptr; }
                    std::memset(av, 0x5a, sizeof(char*) * own.size());
                    std::free(av);
                    av = static_cast<const char**>(std::calloc(own.size() + 1, sizeof(char*)));
                    for (size_t i = 0; i < own.size(); ++i) av[i] = own[i] = strdup("replaced");
                    break;
                case 'r':
                    if (!app) break;
                    out += std::to_string(app->GetArgs().size()) + " ";
                    for (const char* s : app->GetArgs()) hex(s);
                    break;
                case 'v':
                    if (!app) break;
                    hex(app->GetCaitlynInfo());
                    hex(app->GetSystemName());
                    hex(app->GetCompilerInfo());
                    break;
            }
            if (std::strchr("ia1nx", *p))
            {
                out += got == nullptr ? "null " : app == nullptr || got == app ? "ok " : "other ";
                if (!app) app = got;
            }
        }
        catch (const std::exception&)
        {
            out += "E ";
        }
    }
    out += "\n";
    size_t w = 0;
    while (w < out.size())
    {
        const ssize_t k = ::write(1, out.data() + w, out.size() - w);
        if (k <= 0) return 94;
        w += static_cast<size_t>(k);
    }
    for (char* s : own) std::free(s);
    std::free(av);
    return 0;
}
