// Initialises the application from a global object when APP_EARLY is set: before main and, being linked first,
// before the other translation unit's globals.
#include <cstdlib>
#include <cstring>
#include <exception>
#include "Caitlyn/String"

static const Caitlyn::Application* early = nullptr;
static const char* outcome = nullptr;
const Caitlyn::Application* early_application() { return early; }
const char* early_outcome() { return outcome; }

namespace
{
struct Early
{
    Early()
    {
        const char* e = std::getenv("APP_EARLY");
        if (!e) return;
        char a[] = "early-1", b[] = "early-2";
        const char* v[] = {a, b};
        try
        {
            early = *e == 'i' ? Caitlyn::Application::Initialise() : Caitlyn::Application::Initialize(2, v);
            outcome = early ? "early-ok" : "early-null";
        }
        catch (const std::exception&)
        {
            outcome = "early-E";
        }
        std::memset(a, '#', sizeof a - 1);
        std::memset(b, '#', sizeof b - 1);
    }
};
// a global of the highest user priority, constructed before every ordinary one
Early instance __attribute__((init_priority(101)));
}
