// Small helpers shared by the harnesses.
#pragma once
#include <cstdlib>
#include <filesystem>
#include <string>
#include <unistd.h>

namespace util
{
// a fresh private directory, removed at the end of the case (leftovers go with VERIF_SCRATCH)
struct scratch
{
    std::string path;
    scratch()
    {
        static int n = 0;
        const char* base = getenv("VERIF_SCRATCH");
        std::string t = std::string(base ? base : "/tmp") + "/vs" + std::to_string(getpid()) + "_" + std::to_string(n++) + "_XXXXXX";
        path = mkdtemp(&t[0]) ? t : std::string();
        if (path.empty()) _exit(98);
    }
    ~scratch()
    {
        std::error_code ec;
        std::filesystem::remove_all(path, ec);
    }
    scratch(const scratch&) = delete;
    scratch& operator=(const scratch&) = delete;
};
} // namespace util
