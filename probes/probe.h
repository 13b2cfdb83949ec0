// Programs that show defects the library is known to have: each case prints what it observed.
#pragma once
#include "hsm/hsm.h"
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

inline std::string rec;
inline void note(const std::string& s) { rec += (rec.empty() ? "" : " ") + s; }
struct Entry {
    const char* n;
    template <class... A> void operator()(A&...) const { note(std::string("entry-") + n); }
};
struct Exit {
    const char* n;
    template <class... A> void operator()(A&...) const { note(std::string("exit-") + n); }
};
struct Case {
    const char* name;
    const char* wanted;
    void (*run)();
};
inline std::vector<Case>& cases()
{
    static std::vector<Case> c;
    return c;
}
struct Add {
    Add(const char* n, const char* w, void (*r)()) { cases().push_back({ n, w, r }); }
};
int main(int argc, char** argv)
{
    for (auto& c : cases()) {
        if (argc < 2)
            std::printf("%s\n", c.name);
        else if (!std::strcmp(argv[1], c.name)) {
            c.run();
            if (rec == c.wanted)
                std::printf("HOLDS\n");
            else
                std::printf("OBSERVED %s INSTEAD-OF %s\n", rec.c_str(), c.wanted);
        }
    }
}
struct e1 {};
struct e2 {};
struct e3 {};
struct e4 {};
