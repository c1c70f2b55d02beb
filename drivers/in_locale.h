// Locales as programs set them: numbers with a comma (de_DE), with a decimal separator of two bytes and digits of its own (ps_AF), other letter cases (tr_TR).
// They are compiled from the system's sources into a scratch directory; without these sources there is only "C".
#pragma once
#include "common.h"
#include <clocale>

namespace vf {
struct InLocale { InLocale(const std::string& n) { setlocale(LC_ALL, n.c_str()); } ~InLocale() { setlocale(LC_ALL, "C"); } };
inline const std::vector<std::string>& locales()
{
    static const std::vector<std::string> all = [] {
        std::vector<std::string> v { "C" }; std::string dir = scratch();
        for(std::string n : { "de_DE", "ps_AF", "tr_TR" }) {
            if(system(("localedef -c -i " + n + " -f UTF-8 '" + dir + "/" + n + ".UTF-8' >/dev/null 2>&1").c_str()) == -1) continue;
            setenv("LOCPATH", dir.c_str(), 1);
            if(setlocale(LC_ALL, (n + ".UTF-8").c_str())) v.push_back(n + ".UTF-8");
            setlocale(LC_ALL, "C");
        }
        return v;
    }();
    return all;
}
}
