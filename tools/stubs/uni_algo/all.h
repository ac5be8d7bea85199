// Stand-in for the uni-algo headers, which this sandbox does not have.  Declarations only need to
// type-check; the bodies are byte-wise (ASCII) and are never executed by the analysis.
#pragma once
#include <string>
#include <string_view>
namespace una
{
inline std::wstring utf8to16(std::string_view v) { return std::wstring(v.begin(), v.end()); }
inline std::string utf16to8(std::wstring_view v) { return std::string(v.begin(), v.end()); }
namespace norm
{
    inline std::string to_nfc_utf8(std::string_view v) { return std::string(v); }
    inline std::string to_nfd_utf8(std::string_view v) { return std::string(v); }
}
namespace cases
{
    inline std::string to_casefold_utf8(std::string_view v)
    {
        std::string r(v);
        for (char& c : r)
            if (c >= 'A' && c <= 'Z')
                c = static_cast<char>(c + ('a' - 'A'));
        return r;
    }
}
namespace caseless
{
    inline int compare_utf8(std::string_view a, std::string_view b)
    {
        return cases::to_casefold_utf8(a).compare(cases::to_casefold_utf8(b));
    }
}
}
