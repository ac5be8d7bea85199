// Permissive declarations of the absl formatting entry points: the sources use %v and
// AbslStringify, which the absl installed here does not have.  Only the types matter.
#pragma once
#include <cstdio>
#include <string>
#include <string_view>
#include "absl/strings/string_view.h"
#include "absl/types/span.h"
namespace absl
{
namespace sfa_stub
{
    template <class T>
    struct Identity
    {
        using type = T;
    };
    struct AnySpec
    {
        AnySpec(const char*) {}
        AnySpec(std::string_view) {}
        AnySpec(const std::string&) {}
    };
    template <class... A>
    struct Spec : AnySpec
    {
        using AnySpec::AnySpec;
    };
}
template <class... A>
using FormatSpec = sfa_stub::Spec<typename sfa_stub::Identity<A>::type...>;
template <class... A>
std::string StrFormat(const sfa_stub::AnySpec&, const A&...)
{
    return {};
}
template <class... A>
int PrintF(const sfa_stub::AnySpec&, const A&...)
{
    return 0;
}
template <class... A>
int FPrintF(std::FILE*, const sfa_stub::AnySpec&, const A&...)
{
    return 0;
}
template <class... A>
int SNPrintF(char*, std::size_t, const sfa_stub::AnySpec&, const A&...)
{
    return 0;
}
template <class S, class... A>
bool Format(S*, const sfa_stub::AnySpec&, const A&...)
{
    return true;
}
template <class... A>
std::string& StrAppendFormat(std::string* s, const sfa_stub::AnySpec&, const A&...)
{
    return *s;
}
}
