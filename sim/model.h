// Reference model: an independent description of what coil documents, in terms of std types only.
#pragma once
#include <map>
#include <string>
#include <utility>
#include <vector>

namespace sim
{
    struct MValue
    {
        std::vector<std::string> sub;
        bool operator==(MValue const& r) const { return sub == r.sub; }
    };
    struct MInput
    {
        std::string name;
        std::vector<MValue> args;
        std::vector<std::pair<std::string, MValue>> named;
    };

    struct LexCfg
    {
        int sim = 0; // 0: DefaultLexer with the character sets below, otherwise simulated parser variant
        std::string group = "()", quotes = "'\"", seps = ",;|", spaces = " \t\n\r";
        int lexerId = 0; // simulated parser object
    };

    enum class Thr : int { None, Runtime, Custom, Int, Struct, BadAlloc, Percent, Empty, Long, Count };
    char const* thrWhat(Thr k); // nullptr: no message

    struct MParse
    {
        enum R { Ok, Error, Throws } r = Ok;
        Thr thr = Thr::None;
        MInput in;
    };
    MParse mParse(LexCfg const& cfg, std::string const& text);
    std::pair<size_t, int> simLexerPrefix(char const* p, size_t n); // length of the prefix, script
    // writes a text which denotes the input; false if this parser has no such text
    bool mRender(LexCfg const& cfg, MInput const& in, unsigned style, std::string& out);
    MValue mGroup(LexCfg const& cfg, std::string const& text);

    enum AT : int
    {
        A_INT, A_UINT, A_LONG, A_ULONG, A_LL, A_ULL, A_SHORT, A_USHORT, A_CHAR, A_SCHAR, A_UCHAR, A_BOOL, A_FLOAT, A_DOUBLE, A_LDOUBLE,
        A_STRING, A_VIEW, A_VALUE, A_STDSTR, A_STDVIEW, A_VECINT, A_VECSTR, A_OPTINT, A_SIMT,
        A_VECSIMT, A_OPTSIMT, A_OPTSTR, A_VECVECINT, A_PAIR, A_COUNT
    };
    struct MConv
    {
        enum R { Ok, Error, Throws } r = Ok;
        Thr thr = Thr::None;
        std::string repr;
    };
    MConv mConvert(AT t, MValue const& v);
    // texts which an error about this failed conversion has to mention
    std::vector<std::string> mConvertErrorMentions(AT t, MValue const& v);
    char const* mTypeName(AT t);
    std::string mUpToNul(std::string const& s); // what C formatting shows of a text

    // text coil produces for a value of an arithmetic type
    std::string mDoubleText(double d);
    std::string mLongDoubleText(long double d);
    std::string reprDouble(double d);
    std::string reprLongDouble(long double d);
    std::string reprList(std::vector<std::string> const& v);
    std::string reprValue(MValue const& v);

    std::string esc(std::string const& s);
    std::string unesc(std::string const& s);
}
