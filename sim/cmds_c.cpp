#include "cmds_impl.h"
namespace sim
{
    void registerCmdsC()
    {
        g_cmds.push_back(factory<true, char const*, unsigned char>());
        g_cmds.push_back(factory<true, int const&, SimT const&, int, coil::String>());
        g_cmds.push_back(factory<true, unsigned, unsigned, long long>());
        g_cmds.push_back(factory<true, void, std::vector<std::string>>());
        g_cmds.push_back(factory<false, std::string, std::string_view>());
        g_cmds.push_back(factory<true, int const*, signed char>());
        g_cmds.push_back(factory<true, void, int, int, int, int, int>());
        g_cmds.push_back(factory<true, unsigned long long, unsigned long long, char, unsigned short>());
    }
}
