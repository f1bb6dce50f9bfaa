#include "cmds_impl.h"
namespace sim
{
    void registerCmdsB()
    {
        g_cmds.push_back(factory<true, void, SimT, SimT>());
        g_cmds.push_back(factory<true, std::string, std::string, std::vector<int>>());
        g_cmds.push_back(factory<true, std::vector<int>, std::vector<int>>());
        g_cmds.push_back(factory<true, std::optional<int>, std::optional<int>>());
        g_cmds.push_back(factory<true, coil::Value, coil::Value>());
        g_cmds.push_back(factory<true, double, double, float>());
        g_cmds.push_back(factory<false, bool, bool>());
        g_cmds.push_back(factory<true, int, int, int, int>());
        g_cmds.push_back(factory<true, coil::String, coil::String const&, coil::Value, int>());
    }
}
