#include "cmds_impl.h"
namespace sim
{
    void registerCmdsA()
    {
        g_cmds.push_back(factory<false, void>());
        g_cmds.push_back(factory<true, void>());
        g_cmds.push_back(factory<false, int, int>());
        g_cmds.push_back(factory<true, int, int>());
        g_cmds.push_back(factory<true, coil::String, coil::String>());
        g_cmds.push_back(factory<false, coil::String, coil::StringView, coil::String>());
        g_cmds.push_back(factory<true, unsigned long, unsigned long, bool>());
        g_cmds.push_back(factory<true, long, long, short>());
        g_cmds.push_back(factory<true, SimT, SimT>());
    }
}
