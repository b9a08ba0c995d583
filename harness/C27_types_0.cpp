#include "C27_cli.hpp"
void c27::reg_0()
{
#include "C27_types_0.inc"
}
