#include "C27_cli.hpp"
void c27::reg_2()
{
#include "C27_types_2.inc"
}
