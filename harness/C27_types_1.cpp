#include "C27_cli.hpp"
void c27::reg_1()
{
#include "C27_types_1.inc"
}
