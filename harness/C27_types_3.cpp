#include "C27_cli.hpp"
void c27::reg_3()
{
#include "C27_types_3.inc"
}
