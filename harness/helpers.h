// What the two parts of the C33 driver share: variables both of them define.
#pragma once
#include <amtl/am-cxx.h>
KE_LINKONCE(long g_once) = 7;
KE_LINKONCE(long g_twice[3]) = {1, 2, 3};
long* once_of_other(int which);
