#include "helpers.h"
long* once_of_other(int which) {
    return which ? &g_twice[which - 1] : &g_once;
}
