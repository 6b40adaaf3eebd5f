#include "p37.h"
static shared::Thing one;
shared::Thing two;
