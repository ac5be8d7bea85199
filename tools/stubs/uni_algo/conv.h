#include "all.h"
