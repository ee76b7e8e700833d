#include "../rootstub.h"
