#include "rootstub.h"
