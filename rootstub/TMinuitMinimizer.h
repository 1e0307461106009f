#include "minimum.h"
