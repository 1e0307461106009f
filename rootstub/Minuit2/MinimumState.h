#include "../minimum.h"
