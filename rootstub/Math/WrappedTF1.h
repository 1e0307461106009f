#include "root.h"
