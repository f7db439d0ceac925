#include "validate.h"
