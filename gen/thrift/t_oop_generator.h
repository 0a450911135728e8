#include "t_generator.h"
