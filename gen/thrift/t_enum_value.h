#include "ast.h"
