#include "verif_options.h"
