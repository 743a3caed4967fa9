#include "asio_sim.h"
