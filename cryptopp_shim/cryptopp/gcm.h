#pragma once
#include "cryptopp/verif_all.h"
