#pragma once
#include "comms/util/StaticVector.h"
