#pragma once
#include "koladata/data_slice.h"
