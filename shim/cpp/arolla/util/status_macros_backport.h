#pragma once
#include "arolla/mini.h"
