#pragma once
#include "hypre_model.h"
