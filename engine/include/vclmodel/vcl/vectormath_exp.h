#pragma once
#include "vectorclass.h"
