#pragma once
#include "stub.hpp"
