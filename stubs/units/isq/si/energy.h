#pragma once
#include <units/stub.h>
