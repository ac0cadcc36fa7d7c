#include "../../faketbb.hpp"
