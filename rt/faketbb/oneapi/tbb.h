#include "../faketbb.hpp"
