#include "../fakempi.hpp"
