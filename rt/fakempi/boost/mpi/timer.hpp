#include "../../fakempi.hpp"
