#include "../config.hpp"
