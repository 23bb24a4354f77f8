#include "vf_net.hpp"
