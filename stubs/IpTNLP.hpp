#include "IpIpoptApplication.hpp"
