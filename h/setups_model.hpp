#pragma once
#include "model.hpp"
#include <vector>
const std::vector<model::Cfg>& setup_cfgs();
