#include "hist.hpp"
std::string hist_scratch;
bool tier_thorough = false;
void prop_init(const std::string& scratch, bool thorough) {
    hist_scratch = scratch;
    tier_thorough = thorough;
}
