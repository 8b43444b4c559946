// Failing allocations inside of library calls.
#pragma once
// the k-th allocation from now fails (from 1), with every later one if persistent; 0: none
void fault_arm(long k, bool persistent);
// allocations since then
long fault_count();
// failed since then
long fault_hits();
