#pragma once
// the setup of setups.hpp which means the same as the custom setup 100 + i
inline constexpr int custom_of[] = {26, 26, 11, 11, 7, 15, 25, 25, 18, 12, 22, 0, 24, 8, 20, 9, 10, 3, 23, 5, 30, 31};
inline constexpr int custom_count = static_cast<int>(sizeof custom_of / sizeof custom_of[0]);
