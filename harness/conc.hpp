#pragma once
#include "engine.hpp"
#include <algorithm>
#include <map>
void reg_prop(const char* id, const char* rule, void (*f)(pbt::Case&), uint64_t quick, uint64_t thorough, uint32_t batch);
void reg_raft();
void reg_threads();
void destroy_in_use(pbt::Case& c); // C27
