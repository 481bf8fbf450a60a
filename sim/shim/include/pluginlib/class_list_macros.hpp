#pragma once
#include <simros.hpp>
#define SIM_PL_CAT2(a, b) a##b
#define SIM_PL_CAT(a, b) SIM_PL_CAT2(a, b)
#define PLUGINLIB_EXPORT_CLASS(D, B) namespace { struct SIM_PL_CAT(SimPlugin_, __LINE__) { SIM_PL_CAT(SimPlugin_, __LINE__)() { \
  simros::register_plugin(#D, #B, []() -> void * { return static_cast<B *>(new D); }); } } SIM_PL_CAT(sim_plugin_, __LINE__); }
