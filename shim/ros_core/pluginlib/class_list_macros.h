#pragma once
#define PLUGINLIB_EXPORT_CLASS(a, b) namespace shim_plugin_ { static const char* const kClass __attribute__((unused)) = #a ":" #b; }
