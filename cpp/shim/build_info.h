#pragma once
namespace tosca::evmzero::internal {
inline constexpr const char* kCompilerId = "sim";
inline constexpr const char* kCompilerVersion = "0";
inline constexpr const char* kBuildType = "sim";
inline constexpr const char* kCompileDefinitions = "";
inline constexpr const char* kCompileOptions = "";
inline constexpr const char* kAssertions = "ON";
inline constexpr const char* kAsan = "OFF";
inline constexpr const char* kMimalloc = "OFF";
inline constexpr const char* kTracy = "OFF";
}
