// Stand-in for Catch2 in the check of EKAT's test driver: records what it is given.
#pragma once
#include <string>
#include <vector>
#include <iostream>
namespace fake_catch { int apply(int argc, const char* const* argv); int run(); }
namespace Catch {
struct Session {
  int applyCommandLine(int argc, const char* const* argv) { return fake_catch::apply(argc, argv); }
  int applyCommandLine(int argc, char** argv) { return fake_catch::apply(argc, argv); }
  int run() { return fake_catch::run(); }
  int run(int argc, char** argv) { int r = fake_catch::apply(argc, argv); return r ? r : fake_catch::run(); }
};
}
