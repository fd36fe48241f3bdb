#pragma once
#include "mc.hpp"
#include <csetjmp>
#include <stdexcept>
namespace mc {
struct Aborted : std::runtime_error { explicit Aborted(const std::string& s) : std::runtime_error(s) {} };
extern bool catch_aborts;
extern jmp_buf assert_jump;   // assert() cannot throw (its handler is declared noexcept)
// true if f() throws, fails an assertion or calls Kokkos::abort
template <class F> bool rejects(F&& f) {
  struct G { bool o = catch_aborts; G() { catch_aborts = true; } ~G() { catch_aborts = o; } } g;
  if (_setjmp(assert_jump)) return true;
  try { f(); return false; }
  catch (const Violation&) { throw; } catch (const PruneExec&) { throw; } catch (const SkipExec&) { throw; }
  catch (...) { return true; }
}
} // namespace mc
