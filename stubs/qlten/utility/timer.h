#ifndef QLTEN_STUB_TIMER_H
#define QLTEN_STUB_TIMER_H
#include <string>
#include <cstddef>
namespace qlten {
class Timer { public: Timer(); Timer(const std::string &); void Restart(); void Suspend(); double Elapsed() const; double PrintElapsed(size_t = 5) const; void ClearAndRestart(); };
}
#endif
