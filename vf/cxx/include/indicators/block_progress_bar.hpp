// Stand-in for the indicators library (not installed here): progress bars that show nothing.
#pragma once
#include <cstddef>
#include <iostream>
#include <string>
#include <vector>
namespace indicators {
enum class Color { grey, red, green, yellow, blue, magenta, cyan, white, unspecified };
enum class FontStyle { bold, dark, italic, underline, blink, reverse, concealed, crossed };
namespace option {
#define VF_OPTION(NAME) \
  struct NAME {         \
    template <typename... T> explicit NAME(T&&...) {} \
  }
VF_OPTION(BarWidth);
VF_OPTION(PrefixText);
VF_OPTION(PostfixText);
VF_OPTION(Start);
VF_OPTION(End);
VF_OPTION(Fill);
VF_OPTION(Lead);
VF_OPTION(Remainder);
VF_OPTION(MaxPostfixTextLen);
VF_OPTION(Completed);
VF_OPTION(ShowPercentage);
VF_OPTION(ShowElapsedTime);
VF_OPTION(ShowRemainingTime);
VF_OPTION(SavedStartTime);
VF_OPTION(ForegroundColor);
VF_OPTION(MinProgress);
VF_OPTION(MaxProgress);
VF_OPTION(ProgressType);
#undef VF_OPTION
struct FontStyles {
  explicit FontStyles(std::vector<FontStyle>) {}
};
struct Stream {
  explicit Stream(std::ostream&) {}
};
}  // namespace option
class BlockProgressBar {
 public:
  template <typename... T> explicit BlockProgressBar(T&&...) {}
  template <typename T> void set_option(T&&) {}
  void set_progress(float) {}
  void tick() {}
  void mark_as_completed() {}
  bool is_completed() const { return false; }
  std::size_t current() { return 0; }
};
using ProgressBar = BlockProgressBar;
inline void show_console_cursor(bool) {}
}  // namespace indicators
