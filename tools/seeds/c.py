seed('C01-fraction', 'C01', [('detail/impl/chrono.hpp', '  if (second_temp.count() < 0) {', '  if (first_temp.count() < 0 && second_temp.count() < 0) {')],
     'a time less than one second before the epoch', 'the fraction of the time is negative', r'''
#include "asioext/chrono.hpp"
#include "asioext/detail/chrono.hpp"
int main() {
  std::chrono::nanoseconds t(-5); std::chrono::seconds s; std::chrono::nanoseconds n;
  CHECK(asioext::detail::decompose_time(t, s, n) && s.count() == -1 && n.count() == 999999995);
}''')
seed('C01-wrap', 'C01', [('detail/impl/chrono.hpp', '''    if (in.count() >= (result_limit::min)() / result_ratio::num &&
        in.count() <= (result_limit::max)() / result_ratio::num) {''', '''    const conv_type limit = (result_limit::max)() / result_ratio::num;
    if (in.count() >= -limit - 1 && in.count() <= limit) {''')],
     'converting the smallest representable time minus a fraction into a finer unit', 'a value that does not fit wraps around instead of being refused', r'''
#include "asioext/chrono.hpp"
#include "asioext/detail/chrono.hpp"
#include <limits>
int main() {
  std::chrono::seconds s(INT64_MIN / 1000000000 - 1); std::chrono::nanoseconds n;
  CHECK(!asioext::detail::safe_duration_cast(s, n));
}''')
