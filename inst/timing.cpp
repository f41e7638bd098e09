// Uses every inline function of the time classes, so that the compiler emits it.
#include <icl_core/icl_core.h>
#include <icl_core/TimeBase.h>
#include <icl_core/TimeSpan.h>
#include <icl_core/TimeStamp.h>
using namespace icl_core;
TimeStamp vf_stamp(uint64_t s, uint32_t n, const struct timespec& ts, time_t t)
{
  TimeStamp a, b(s, n), c(ts), d(t);
  (void)a.days(); (void)a.hours(); (void)a.minutes(); (void)a.seconds();
  (void)a.milliSeconds(); (void)a.microSeconds(); (void)a.nanoSeconds();
  (void)a.tsSec(); (void)a.tsUSec(); (void)a.tsNSec();
  return (a == b) && (b != c) && (c < d) && (a > b) && (a <= c) && (a >= d) ? b : TimeStamp::maxTime();
}
TimeStamp vf_stamp_add(TimeStamp a, const TimeSpan& s)
{
  a += s;
  a -= s;
  return (a + s) + TimeSpan(0, 0) - s + (a - a) + (s + a - a);
}
TimeSpan vf_span(const TimeSpan& a, const TimeSpan& b, double f)
{
  return abs((a + b) - (a * f) - (b / f));
}
struct VfBase : TimeBase
{
  int64_t all() const { return tbSec() + tbNSec() + days() + hours() + minutes() + seconds() + milliSeconds() + microSeconds() + nanoSeconds(); }
};
int64_t vf_base(const VfBase& b)
{
  return b.all();
}
