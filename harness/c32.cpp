// C32: timers against a clock that advances by any amount
#include "lib.hpp"
#include "timer.hpp"
extern "C" long __symclock_last();
H(clicks){ int n=P(1),start=P(2); std::vector<long> t; { Timer T(start?Timer::Start::True:Timer::Start::False); if(start) t.push_back(__symclock_last()); CHECKEQ(T.TotalTime(),0.0,"nothing elapsed before the second click");
  for(int i=0;i<n;i++){ T.Click(); t.push_back(__symclock_last()); CHECKEQ(T.TotalTime()*1e9,(double)(t.back()-t.front()),"total from first to last click"); CHECK(T.TotalTime()>=0.0,"total is not negative"); for(size_t k=0;k+1<t.size();k++) CHECKEQ(T[(int)k]*1e9,(double)(t[k+1]-t[k]),"interval between consecutive clicks"); }
  const Timer C(T); CHECKEQ(C.TotalTime(),T.TotalTime(),"copied total"); T.Click(); if(n+start>=2) CHECKEQ(C.TotalTime()*1e9,(double)(t.back()-t.front()),"copies are independent"); long last=__symclock_last(); if(n+start>=1) CHECKEQ(T.TotalTime()*1e9,(double)(last-t.front()),"total follows the new click"); } COVER("end"); }
H(range){ int n=P(1); { Timer T; for(int i=0;i<n;i++) T.Click(); int k=SI("k",-3,8); double v=0; auto f=[&]{ v=T[k]; }; int r=TRY(f); CHECK((r==0)==(k>=0&&k<n-1),"exactly the intervals between clicks can be read"); } COVER("end"); }
H(dflt){ { Timer T; Timer F(Timer::Start::False); CHECKEQ(T.TotalTime(),0.0,"not started"); T.Click(); long a=__symclock_last(); T.Click(); long b=__symclock_last(); CHECKEQ(T[0]*1e9,(double)(b-a),"first interval starts at the first click"); F.Click(); CHECKEQ(F.TotalTime(),0.0,"one click"); } COVER("end"); }
//@ run clicks 0 0..4 0..1 t=60
//@ run range 0 0..4 t=60
//@ run dflt 0 t=60
//@ thorough clicks 0 5..9 0..1 t=300
//@ thorough range 0 5..9 t=100
//@ bounds up to 5 clicks (thorough 10), every non-decreasing sequence of clock readings with steps of 0 to 100 s
//@ assume the system clock does not run backwards between clicks
