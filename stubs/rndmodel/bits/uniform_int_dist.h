// Model of uniform_int_distribution: each draw is an arbitrary value of the range, determined by the engine's position.
#pragma once
#include <type_traits>
#include <limits>
extern "C" int __symrnd_int(long key,long pos,int lo,int hi);
namespace std {
template<typename I=int> struct uniform_int_distribution { typedef I result_type; I lo,hi; struct param_type { typedef uniform_int_distribution distribution_type; I lo,hi; explicit param_type(I a=0,I b=numeric_limits<I>::max()):lo(a),hi(b){} I a() const { return lo; } I b() const { return hi; } };
  explicit uniform_int_distribution(I a=0,I b=numeric_limits<I>::max()):lo(a),hi(b){} explicit uniform_int_distribution(const param_type&p):lo(p.lo),hi(p.hi){} I a() const { return lo; } I b() const { return hi; } I min() const { return lo; } I max() const { return hi; } void reset(){}
  template<typename G> I operator()(G&g){ return (I)__symrnd_int(g.key,g.pos++,(int)lo,(int)hi); } template<typename G> I operator()(G&g,const param_type&p){ return (I)__symrnd_int(g.key,g.pos++,(int)p.lo,(int)p.hi); } };
}
