#include <Kokkos_Core.hpp>
#include <Kokkos_Array.hpp>
#include <Kokkos_MathematicalFunctions.hpp>
#include <array>
#include <cstdio>
struct Functor {
  Kokkos::View<double*> v;
  KOKKOS_FUNCTION void operator()(int i) const { v(i) = i; }
};
struct TagA {};
struct Functor2 {
  Kokkos::View<double*> v;
  KOKKOS_FUNCTION void operator()(TagA, int i) const { v(i) = i; }
  KOKKOS_FUNCTION void operator()(int i, double& acc) const { acc += v(i); }
};
void a() {
  int n=5;
  Kokkos::View<double*> v("v", n);
  Kokkos::parallel_for(n, KOKKOS_LAMBDA(int i){ v(i)=i; });
  Kokkos::parallel_for("x", n, KOKKOS_LAMBDA(int i){ v(i)=i; });
  Kokkos::parallel_for("x", Kokkos::RangePolicy<>(0,n), KOKKOS_LAMBDA(int i){ v(i)=i; });
  Kokkos::parallel_for("x", Kokkos::RangePolicy(0,n), KOKKOS_LAMBDA(int i){ v(i)=i; });
  Kokkos::parallel_for("x", Kokkos::RangePolicy<Kokkos::IndexType<int>>(0,n), Functor{v});
  Kokkos::parallel_for("x", Kokkos::RangePolicy<Kokkos::DefaultExecutionSpace>(Kokkos::DefaultExecutionSpace(),0,n), Functor{v});
  Kokkos::parallel_for("x", Kokkos::RangePolicy<Kokkos::DefaultHostExecutionSpace>(0,n), [=](int i){ (void)i; });
  Kokkos::parallel_for("x", Kokkos::RangePolicy<TagA>(0,n), Functor2{v});
  double s=0;
  Kokkos::parallel_reduce(n, KOKKOS_LAMBDA(int i, double& l){ l+=v(i); }, s);
  Kokkos::parallel_reduce("x", n, Functor2{v}, s);
  Kokkos::parallel_reduce("x", Kokkos::RangePolicy<>(0,n), KOKKOS_LAMBDA(int i, double& l){ l=Kokkos::max(l,v(i)); }, Kokkos::Max<double>(s));
  double s2=0;
  Kokkos::parallel_reduce("x", Kokkos::RangePolicy<>(0,n), KOKKOS_LAMBDA(int i, double& l, double& m){ l+=v(i); m=Kokkos::min(m,v(i)); }, s, Kokkos::Min<double>(s2));
  Kokkos::View<double> sv("sv");
  Kokkos::parallel_reduce("x", n, KOKKOS_LAMBDA(int i, double& l){ l+=v(i); }, sv);
  Kokkos::View<double, Kokkos::HostSpace> svh("svh");
  Kokkos::parallel_reduce("x", n, KOKKOS_LAMBDA(int i, double& l){ l+=v(i); }, svh);
  Kokkos::parallel_reduce("x", n, KOKKOS_LAMBDA(int i, double& l){ l=Kokkos::min(l,v(i)); }, Kokkos::Min<double>(sv));
  Kokkos::deep_copy(s, sv);
  Kokkos::MinMaxScalar<double> mm;
  Kokkos::parallel_reduce("x", n, KOKKOS_LAMBDA(int i, Kokkos::MinMaxScalar<double>& l){ l.min_val=Kokkos::min(l.min_val,v(i)); l.max_val=Kokkos::max(l.max_val,v(i)); }, Kokkos::MinMax<double>(mm));
  using ML=Kokkos::MinLoc<double,int>; ML::value_type ml;
  Kokkos::parallel_reduce("x", n, KOKKOS_LAMBDA(int i, ML::value_type& l){ if(v(i)<l.val){l.val=v(i); l.loc=i;} }, ML(ml));
  using MMM=Kokkos::MaxLoc<double,int>; MMM::value_type mm2;
  Kokkos::parallel_reduce("x", n, KOKKOS_LAMBDA(int i, MMM::value_type& l){ if(v(i)>l.val){l.val=v(i); l.loc=i;} }, MMM(mm2));
  bool b=false; Kokkos::parallel_reduce("x", n, KOKKOS_LAMBDA(int i, bool& l){ l = l || v(i)>3; }, Kokkos::LOr<bool>(b));
  Kokkos::parallel_reduce("x", n, KOKKOS_LAMBDA(int i, bool& l){ l = l && v(i)>3; }, Kokkos::LAnd<bool>(b));
  int bi=0; Kokkos::parallel_reduce("x", n, KOKKOS_LAMBDA(int i, int& l){ l |= v(i)>3; }, Kokkos::BOr<int>(bi));
  Kokkos::parallel_reduce("x", n, KOKKOS_LAMBDA(int i, double& l){ l*=v(i); }, Kokkos::Prod<double>(s));
  Kokkos::parallel_reduce("x", n, KOKKOS_LAMBDA(int i, double& l){ l+=v(i); }, Kokkos::Sum<double>(s));
  Kokkos::parallel_scan("x", n, KOKKOS_LAMBDA(int i, double& l, bool f){ l+=v(i); if(f) v(i)=l; });
  Kokkos::parallel_scan("x", n, KOKKOS_LAMBDA(int i, double& l, bool f){ l+=v(i); if(f) v(i)=l; }, s);
  // MD
  Kokkos::View<double***> w("w",3,4,5); Kokkos::View<double****> w4("w",3,4,5,2);
  Kokkos::parallel_for("x", Kokkos::MDRangePolicy<Kokkos::Rank<3>>({0,0,0},{3,4,5}), KOKKOS_LAMBDA(int i,int j,int k){ w(i,j,k)=1; });
  Kokkos::parallel_for("x", Kokkos::MDRangePolicy<Kokkos::Rank<3>>({0,0,0},{3,4,5},{1,1,1}), KOKKOS_LAMBDA(int i,int j,int k){ w(i,j,k)=1; });
  Kokkos::parallel_for("x", Kokkos::MDRangePolicy<Kokkos::Rank<3>, Kokkos::IndexType<int>>(Kokkos::Array<int,3>{0,0,0},Kokkos::Array<int,3>{3,4,5}), KOKKOS_LAMBDA(int i,int j,int k){ w(i,j,k)=1; });
  Kokkos::parallel_for("x", Kokkos::MDRangePolicy<Kokkos::Rank<3, Kokkos::Iterate::Left, Kokkos::Iterate::Left>>({0,0,0},{3,4,5}), KOKKOS_LAMBDA(int i,int j,int k){ w(i,j,k)=1; });
  Kokkos::parallel_for("x", Kokkos::MDRangePolicy<Kokkos::Rank<4>>({0,0,0,0},{3,4,5,2}), KOKKOS_LAMBDA(int i,int j,int k,int l){ w4(i,j,k,l)=1; });
  Kokkos::parallel_for("x", Kokkos::MDRangePolicy<Kokkos::DefaultExecutionSpace, Kokkos::Rank<2>>({0,0},{3,4}), KOKKOS_LAMBDA(int i,int j){ w(i,j,0)=1; });
  Kokkos::MDRangePolicy p2({0,0},{3,4}); (void)p2;
  Kokkos::parallel_reduce("x", Kokkos::MDRangePolicy<Kokkos::Rank<3>>({0,0,0},{3,4,5}), KOKKOS_LAMBDA(int i,int j,int k,double& l){ l+=w(i,j,k); }, s);
  Kokkos::fence(); Kokkos::fence("a"); Kokkos::DefaultExecutionSpace().fence(); Kokkos::DefaultExecutionSpace().fence("x");
  // views
  Kokkos::View<double***> nw(Kokkos::view_alloc("a", Kokkos::WithoutInitializing), 3,4,5);
  Kokkos::View<double***> nw2(Kokkos::view_alloc(Kokkos::WithoutInitializing, "a"), w.layout());
  auto h = Kokkos::create_mirror_view(w); auto h2=Kokkos::create_mirror(w); auto h3=Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), w);
  auto h4=Kokkos::create_mirror_view_and_copy(Kokkos::DefaultHostExecutionSpace(), w);
  auto h5=Kokkos::create_mirror_view(Kokkos::WithoutInitializing, w);
  auto h6=Kokkos::create_mirror_view(Kokkos::HostSpace(), w);
  auto d1=Kokkos::create_mirror_view_and_copy(Kokkos::DefaultExecutionSpace::memory_space(), h);
  Kokkos::deep_copy(h, w); Kokkos::deep_copy(w, 0.0); Kokkos::deep_copy(w, 0); Kokkos::deep_copy(Kokkos::DefaultExecutionSpace(), w, nw); Kokkos::deep_copy(Kokkos::DefaultExecutionSpace(), w, 1.0);
  auto sub=Kokkos::subview(w, 0, Kokkos::ALL, Kokkos::ALL()); auto sub2=Kokkos::subview(w, Kokkos::pair<int,int>(0,2), std::make_pair(0,2), 1);
  auto sub3=Kokkos::subview(w, Kokkos::make_pair(0,2), std::pair(0,2), Kokkos::ALL);
  Kokkos::deep_copy(sub3, 2.0); Kokkos::deep_copy(sub, 3.0); (void)sub2;
  Kokkos::resize(w, 4,4,4); Kokkos::realloc(w, 4,4,5); Kokkos::realloc(Kokkos::WithoutInitializing, w, 4,4,5);
  static_assert(Kokkos::View<double***>::rank()==3); static_assert(decltype(w)::rank==3);
  Kokkos::View<double const***, Kokkos::LayoutLeft> cw=w; Kokkos::View<const double***> cw2=w; (void)cw; (void)cw2;
  Kokkos::View<double**[3]> st("st", 2,2); Kokkos::View<double[3]> s3("s3"); st.extent(2);
  auto vv=cw; (void)vv.is_allocated(); (void)cw.size(); (void)cw.span(); (void)cw.label();
  decltype(w)::const_type cc=w; (void)cc; typename decltype(w)::value_type x=0; (void)x; using ES=decltype(w)::execution_space; ES().fence();
  typename Kokkos::View<double***>::host_mirror_type hm; Kokkos::View<double***>::HostMirror hm2; (void)hm;(void)hm2;
  Kokkos::View<double*, Kokkos::HostSpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> um(&s,1);
  Kokkos::View<double*, Kokkos::HostSpace, Kokkos::MemoryUnmanaged> um2(&s,1);
  Kokkos::View<double***, Kokkos::MemoryTraits<Kokkos::RandomAccess>> ra(w); Kokkos::View<double const***, Kokkos::MemoryTraits<Kokkos::RandomAccess>> ra2=w; (void)ra;(void)ra2;
  Kokkos::View<double***, Kokkos::MemoryTraits<Kokkos::Atomic>> at(w); (void)at;
  Kokkos::View<double***, Kokkos::MemoryTraits<Kokkos::Restrict>> re(w); (void)re;
  std::swap(w, nw); Kokkos::kokkos_swap(s, s2);
  // team
  using TP=Kokkos::TeamPolicy<>; 
  Kokkos::parallel_for("t", TP(4, Kokkos::AUTO), KOKKOS_LAMBDA(TP::member_type const& m){ int i=m.league_rank(); double r=0; Kokkos::parallel_reduce(Kokkos::TeamThreadRange(m, 3), [&](int k, double& l){ l+=k; }, r); Kokkos::single(Kokkos::PerTeam(m), [&](){ v(i)=r; }); m.team_barrier(); Kokkos::parallel_for(Kokkos::TeamThreadRange(m,0,3), [&](int k){ (void)k; }); Kokkos::parallel_for(Kokkos::TeamVectorRange(m,3), [&](int k){ (void)k; }); Kokkos::parallel_for(Kokkos::ThreadVectorRange(m,3), [&](int k){ (void)k; });});
  // misc
  Kokkos::Timer t; (void)t.seconds(); t.reset(); Kokkos::Profiling::pushRegion("a"); Kokkos::Profiling::popRegion(); Kokkos::Profiling::ScopedRegion sr("a");
  Kokkos::Array<double,3> arr{1,2,3}; for(double e: arr) s+=e; auto [q1,q2,q3]=arr; s+=q1+q2+q3; arr=Kokkos::Array{1.,2.,3.}; bool eq= arr==arr; (void)eq; bool ne = arr!=arr; (void)ne; Kokkos::Array<Kokkos::Array<int,2>,2> aa{{{1,2},{3,4}}}; (void)aa;
  auto mmx=Kokkos::minmax(1,2); (void)mmx; Kokkos::clamp(1,0,2); Kokkos::max({1,2,3}); Kokkos::min(1.,2.);
  Kokkos::abs(-1.); Kokkos::fabs(-1.); Kokkos::fmax(1.,2.); Kokkos::sqrt(2); Kokkos::pow(2.,2); Kokkos::isnan(1.); Kokkos::isfinite(1.); Kokkos::numbers::pi_v<double>; Kokkos::numbers::pi; Kokkos::Experimental::finite_max<double>::value; Kokkos::Experimental::finite_max_v<double>; Kokkos::Experimental::epsilon<double>::value; Kokkos::Experimental::quiet_NaN<double>::value; Kokkos::Experimental::norm_min<double>::value; Kokkos::reduction_identity<double>::min(); Kokkos::signbit(1.0);Kokkos::copysign(1.0,2.0);Kokkos::rsqrt(1.0);
  Kokkos::atomic_add(&s, 1.0); Kokkos::atomic_fetch_max(&s,1.0); Kokkos::atomic_fetch_min(&s,1.0); Kokkos::atomic_compare_exchange(&s,1.0,2.0); Kokkos::atomic_exchange(&s,1.0); Kokkos::atomic_or(&bi,1); Kokkos::atomic_sub(&s,1.0); Kokkos::atomic_increment(&bi); Kokkos::atomic_max(&s,1.0);
  if (s>1e300) { Kokkos::abort("x"); } Kokkos::printf("%d\n", 3);
  static_assert(Kokkos::is_view_v<decltype(w)>); static_assert(Kokkos::is_view<decltype(w)>::value); static_assert(Kokkos::SpaceAccessibility<Kokkos::HostSpace, Kokkos::HostSpace>::accessible);
  static_assert(Kokkos::is_execution_space_v<Kokkos::DefaultExecutionSpace>); static_assert(Kokkos::is_memory_space_v<Kokkos::HostSpace>);
  (void)Kokkos::DefaultExecutionSpace().concurrency(); (void)Kokkos::DefaultExecutionSpace::name(); 
  KOKKOS_IF_ON_HOST((s=1;)) KOKKOS_IF_ON_DEVICE((s=2;)) 
  KOKKOS_ASSERT(s>0);
  Kokkos::Experimental::fill("a", Kokkos::DefaultExecutionSpace(), v, 1.0);
  std::array<int,3> sa{}; (void)sa;
  Kokkos::ALL_t al; (void)al; Kokkos::Subview<decltype(w), int, Kokkos::ALL_t, Kokkos::ALL_t>* sp=nullptr; (void)sp;
}
int main(){ Kokkos::ScopeGuard g; a(); if (Kokkos::is_initialized() && !Kokkos::is_finalized()) {} std::puts("ok"); }
