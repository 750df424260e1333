#include <hpp/bezier-com-traj/solve.hh>
#include <optional>
#include <set>
#include <stack>
#include <queue>
#include <variant>
#include <string_view>
#include <sstream>
#include <numeric>
#include <bitset>
#include <unordered_set>
#include <iterator>
#include <functional>
#include <cstring>
#include <limits>
using namespace Eigen;
namespace verif {
typedef double D;
D t_optional(D a){ std::optional<D> o; if(!o) o = a; if (o.has_value()) return *o + o.value_or(3.); return 0; }
std::optional<D> mk(bool b, D a){ if (!b) return std::nullopt; return a; }
D t_optional2(D a){ auto o = mk(true,a); auto p = mk(false,a); D r = o ? *o : -1; return p.value_or(r*2); }
D t_set(D a){ std::set<int> s; s.insert(3); s.insert(1); s.insert(3); D r=0; for (int i : s) r = r*10 + i; return a*r + (s.count(1)?1:0) + s.size(); }
D t_stack(D a){ std::stack<D> s; s.push(a); s.push(2*a); D r = s.top(); s.pop(); return r + s.top() + s.size(); }
D t_queue(D a){ std::queue<D> s; s.push(a); s.push(2*a); D r = s.front(); s.pop(); return 3*r + s.front(); }
D t_map(D a){ double b[3] = {1,2,3}; Map<Vector3d> m(b); m *= a; return b[0]+10*b[1]+100*b[2]; }
D t_map2(D a){ std::vector<double> v{a,2*a,3*a,4*a}; Map<const MatrixXd> m(v.data(),2,2); return m(0,1)+10*m(1,0); }
D t_seq(D a){ VectorXd v(4); v << 1,2,3,4; VectorXd w = v(seq(1,2)); return a*(w[0]+10*w[1]); }
D t_rotate(D a){ std::vector<D> v{1,2,3,4}; std::rotate(v.begin(), v.begin()+1, v.end()); return a*(v[0]*1000+v[1]*100+v[2]*10+v[3]); }
D t_unique(D a){ std::vector<int> v{1,1,2,3,3}; v.erase(std::unique(v.begin(),v.end()), v.end()); D r=0; for(int i:v) r=r*10+i; return a*r; }
D t_reduce(D a){ std::vector<D> v{1,2,a}; return std::reduce(v.begin(), v.end(), 0.); }
D t_treduce(D a){ std::vector<D> v{1,2,a}, w{1,2,3}; return std::transform_reduce(v.begin(), v.end(), w.begin(), 0.); }
D t_exchange(D a){ D b = 1; D c = std::exchange(b, a); return c*10 + b; }
D t_sb(D a){ std::pair<D,int> p{a,2}; auto [x,y] = p; return x*y; }
D t_sbt(D a){ std::tuple<D,int,D> p{a,2,3}; auto& [x,y,z] = p; x = 2*a; return std::get<0>(p)*y+z; }
D t_ifinit(D a){ std::map<int,D> m{{1,a},{2,3}}; if (auto it = m.find(1); it != m.end()) return it->second; return 0; }
D t_variant(D a){ std::variant<int,D> v; v = a; if (std::holds_alternative<D>(v)) return std::get<D>(v); return 0;}
D t_initlist(D a){ D r = 0; for (D x : {1., 2., a}) r += x; return r; }
D t_fold(D a){ auto f = [](auto... x){ return (x + ...); }; return f(1., 2., a); }
D t_constexpr(D a){ if constexpr (sizeof(int) == 4) return a; else return 0; }
D t_bitset(D a){ std::bitset<4> b; b.set(2); return a*b.to_ulong()+b.count(); }
D t_affine(D a){ Affine3d t = Affine3d::Identity(); t.translation() = Vector3d(1,2,3); Vector3d v = t*Vector3d(a,a,a); return v[0]+10*v[1]; }
D t_aa(D a){ Matrix3d R = AngleAxisd(0., Vector3d::UnitZ()).toRotationMatrix(); return (R*Vector3d(a,2,3))[0]; }
D t_reshaped(D a){ MatrixXd m(2,2); m << 1,2,3,a; VectorXd v = m.reshaped(); return v[0]+10*v[1]+100*v[2]+v[3]; }
D t_vecblock(D a){ MatrixXd m = MatrixXd::Zero(3,3); m.diagonal().array() += a; m.diagonal(1).setConstant(2); return m.sum(); }
D t_outer(D a){ Vector3d u(1,2,3), v(a,0,1); return (u*v.transpose()).sum(); }
D t_kron(D a){ MatrixXd m = MatrixXd::Identity(2,2); MatrixXd k(4,2); for (int i=0;i<2;++i) k.middleRows(2*i,2) = (i+1)*a*m; return k.sum(); }
D t_arrbc(D a){ MatrixXd m = MatrixXd::Ones(2,3); Vector2d v(1,a); m.array().colwise() *= v.array(); return m.sum(); }
D t_rowwise_lam(D a){ MatrixXd m = MatrixXd::Ones(2,3); for (auto r : m.rowwise()) r *= a; return m.sum(); }
D t_reditr(D a){ VectorXd v(3); v << 1,2,a; D r=0; for (D x : v) r+=x; return r; }
D t_vecit(D a){ VectorXd v(3); v << 1,2,a; return std::accumulate(v.begin(), v.end(), 0.); }
D t_dataacc(D a){ VectorXd v(3); v << 1,2,a; return std::accumulate(v.data(), v.data()+v.size(), 0.); }
D t_memcpy(D a){ double s[3]={1,2,a}, d[3]; std::memcpy(d,s,sizeof(s)); return d[0]+d[1]+d[2]; }
D t_memset(D a){ double d[3]; std::memset(d,0,sizeof(d)); return d[0]+d[1]+d[2]+a; }
D t_hstack(D a){ MatrixXd A = MatrixXd::Ones(2,2), B = MatrixXd::Identity(2,1)*a, C(2,3); C << A, B; return C.sum(); }
D t_vstack(D a){ MatrixXd A = MatrixXd::Ones(2,2), B = MatrixXd::Identity(1,2)*a, C(3,2); C << A, B; return C.sum(); }
D t_nested(D a){ struct L { D k; D operator()(D x) const { return k*x; } }; L l{a}; return l(2); }
D t_rec(D a){ std::function<D(int)> f = [&](int n)->D{ return n==0?a:n*f(n-1); }; return f(4); }
D t_goto(D a){ int i=0; D r=0; again: r+=a; if(++i<3) goto again; return r; }
D t_dowhile(D a){ int i=3; D r=0; do { r+=a; } while(--i); return r; }
D t_comma(D a){ D r=0; for (int i=0,j=3;i<j;++i,--j) r+=a; return r; }
D t_ss(D a){ std::ostringstream s; s << "x" << 3; return a*s.str().size(); }
D t_sv(D a){ std::string_view s("abc"); return a*s.size(); }
D t_cmath(D a){ return std::fma(a,2.,3.) + std::hypot(3.,4.) + std::copysign(1.,-2.) + std::cbrt(8.); }
D t_gcd(D a){ return a*std::gcd(4,6) + std::lcm(2,3); }
D t_minmax(D a){ auto p = std::minmax({3,1,2}); return a*p.second+p.first; }
D t_clampv(D a){ Vector3d v(5,-3,0.5); Vector3d w = v.cwiseMax(0).cwiseMin(1); return a*w.sum(); }
D t_vfun(D a){ std::vector<std::function<D(D)>> fs{[](D x){return x+1;},[](D x){return 2*x;}}; D r=a; for(const auto& f:fs) r=f(r); return r; }
D t_ptrmem(D a){ struct S{D x,y;}; S s{a,2}; D S::*p=&S::y; return s.*p + s.x; }
D t_static(D a){ static const D k = 3; return a*k; }
D t_array2(D a){ std::array<std::array<D,2>,2> m{{{1,2},{3,a}}}; return m[0][0]+m[1][1]; }
D t_sw(D a){ switch(int k=2){ case 1: return 0; case 2: [[fallthrough]]; case 3: a*=2; break; default: a=0; } return a; }
D t_inner(D a){ Vector3d u(1,2,3); RowVector3d r = u.transpose(); return a*(r*u)(0,0); }
D t_matit(D a){ MatrixXd m(2,2); m<<1,2,3,4; D r=0; for (D x : m.reshaped()) r = 10*r+x; return a*r; }
D t_colit(D a){ MatrixXd m(2,2); m<<1,2,3,4; D r=0; for (auto c : m.colwise()) r = 10*r + c.sum(); return a*r; }
D t_visit(D a){ MatrixXd m(2,2); m<<1,2,3,4; Index i,j; D x = m.maxCoeff(&i,&j); return a*(x+10*i+100*j); }
D t_replace(D a){ std::vector<int> v{1,2,1}; std::replace(v.begin(),v.end(),1,5); return a*std::accumulate(v.begin(),v.end(),0); }
D t_partition(D a){ std::vector<int> v{1,2,3,4}; auto it = std::partition(v.begin(),v.end(),[](int x){return x%2==0;}); return a*(it-v.begin()); }
D t_nth(D a){ std::vector<int> v{4,2,3,1}; std::nth_element(v.begin(),v.begin()+1,v.end()); return a*v[1]; }
D t_vecvec(D a){ std::vector<std::vector<D>> v(2,std::vector<D>(2,a)); v[1][1]=2; D r=0; for(auto&x:v) for(auto y:x) r+=y; return r; }
D t_emplfront(D a){ std::list<D> l; l.push_front(a); l.emplace_front(2.); l.emplace_back(3.); D r=0; for(D x:l) r=10*r+x; return r; }
D t_deque(D a){ std::deque<D> l; l.push_front(a); l.push_back(2.); return l[0]*10+l[1]; }
D t_umap(D a){ std::unordered_map<int,D> m; m[3]=a; m.emplace(4,2.); return m.at(3)+m[4]+m.size(); }
D t_uset(D a){ std::unordered_set<int> m{1,2}; return a*m.count(2)+m.size(); }
D t_tryemp(D a){ std::map<int,D> m; m.try_emplace(1,a); m.insert_or_assign(1,2*a); return m[1]; }
D t_excp(D a){ try { if (a==a) throw std::runtime_error("x"); } catch(const std::exception&) { return a; } return 0; }
D t_excp2(D a){ try { throw 3; } catch(int k) { return k*a; } catch(...) { return 0; } }
D t_excp3(D a){ D r=0; try { try { throw std::invalid_argument("x"); } catch(const std::logic_error& e) { r=a; throw; } } catch(const std::invalid_argument&) { r+=1; } return r; }
D t_raii(D a){ struct G{D*p; ~G(){*p+=1;}}; D r=a; { G g{&r}; } return r; }
D t_scope(D a){ auto del=[](D*p){ delete p; }; std::unique_ptr<D,decltype(del)> u(new D(a),del); return *u; }
D t_newarr(D a){ D* p=new D[3](); p[1]=a; D r=p[0]+p[1]; delete[] p; return r; }
D t_uarr(D a){ std::unique_ptr<D[]> p(new D[3]()); p[1]=a; return p[0]+p[1]; }
D t_varr(D a){ auto p=std::make_unique<D[]>(3); p[1]=a; return p[0]+p[1]; }
D t_shared(D a){ auto p=std::make_shared<D>(a); auto q=p; return *q*p.use_count(); }
D t_weak(D a){ auto p=std::make_shared<D>(a); std::weak_ptr<D> w=p; if(auto q=w.lock()) return *q; return 0; }
D t_powi(D a){ return std::pow(a,3)+std::exp(0.)+std::log(1.); }
D t_matpow(D a){ Matrix2d m; m<<1,1,0,1; Matrix2d r=Matrix2d::Identity(); for(int i=0;i<3;++i) r*=m; return a*r(0,1); }
D t_bool(D a){ Array3d x(1,2,3); return a*(x>1.5).count() + (x<4).all(); }
D t_select(D a){ Array3d x(1,2,3); return a*((x>1.5).select(x,0.)).sum(); }
D t_cumsum(D a){ std::vector<D> t{1,2,a}, c(3); std::partial_sum(t.begin(),t.end(),c.begin()); return c[2]; }
D t_excl(D a){ std::vector<D> t{1,2,a}, c(3); std::exclusive_scan(t.begin(),t.end(),c.begin(),0.); return c[2]+a; }
D t_incl(D a){ std::vector<D> t{1,2,a}, c(3); std::inclusive_scan(t.begin(),t.end(),c.begin()); return c[2]; }
D t_for_n(D a){ std::vector<D> t{1,2,a}; D r=0; std::for_each(t.begin(),t.end(),[&r](D x){r+=x;}); return r; }
D t_tail(D a){ VectorXd v=VectorXd::LinSpaced(5,0,4); return a*v.tail<2>().sum()+v.segment<2>(1).sum()+v.head(1)[0]; }
D t_triang(D a){ Matrix2d m; m<<1,2,3,4; MatrixXd u=m.triangularView<Upper>(); return a*u.sum(); }
D t_lu(D a){ Matrix2d m; m<<2,0,0,4; Vector2d b(a,4); Vector2d x=m.partialPivLu().solve(b); return x[0]+x[1]; }
D t_fill(D a){ MatrixXd m(2,2); m.fill(a); return m.sum(); }
D t_swapc(D a){ MatrixXd m(2,2); m<<1,2,3,4; m.col(0).swap(m.col(1)); return a*m(0,0); }
D t_rev(D a){ VectorXd v(3); v<<1,2,3; return a*v.reverse()[0]; }
D t_noal(D a){ MatrixXd m(2,2), n=MatrixXd::Identity(2,2)*a; m.noalias()=n*n; m.noalias()+=n; m-=2*n; return m.trace(); }
D t_ref(D a){ VectorXd v(3); v<<1,2,a; Ref<VectorXd> r(v); r[0]=5; Ref<VectorXd> s = v.segment(1,2); s*=2; return v.sum(); }
D t_stride(D a){ double b[6]={1,2,3,4,5,6}; Map<VectorXd,0,InnerStride<2>> m(b,3); return a*m.sum(); }
D t_rowmaj(D a){ Matrix<double,Dynamic,Dynamic,RowMajor> m(2,2); m<<1,2,3,4; return a*(m.data()[1]); }
D t_blk0(D a){ MatrixXd m(0,3); m.conservativeResize(1,3); m.row(0)<<1,2,a; return m.sum(); }
D t_strb(D a){ enum class E{A,B}; E e=E::B; return e==E::A?0:a; }
D t_static_assert(D a){ static_assert(true,""); return a; }
D t_local(D a){ using V=Matrix<double,6,1>; V v=V::Zero(); v.head<3>().setConstant(a); return v.sum(); }
D t_lamref(D a){ D acc=0; auto add=[&acc](D x)->D&{acc+=x; return acc;}; add(a)=2*a; return acc; }
D t_lammut(D a){ int i=0; auto n=[i]() mutable {return ++i;}; n(); return a*n()+i; }
D t_laminit(D a){ auto f=[b=2*a](D x){return b*x;}; return f(3); }
D t_tern(D a){ const bool k=true; const D& r = k ? a : a; return r; }
D t_loglog(D a){ return a>0 && a<1e300 ? a : a; }
D t_vlast(D a){ VectorXd v(3); v<<1,2,a; return v(Eigen::last); }
D t_boostopt(D a){ return a; }
}
