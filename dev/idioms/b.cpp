#include <hpp/bezier-com-traj/solve.hh>
#include <hpp/bezier-com-traj/utils.hh>
#include <numeric>
#include <set>
#include <functional>
#include <memory>
#include <optional>
using namespace Eigen;
namespace verif {
typedef double D;
D t_wassign(D a){ MatrixXd m=MatrixXd::Zero(2,3); m.rowwise() = RowVector3d(1,2,a); m.colwise() += Vector2d(1,0); return m.sum()+m(1,2); }
D t_wsub(D a){ MatrixXd m=MatrixXd::Constant(2,3,a); m.rowwise() -= RowVector3d(1,2,3); return m(1,2)*10+m(0,0); }
D t_blockeq(D a){ MatrixXd A=MatrixXd::Zero(4,4), B=MatrixXd::Identity(2,2)*a; A.block(1,1,2,2).noalias() += B*B; return A.sum(); }
D t_arrrow(D a){ MatrixXd m=MatrixXd::Ones(2,3); m.array().rowwise() *= RowVector3d(1,2,a).array(); return m.sum(); }
D t_colI(D a){ return (MatrixXd::Identity(3,3).col(1)*a).sum(); }
D t_diagm(D a){ Vector2d v(1,a); MatrixXd m=MatrixXd::Ones(2,2); MatrixXd r=v.asDiagonal()*m; MatrixXd s=m*v.asDiagonal(); return r(1,0)*10+s(0,1)+s(1,0); }
D t_setlin(D a){ VectorXd v; v.setLinSpaced(3,0,a); return v[1]; }
D t_mincol(D a){ VectorXd v(3); v<<3,1,a; Index i; v.minCoeff(&i); return a*i; }
D t_redux(D a){ VectorXd v(3); v<<3,1,a; return v.redux([](D x,D y){return x+y;}); }
D t_trip(D a){ MatrixXd m(2,2); m<<1,2,3,a; m.transposeInPlace(); return m(0,1); }
D t_vmap(D a){ std::vector<double> v{1,2,a}; VectorXd w=VectorXd::Map(v.data(),v.size()); return w.sum(); }
D t_vmap2(D a){ std::vector<double> v(3); VectorXd::Map(&v[0],3)=VectorXd::Constant(3,a); return v[0]+v[2]; }
D t_mapcopy(D a){ VectorXd v(3); v<<1,2,a; std::vector<double> w(v.data(),v.data()+v.size()); return w[2]+w.size(); }
D t_data2(D a){ MatrixXd m(2,3); m<<1,2,3,4,5,6; return a*(m.data()[1]*10+m.data()[2]); }
D t_lin2(D a){ MatrixXd m(2,3); m<<1,2,3,4,5,6; return a*(m(1)*10+*(m.data()+2)); }
D t_addr(D a){ MatrixXd m(2,3); m<<1,2,3,4,5,6; double* p=&m(0,1); return a*(p[1]); }
D t_copym(D a){ MatrixXd m(2,2); m<<1,2,3,4; double b[4]; std::copy(m.data(),m.data()+4,b); return a*(b[1]*10+b[2]); }
D t_copym2(D a){ double b[4]={1,2,3,4}; MatrixXd m(2,2); std::copy(b,b+4,m.data()); return a*(m(0,1)*10+m(1,0)); }
D t_swapblk(D a){ MatrixXd m(2,2); m<<1,2,3,4; m.row(0).swap(m.row(1)); return a*m(0,0); }
D t_fixhead(D a){ VectorXd v=VectorXd::Zero(6); v.head<3>()=Vector3d(1,2,a); v.tail<3>()=v.head<3>().cross(Vector3d::UnitX()); return v[4]*10+v[5]; }
D t_const(D a){ const VectorXd v=VectorXd::Constant(3,a); return v.segment<2>(1).sum(); }
D t_ternm(D a){ bool k=true; VectorXd v = k ? VectorXd(VectorXd::Constant(2,a)) : VectorXd(VectorXd::Zero(2)); return v.sum(); }
D t_auto(D a){ VectorXd v=VectorXd::Constant(2,a); auto w=v*2; v[0]=0; VectorXd r=w; return r.sum(); }
D t_autoblk(D a){ MatrixXd m=MatrixXd::Zero(2,2); auto b=m.row(1); b.setConstant(a); return m.sum(); }
D t_refblk(D a){ MatrixXd m=MatrixXd::Zero(2,2); auto&& b=m.col(1); b(0)=a; return m(0,1); }
D t_lamblk(D a){ MatrixXd m=MatrixXd::Zero(4,2); auto put=[&m,row=0](const MatrixXd& x) mutable { m.middleRows(row,x.rows())=x; row+=(int)x.rows(); }; put(MatrixXd::Constant(1,2,1)); put(MatrixXd::Constant(3,2,a)); return m.sum()+m(1,0); }
D t_refarg_(Ref<MatrixXd> m, D a){ m.setConstant(a); return 0; }
D t_refarg(D a){ MatrixXd m=MatrixXd::Zero(3,3); t_refarg_(m.topRows(2),a); return m.sum(); }
template<typename Der> D tsum(const MatrixBase<Der>& m){ return m.sum(); }
D t_mbase(D a){ return tsum(Vector3d(1,2,a))+tsum(MatrixXd::Identity(2,2)*a); }
template<typename Der> void tset(MatrixBase<Der> const& m_, D a){ const_cast<MatrixBase<Der>&>(m_).setConstant(a); }
D t_mbase2(D a){ MatrixXd m=MatrixXd::Zero(2,2); tset(m.col(0),a); return m.sum(); }
D t_pairv(D a){ std::vector<std::pair<D,int>> v; v.emplace_back(a,2); v.push_back({1.,3}); D r=0; for (auto const& [x,k]:v) r+=x*k; return r; }
D t_idx(D a){ std::vector<D> v{a,2,3}; D r=0; for (std::size_t i=v.size(); i-->0;) r=10*r+v[i]; return r; }
D t_cit(D a){ const std::vector<D> v{a,2,3}; D r=0; for (auto it=v.cbegin(); it!=v.cend(); ++it) r+=*it*(it-v.cbegin()); return r; }
D t_rit(D a){ std::vector<D> v{a,2,3}; D r=0; for (auto it=v.rbegin(); it!=v.rend(); ++it) r=10*r+*it; return r; }
D t_two(D a){ std::vector<D> v{a,2}, w{1,3}; D r=0; auto j=w.begin(); for (auto i=v.begin(); i!=v.end(); ++i,++j) r+=*i * *j; return r; }
D t_binomial(int n,int k){ D r=1; for(int i=1;i<=k;++i) r=r*(n-k+i)/i; return r; }
D t_bin(D a){ return a; }
D t_fact(D a){ D f=1; int n=4; while(n>1) f*=n--; return a*f; }
D t_horner(D a){ D c[]={1,2,3}; D r=0; for(int i=2;i>=0;--i) r=r*a+c[i]; return r; }
D t_powtab(D a){ std::array<D,4> p; p[0]=1; for(size_t i=1;i<p.size();++i) p[i]=p[i-1]*a; return p[3]; }
D t_carr(D a){ static const int k[3]={1,2,3}; D r=0; for(int x:k) r+=x*a; return r; }
D t_consttab(D a){ static constexpr D k[2][2]={{1,2},{3,4}}; return k[1][0]*a; }
D t_fptr(D a){ D(*f)(D)=&t_fact; D(*const tab[])(D)={t_fact,t_horner}; return f(a)+tab[1](a); }
D t_enumsw(D a){ enum E{X=1,Y=2}; auto f=[](E e){ switch(e){case X:return 1.; case Y:return 2.;} return 0.; }; return a*f(Y); }
D t_structret(D a){ struct R{VectorXd v; D k;}; auto mk=[](D x){ R r{VectorXd::Constant(2,x),3}; return r; }; auto [v,k]=mk(a); return v.sum()*k; }
D t_structagg(D a){ struct R{D x=1; int y{2}; VectorXd v;}; R r; r.v=VectorXd::Ones(2); R s{a}; return r.x+r.y+r.v.sum()+s.x+s.y; }
D t_tuple(D a){ auto t=std::make_tuple(a,VectorXd(VectorXd::Constant(2,a)),3); return std::get<0>(t)+std::get<1>(t).sum()+std::get<int>(t); }
D t_tiex(D a){ D x; int y; std::tie(x,y)=std::make_pair(a,3); return x*y; }
D t_fnref(D a){ auto ap=[](const std::function<D(D)>& f,D x){return f(x);}; return ap([a](D x){return a*x;},2)+ap(t_fact,1); }
D t_templ(D a){ auto twice=[](auto f,auto x){return f(f(x));}; return twice([](D x){return x+1;},a); }
D t_bindx(D a){ auto f=std::bind([](D x,D y){return x-y;},std::placeholders::_2,a); return f(1.,20.); }
D t_accm(D a){ std::vector<Vector3d> v{Vector3d(1,2,3),Vector3d(a,0,0)}; Vector3d s=std::accumulate(v.begin(),v.end(),Vector3d(Vector3d::Zero())); return s.sum(); }
D t_accl(D a){ std::vector<D> v{1,2,a}; return std::accumulate(v.begin(),v.end(),1.,std::multiplies<D>()); }
D t_accs(D a){ std::vector<MatrixXd> v{MatrixXd(2,3),MatrixXd(4,3)}; auto n=std::accumulate(v.begin(),v.end(),Index(0),[](Index k,const MatrixXd& m){return k+m.rows();}); return a*n; }
D t_trback(D a){ std::vector<D> v{1,2,a}, w; w.reserve(3); std::transform(v.begin(),v.end(),std::back_inserter(w),[](D x){return 2*x;}); return w[2]; }
D t_tr2(D a){ std::vector<D> v{1,2,a}, w(3); std::transform(v.begin(),v.end(),v.begin(),w.begin(),std::plus<>()); return w[2]; }
D t_gen(D a){ std::vector<D> w(3); D k=a; std::generate(w.begin(),w.end(),[&k]{return k++;}); return w[2]; }
D t_lb(D a){ std::vector<D> w{1,2,5}; return a*(std::upper_bound(w.begin(),w.end(),3.)-w.begin()); }
D t_insend(D a){ std::vector<D> w{1}, z{2,a}; w.insert(w.end(),z.begin(),z.end()); w.insert(w.begin(),{9.,8.}); return w[0]*100+w[4]; }
D t_assign(D a){ std::vector<D> w{1}; w.assign(3,a); std::vector<D> z; z.assign({1.,2.}); return w[2]+z.size(); }
D t_eqv(D a){ std::vector<int> w{1,2}, z{1,2}; return w==z ? a : 0; }
D t_mapit(D a){ std::map<int,D> m{{2,a},{1,3}}; D r=0; for(auto it=m.begin();it!=m.end();++it) r=10*r+it->second; return r; }
D t_mapsb(D a){ std::map<int,D> m; m[2]=a; m[1]=3; D r=0; for(auto&[k,v]:m) {v+=k; r+=v;} return r+m.begin()->second+m.rbegin()->first; }
D t_mapfind(D a){ const std::map<std::string,D> m{{"x",a},{"y",2}}; auto it=m.find("y"); return it==m.end()?0:it->second+m.at("x"); }
D t_mapvv(D a){ std::map<int,std::vector<D>> m; m[1].push_back(a); m[1].push_back(2); return m[1][0]+m[1].size(); }
D t_optm(D a){ std::optional<VectorXd> o; o=VectorXd::Constant(2,a); if(o) return o->sum()+(*o)[0]; return 0; }
D t_optf(D a){ auto f=[](bool k,D x)->std::optional<D>{ if(k) return x; return {}; }; return f(true,a).value_or(1)+f(false,a).value_or(1); }
D t_uptr(D a){ auto p=std::make_unique<VectorXd>(VectorXd::Constant(2,a)); (*p)[0]=1; auto q=std::move(p); return p?0:q->sum(); }
D t_sptrv(D a){ std::vector<std::shared_ptr<D>> v; v.push_back(std::make_shared<D>(a)); return **v.begin()+*v[0]; }
D t_class(D a){ class C{ D k_; public: explicit C(D k):k_(k){} D operator()(D x)const{return k_*x;} C& add(D x){k_+=x;return *this;} D get()const{return k_;} }; return C(a).add(1).add(2).get()+C(2)(a); }
struct Base{ virtual ~Base(){} virtual D f(D x)const=0; D g(D x)const{return f(x)+1;} };
struct Der1: Base{ D k; Der1(D k):k(k){} D f(D x)const override{return k*x;} };
D t_virt(D a){ std::unique_ptr<Base> p(new Der1(a)); return p->g(2); }
D t_virt2(D a){ Der1 d(a); const Base& b=d; return b.f(3)+b.g(1); }
template<int N> struct Pw{ static D f(D x){return x*Pw<N-1>::f(x);} }; template<> struct Pw<0>{ static D f(D){return 1;} };
D t_tmeta(D a){ return Pw<3>::f(a); }
template<typename T,typename...R> D vsum(T x,R...r){ if constexpr(sizeof...(r)==0) return x; else return x+vsum(r...); }
D t_vari(D a){ return vsum(1.,2,a); }
D t_opov(D a){ struct V{D x; V operator+(const V&o)const{return V{x+o.x};} bool operator<(const V&o)const{return x<o.x;} }; V r=V{a}+V{2}; return r<V{3}?0:r.x; }
D t_iife(D a){ const D k=[&]{ if(a>1) return a*2; return 0.; }(); return k; }
D t_continue(D a){ D r=0; for(int i=0;i<5;++i){ if(i%2) continue; if(i==4) break; r+=a; } return r; }
D t_while(D a){ D r=0; int n=0; while(true){ if(++n>3) break; r+=a; } return r; }
D t_nestbrk(D a){ bool done=false; D r=0; for(int i=0;i<3&&!done;++i) for(int j=0;j<3;++j){ r+=a; if(i==1&&j==1){done=true;break;} } return r; }
D t_ret(D a){ for(int i=0;;++i) if(i*i>10) return a*i; }
D t_usz(D a){ std::vector<D> v(3,a); D r=0; for(auto i=std::size_t{0}, n=v.size(); i<n; ++i) r+=v[i]; return r; }
D t_negmod(D a){ int k=-7; return a+(k/2)*10+(k%2)+(7>>1)+(1<<3)+(5^1)+(~0&3); }
D t_castch(D a){ return static_cast<D>(static_cast<int>(a+0.5))+int(2.9)+(unsigned)3; }
D t_lits(D a){ return 0x10+1e1+'a'-'a'+0b11+1'000+a; }
D t_clamp(D a){ return std::clamp(a,0.,5.)+std::max({1.,a,3.})+std::min(a,2.); }
D t_rnd(D a){ return std::round(2.5)+std::floor(-1.5)+std::ceil(1.2)+std::lround(1.6)+a; }
D t_isfin(D a){ return std::isfinite(a)&&!std::isnan(a) ? a : 0; }
D t_cwisem(D a){ Vector3d v(1,-2,a); return v.cwiseAbs().maxCoeff()+v.cwiseProduct(v).sum()+v.cwiseMax(0.).sum()+v.array().max(0.).sum(); }
D t_ew(D a){ ArrayXd x(2); x<<4,a; return x.sqrt()[0]+x.square()[1]+x.inverse()[0]+x.pow(2)[0]; }
D t_stackh(D a){ MatrixXd A(1,2); A<<1,2; VectorXd b(1); b<<a; MatrixXd m(A.rows(),A.cols()+1); m<<A,b; return m(0,2); }
D t_stack0(D a){ MatrixXd A(0,2), B=MatrixXd::Constant(1,2,a), C(1,2); C<<A,B; return C.sum(); }
D t_resz(D a){ MatrixXd m=MatrixXd::Constant(2,2,a); m.conservativeResize(3,NoChange); m.bottomRows<1>().setZero(); return m.sum()+m.rows(); }
D t_resizelike(D a){ MatrixXd m=MatrixXd::Constant(2,2,a), n; n.resizeLike(m); n=m; n.setZero(3,1); return m.sum()+n.rows(); }
D t_ischk(D a){ return MatrixXd::Zero(2,2).isZero() && Vector2d(1,1).isOnes() && Matrix2d::Identity().isIdentity() && Vector2d(a,a).isApprox(Vector2d(a,a)) ? a : 0; }
D t_eqm(D a){ return Vector2d(a,1)==Vector2d(a,1) && Vector2d(a,1)!=Vector2d(a,2) ? a : 0; }
D t_anyall(D a){ Array3d x(1,2,a); return (x>0).all() && (x>5).any() && (x>1).count()==2 ? a : 0; }
D t_kr(D a){ Matrix3d m; m<<0,-3,2, 3,0,-1, -2,1,0; return (m*Vector3d(a,0,1)).sum(); }
D t_initm(D a){ Matrix2d m{{1,2},{3,a}}; VectorXd v{{1,2,a}}; Vector3d w{1,2,a}; return m(1,1)+v.sum()+w[2]; }
D t_vecm(D a){ std::vector<MatrixXd> v(2,MatrixXd::Constant(1,1,a)); v[1]*=2; return v[0](0,0)+v[1](0,0); }
D t_arrm(D a){ MatrixXd v[2]; v[1]=MatrixXd::Constant(1,1,a); return v[1](0,0)+v[0].size(); }
D t_stdarrm(D a){ std::array<Vector3d,2> v{Vector3d(1,2,3),Vector3d(a,a,a)}; return v[1].sum()+v.back()[0]+v.front()[1]; }
D t_swapm(D a){ MatrixXd x=MatrixXd::Constant(1,1,a), y=MatrixXd::Zero(2,2); x.swap(y); std::swap(x,y); return x.sum()+y.size(); }
D t_movm(D a){ MatrixXd x=MatrixXd::Constant(1,1,a); MatrixXd y=std::move(x); return y.sum(); }
D t_cast(D a){ Vector2i k(1,2); return (k.cast<double>()*a).sum(); }
D t_dot(D a){ VectorXd v(2), w(2); v<<1,a; w<<a,1; return v.dot(w)+(v.transpose()*w)(0)+(v.transpose()*w).value()+v.squaredNorm()+v.transpose()*w; }
D t_quad(D a){ Matrix2d H; H<<2,0,0,a; Vector2d x(1,2); return 0.5*x.dot(H*x)+ (x.transpose()*H*x)(0,0); }
D t_norms(D a){ Vector2d v(3,4); return v.norm()*a+v.lpNorm<1>()+v.lpNorm<Infinity>()+v.normalized()[0]; }
D t_inv(D a){ Matrix2d m; m<<2,0,0,4; return (m.inverse()*Vector2d(a,4)).sum()+m.determinant(); }
D t_mean(D a){ Vector2d v(3,a); return v.mean()+v.prod()+v.minCoeff(); }
D t_zip(D a){ std::vector<D> t{1,2}; std::vector<std::string> n{"x","y"}; D r=0; for(size_t i=0;i<t.size();++i) if(n[i]=="y") r+=t[i]*a; return r; }
D t_strcat(D a){ std::string s="a"; s+="b"; s=s+"c"+std::to_string(3); return s=="abc3" ? a : 0; }
D t_strf(D a){ std::string s("hello"); return a*(s.find("l")==2 && s.substr(1,2)=="el" && s.size()==5 && !s.empty() && s[0]=='h'); }
D t_vecbool(D a){ std::vector<bool> b(3,false); b[1]=true; D r=0; for(size_t i=0;i<3;++i) if(b[i]) r+=a*i; return r; }
D t_constint(D a){ constexpr int N=3; double x[N]; for(int i=0;i<N;++i) x[i]=a; return x[N-1]; }
D t_volat(D a){ volatile D x=a; return x; }
D t_union(D a){ union U{D d; long l;}; U u; u.d=a; return u.d; }
D t_cond(D a){ D r=0; (a>3?r:r)+=a; return r; }
D t_listinit(D a){ std::vector<std::vector<D>> v{{1,2},{a}}; return v[1][0]+v[0].size(); }
D t_ptrwalk(D a){ D x[3]={1,2,a}; D r=0; for(const D*p=x,*e=x+3;p!=e;++p) r+=*p; return r; }
D t_ptrwalk2(D a){ std::vector<D> x{1,2,a}; D r=0; const D*p=x.data(); for(size_t k=x.size();k;--k) r+=*p++; return r; }
D t_outp_(D* o,D a){ *o=a; return 1; }
D t_outp(D a){ D x=0; return t_outp_(&x,a)+x; }
D t_refret_(std::vector<D>&v){ v.push_back(2); return v.back(); }
D t_refret(D a){ std::vector<D> v; v.push_back(a); t_refret_(v); return v[0]*v[1]; }
D t_defarg_(D a,D b=3){return a*b;}
D t_defarg(D a){ return t_defarg_(a)+t_defarg_(a,2); }
D t_nsv(D a){ namespace E=Eigen; using E::Vector3d; return Vector3d::Constant(a).sum(); }
D t_deflam(D a){ auto f=[](D x,D y=2){return x*y;}; return f(a); }
D t_reclam(D a){ auto f=[](auto&& self,int n)->D{ return n<=0?1.:n*self(self,n-1); }; return a*f(f,4); }

}
