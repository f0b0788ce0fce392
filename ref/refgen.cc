// Independent reference: the exact distribution of (ramification type, Hasse-Weil offsets)
// over all equations y^2 = f(x), f squarefree of degree 2g+1 (and 2g+2), over F_q, q = p^e.
// Shares no code with /repo and uses no FLINT: own finite fields, brute-force enumeration,
// own factorisation by trial division.
// The enumeration uses two textbook reductions (both switched off by "brute"): the leading
// coefficient only matters up to squares of F_q^*, and for p not dividing the degree the
// translation x -> x+b makes every f conjugate to exactly q others with the same data.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <vector>
#include <string>
#include <algorithm>
#include <cstdint>
using namespace std;
typedef vector<int> V;
static int p;
struct Field { // F_{p^n}, elements coded in base p; log/exp tables
  int n, q; V exp_, log_; V modpoly;
  vector<int> addt; bool have_addt=false;
  V digits(int a) const { V d(n); for(int i=0;i<n;++i){d[i]=a%p;a/=p;} return d; }
  int code(const V&d) const { int a=0; for(int i=n-1;i>=0;--i) a=a*p+d[i]; return a; }
  int add(int a,int b) const { if(have_addt) return addt[a*q+b]; if(n==1) return (a+b)%p;
    int r=0,m=1; for(int i=0;i<n;++i){ r+=((a%p+b%p)%p)*m; m*=p; a/=p; b/=p;} return r; }
  int neg(int a) const { int r=0,m=1; for(int i=0;i<n;++i){ r+=((p-a%p)%p)*m; m*=p; a/=p;} return r; }
  int mul(int a,int b) const { if(!a||!b) return 0; int s=log_[a]+log_[b]; return exp_[s>=q-1?s-(q-1):s]; }
  int inv(int a) const { return exp_[(q-1-log_[a])%(q-1)]; }
  bool is_sq(int a) const { return log_[a]%2==0; }
  bool init(int n_) { n=n_; q=1; for(int i=0;i<n;++i) q*=p;
    // search monic degree-n polynomial for which x is primitive
    for(int c=0;c<q;++c){ modpoly=digits(c); exp_.assign(q-1,0); log_.assign(q,-1);
      if(n==1){ // element g
        int g=c; if(g==0) continue; int a=1; bool ok=true; for(int i=0;i<q-1;++i){ if(log_[a]>=0){ok=false;break;} log_[a]=i; exp_[i]=a; a=(long)a*g%p;} if(ok&&a==1) break; else continue; }
      V a(n,0); a[0]=1; bool ok=true;
      for(int i=0;i<q-1;++i){ int k=code(a); if(k==0||log_[k]>=0){ok=false;break;} log_[k]=i; exp_[i]=k;
        int top=a[n-1]; for(int j=n-1;j>0;--j) a[j]=a[j-1]; a[0]=0; for(int j=0;j<n;++j) a[j]=((a[j]-top*modpoly[j])%p+p)%p; }
      if(ok) break; }
    if(q<=1024){ addt.resize((size_t)q*q); for(int a=0;a<q;++a)for(int b=0;b<q;++b) addt[a*q+b]=add(a,b); have_addt=true; }
    return true; }
};
// polynomials over F (coefficient vectors)
static V pmod(const Field&F,V a,const V&b){ while((int)a.size()>=(int)b.size()){ int c=F.mul(a.back(),F.inv(b.back())); if(c){ int nc=F.neg(c); for(size_t i=0;i<b.size();++i) a[a.size()-b.size()+i]=F.add(a[a.size()-b.size()+i],F.mul(nc,b[i])); } a.pop_back(); while(!a.empty()&&a.back()==0)a.pop_back(); } return a; }
static V pdiv(const Field&F,V a,const V&b){ V q(a.size()-b.size()+1,0); for(int s=(int)a.size()-(int)b.size();s>=0;--s){ int c=F.mul(a[s+b.size()-1],F.inv(b.back())); q[s]=c; if(c){int nc=F.neg(c); for(size_t i=0;i<b.size();++i) a[s+i]=F.add(a[s+i],F.mul(nc,b[i]));} } return q; }
static V pgcd(const Field&F,V a,V b){ while(!b.empty()){ V r=pmod(F,a,b); a=b; b=r; } return a; }
int main(int argc,char**argv){
  if(argc<6){fprintf(stderr,"refgen p e g marked count_exponent [brute]\n");return 2;}
  p=atoi(argv[1]); int e=atoi(argv[2]),g=atoi(argv[3]),marked=atoi(argv[4]),K=atoi(argv[5]); bool brute=argc>6;
  // F_{q^k}; subfield F_q of F_{q^k} is the set {0} u <gen^((q^k-1)/(q-1))>
  vector<Field> Fk(K+1);
  int kmax=K; for(int k=1;k<=kmax;++k) Fk[k].init(e*k);
  const Field&F=Fk[1]; int q=F.q;
  vector<V> emb(K+1); // embedding F_q -> F_{q^k}
  for(int k=1;k<=K;++k){ emb[k].assign(q,0);
    // image of exp_[1] of F: must satisfy the same minimal polynomial; try all generators of the subgroup
    long M=(Fk[k].q-1)/(q-1); bool done=false;
    for(int t=0;t<q-1&&!done;++t){ // candidate image of F's primitive element
      for(int i=0;i<q-1;++i) emb[k][F.exp_[i]]=Fk[k].exp_[(M*(((long)i*t)%(q-1)))%(Fk[k].q-1)];
      bool ok=true; // additive homomorphism on a basis of pairs
      for(int a=0;a<q&&ok;++a){ int s=F.add(a,1); if(emb[k][s]!=Fk[k].add(emb[k][a],emb[k][1])) ok=false; if(e>1&&ok&&q>2){ int b=F.exp_[1]; int s2=F.add(a,b); if(emb[k][s2]!=Fk[k].add(emb[k][a],emb[k][b])) ok=false; } }
      if(ok&&q>2&&e>=1){ for(int a=1;a<q&&ok;++a) for(int b=a+1;b<q&&ok;++b) if(emb[k][a]==emb[k][b]) ok=false; }
      if(ok) done=true; }
    if(!done){fprintf(stderr,"no embedding k=%d\n",k);return 3;} }
  // full homomorphism check
  for(int k=1;k<=K;++k) for(int a=0;a<q;++a) for(int b=0;b<q;++b){ if(emb[k][F.add(a,b)]!=Fk[k].add(emb[k][a],emb[k][b])||emb[k][F.mul(a,b)]!=Fk[k].mul(emb[k][a],emb[k][b])){fprintf(stderr,"bad embedding\n");return 4;} }
  // monic irreducibles up to degree (2g+2)/2
  vector<V> irr;
  for(int d=1;d<=g+1;++d){ long cnt=1; for(int i=0;i<d;++i)cnt*=q; for(long c=0;c<cnt;++c){ V f(d+1); long cc=c; for(int i=0;i<d;++i){f[i]=cc%q;cc/=q;} f[d]=1; bool ok=true; for(auto&h:irr){ if(2*((int)h.size()-1)>d)break; if(pmod(F,f,h).empty()){ok=false;break;} } if(ok) irr.push_back(f);} }
  map<pair<V,V>,unsigned long long> out;
  for(int d=2*g+1; d<=(marked?2*g+1:2*g+2); ++d){
    bool red=!brute&&d%p!=0; int nfree=red?d-1:d; unsigned long long w=1; vector<int> leads;
    if(red) w*=q;
    if(brute) for(int a=1;a<q;++a) leads.push_back(a);
    else { int ns=F.exp_[1]; leads={1,ns}; w*=(q-1)/2; }
    unsigned long long cnt=1; for(int i=0;i<nfree;++i)cnt*=q;
    for(int lead:leads) for(unsigned long long c=0;c<cnt;++c){
      V f(d+1,0); unsigned long long cc=c; for(int i=0;i<nfree;++i){f[i]=cc%q;cc/=q;} f[d]=lead;
      V df; for(int i=1;i<=d;++i){ int m=i%p; int s=0; for(int j=0;j<m;++j) s=F.add(s,f[i]); df.push_back(s);} while(!df.empty()&&df.back()==0)df.pop_back();
      if(df.empty()) continue; if(pgcd(F,f,df).size()!=1) continue;
      V ram; if(d%2) ram.push_back(1);
      { V r=f; for(auto&h:irr){ int hd=h.size()-1; if(2*hd>(int)r.size()-1) break; if(pmod(F,r,h).empty()){ ram.push_back(hd); r=pdiv(F,r,h);} } if(r.size()>1) ram.push_back(r.size()-1); }
      sort(ram.begin(),ram.end());
      V off; for(int k=1;k<=K;++k){ const Field&G=Fk[k]; long N=0; V fe(d+1); for(int i=0;i<=d;++i) fe[i]=emb[k][f[i]];
        for(int x=0;x<G.q;++x){ int v=fe[d]; for(int i=d-1;i>=0;--i) v=G.add(G.mul(v,x),fe[i]); if(v==0)N+=1; else if(G.is_sq(v))N+=2; }
        if(d%2) N+=1; else if(G.is_sq(fe[d])) N+=2;
        off.push_back((int)(G.q+1-N)); }
      out[{ram,off}]+=w; } }
  for(auto&o:out){ for(size_t i=0;i<o.first.first.size();++i)printf("%s%d",i?",":"",o.first.first[i]); printf(";"); for(size_t i=0;i<o.first.second.size();++i)printf("%s%d",i?",":"",o.first.second[i]); printf(":%llu\n",o.second);} }
