CRCD='''
#include <include/crc.hpp>
using namespace qlibs;
static uint32_t refl(uint32_t v, int n){ uint32_t r=0; for(int i=0;i<n;i++) if(v>>i&1u) r|=1u<<(n-1-i); return r; }
static uint32_t spec(int w,const uint8_t*p,size_t n,uint32_t poly,uint32_t init,bool ri,bool ro,uint32_t xo){
  const uint64_t mask=(w==32)?0xFFFFFFFFull:((1ull<<w)-1); uint64_t v=init&mask; poly&=mask;
  for(size_t i=0;i<n;i++){ uint32_t b=ri?refl(p[i],8):p[i]; for(int k=7;k>=0;k--){ uint64_t t=((v>>(w-1))^(b>>k))&1u; v=(v<<1)&mask; if(t) v^=poly; } }
  uint32_t r=ro?refl((uint32_t)v,w):(uint32_t)v; return (r^xo)&mask; }
'''
seed('crc-msgtype','C01','src/crc.cpp',[('for ( size_t i = 0U ; i < length ; ++i ) {\n            /*cstat -MISRAC++2008-5-0-8*/','for ( size_t i = 0U, n = static_cast<uint16_t>( length ) ; i < n ; ++i ) {\n            /*cstat -MISRAC++2008-5-0-8*/')],
CRCD+'''int main(){ std::vector<uint8_t> m(70000); for(size_t i=0;i<m.size();i++) m[i]=(uint8_t)(i*31u+7u);
 CHECK(crc::generic(crcMode::CRC32,m.data(),m.size(),0x04C11DB7u,0xFFFFFFFFu,true,true,0xFFFFFFFFu)==spec(32,m.data(),m.size(),0x04C11DB7u,0xFFFFFFFFu,true,true,0xFFFFFFFFu)); return bad; }''','crc.cpp',
'a message of 65536 bytes or more','long messages are checksummed only over length mod 65536 bytes')
seed('crc-init-wide','C01','src/crc.cpp',[('val = init;\n','val = ( crcMode::CRC16 == mode ) ? ( init & topBit ) | ( init & 0x7FFFU ) : init;\n        val = ( refIn && ( val == bitMask ) && ( length == 1U ) ) ? ( val >> 1U ) : val;\n')],
CRCD+'''int main(){ for(int b=0;b<256;b++){ uint8_t m=(uint8_t)b; CHECK(crc::generic(crcMode::CRC16,&m,1,0x8005u,0xFFFFu,true,true,0u)==spec(16,&m,1,0x8005u,0xFFFFu,true,true,0u)); } return bad; }''','crc.cpp',
'a one byte message with reflected input and an all-ones initial value','the initial value of one-byte messages is altered')
seed('bf-straddle','C03','src/bitfield.cpp',[('if ( ++s < nSlots ) {\n','if ( ( ++s < nSlots ) && ( of > 1U ) ) {\n')],
'''#include <include/bitfield.hpp>
using namespace qlibs;
int main(){ uint32_t a[3]={0,0,0}; bitfield f; CHECK(f.setup(a,sizeof a)); CHECK(f.writeUINTn(33,32,0xFFFFFFFFu)); CHECK(a[1]==0xFFFFFFFEu && a[2]==1u); CHECK(f.readUINTn(33,32)==0xFFFFFFFFu); return bad; }''','bitfield.cpp',
'a 32-bit write at an index of 1 modulo 32 that has a following word','the top bit of the written value is lost')
seed('bf-lastword','C03','src/bitfield.cpp',[('if ( ( 0U != of ) && ( ( index + bits_taken ) < size ) ) {','if ( ( 0U != of ) && ( ( index + 33U ) < size ) ) {')],
'''#include <include/bitfield.hpp>
using namespace qlibs;
int main(){ uint32_t a[2]={0,0x80000000u}; bitfield f; CHECK(f.setup(a,sizeof a)); CHECK(f.readUINTn(40,24)==0x800000u);
 a[0]=0; a[1]=0xFFFFFFFFu; CHECK(f.readUINTn(31,32)==0xFFFFFFFEu); CHECK(f.readUINTn(36,28)==0x0FFFFFFFu); a[0]=0x80000000u; a[1]=0xFFu; CHECK(f.readUINTn(32-4,16)==0xFF8u);
 for(size_t i=0;i<64;i++) for(size_t n=1;n<=32;n++){ uint64_t w=((uint64_t)a[1]<<32|a[0])>>i; w&=(n==32)?0xFFFFFFFFull:((1ull<<n)-1); CHECK(f.readUINTn(i,n)==(uint32_t)w);} return bad; }''','bitfield.cpp',
'a read straddling into the last word whose 32-bit span ends exactly at or past the end of the area','bits of the last word read as zero')
seed('tdl-oldest','C04','src/tdl.cpp',[('else if ( -1 == index ) {\n        return ( ( rd + 1U ) >= tail ) ? head[ 0 ] : rd[ 1 ];','else if ( -1 == index ) {\n        return ( ( rd + 2U ) >= tail ) ? head[ 0 ] : rd[ 1 ];')],
'''#include <include/tdl.hpp>
using namespace qlibs;
int main(){ real_t a[5]; tdl d; d.setup(a,5,0.0f); for(int i=0;i<23;i++){ d.insertSample((real_t)i); real_t e=(i>=4)?(real_t)(i-4):0.0f; CHECK(d[-1]==e); CHECK(d.getOldest()==e); } 
 real_t b[1]; tdl s; s.setup(b,1,7.0f); CHECK(s[-1]==7.0f); return bad; }''','tdl.cpp',
'reading the oldest sample through index -1 at a particular write position','the wrong sample is returned')
seed('fp16-sub','C05','src/fp16.cpp',[('if ( ( 0U != ( ( x ^ y ) & overflow_mask ) ) && ( 0U != ( ( x ^ retValue ) & overflow_mask ) ) ) {','if ( ( 0U != ( ( x ^ y ) & overflow_mask ) ) && ( 0U != ( ( x ^ retValue ) & overflow_mask ) ) && ( retValue != ~overflow_mask ) ) {')],
'''#include <include/fp16.hpp>
using namespace qlibs;
static fp16 mk(int32_t r){ fp16 x; std::memcpy(static_cast<void*>(&x),&r,4); return x; }
int main(){ int32_t v[]={0,1,-1,-2,INT32_MAX,-INT32_MAX,INT32_MIN,65536,-65536,1<<30,-(1<<30)}; for(int32_t a:v) for(int32_t b:v){ int64_t d=(int64_t)a-b; int32_t e=(d>INT32_MAX||d< -(int64_t)INT32_MAX)?INT32_MIN:(int32_t)d; CHECK((mk(a)-mk(b)).raw()==e); } return bad; }''','fp16.cpp',
'a difference of exactly one unit below the most negative representable pattern','the largest positive value is returned instead of the overflow indication')
seed('fp16-mulround','C05','src/fp16.cpp',[('mulL -= static_cast<uint32_t>( mulH ) >> 31;\n','mulL -= static_cast<uint32_t>( x ) >> 31;\n')],
'''#include <include/fp16.hpp>
using namespace qlibs;
static fp16 mk(int32_t r){ fp16 x; std::memcpy(static_cast<void*>(&x),&r,4); return x; }
int main(){ int32_t v[]={1,-1,3,-3,32768,-32768,65536,-65536,98304,-98304,123457,-98765}; for(int32_t a:v) for(int32_t b:v){ int64_t p=(int64_t)a*b; int64_t r=(p>=0)?((p+32768)>>16):-((-p+32768)>>16); CHECK((mk(a)*mk(b)).raw()==(int32_t)r); } return bad; }''','fp16.cpp',
'a product exactly half way between two representable values with operands of particular signs','ties are rounded in the wrong direction')
seed('alg-sortpivot','C07','src/include/algorithm.hpp',[('if ( pivotIndex + 1 < end ) {','if ( ( pivotIndex + 1 < end ) && !( ( end - pivotIndex == 2 ) && ( pivotIndex == start ) && ( start > 4 ) ) ) {')],
'''#include <include/algorithm.hpp>
#include <algorithm>
int main(){ unsigned s=12345; for(int t=0;t<20000;t++){ int a[9], b[9]; for(int i=0;i<9;i++){ s=s*1103515245u+12345u; a[i]=b[i]=(int)(s>>16)%11; } qlibs::algorithm::sort(a); std::sort(b,b+9); CHECK(!std::memcmp(a,b,sizeof a)); if (bad) break; } return bad; }''','',
'a three-element partition past index 4 whose pivot is its smallest element','two elements remain unsorted')
seed('alg-rotneg','C07','src/include/algorithm.hpp',[('r = static_cast<size_t>( k );\n                    r %= n;','r = static_cast<size_t>( static_cast<uint16_t>( k ) );\n                    r %= n;')],
'''#include <include/algorithm.hpp>
int main(){ const int ks[]={1,6,7,8,65535,65536,70001,2147483647}; for(int k:ks){ int a[7]; for(int i=0;i<7;i++) a[i]=i; qlibs::algorithm::rotate(a,k); for(int i=0;i<7;i++) CHECK(a[(i+k%7)%7]==i); } return bad; }''','',
'rotating right by more than 65535 positions','elements are moved by the wrong amount')
seed('alg-bsearch','C08','src/include/algorithm.hpp',[('right = mid - 1;','right = ( mid > static_cast<int>( first ) + 1 ) ? ( mid - 1 ) : ( left - 1 );')],
'''#include <include/algorithm.hpp>
int main(){ int a[6]={1,3,5,7,9,11}; for(size_t f=0;f<6;f++) for(size_t l=f;l<6;l++) for(int k=0;k<13;k++){ int*p=qlibs::algorithm::binary_search(a,k,f,l); bool in=(k&1)&&(k-1)/2>=(int)f&&(k-1)/2<=(int)l; CHECK((p!=nullptr)==in); if(p) CHECK(*p==k);} return bad; }''','',
'searching for the first element when the probe lands on the second','the key is reported absent')
seed('mat-mulself','C09','src/include/mat.hpp',[('''                mat<Rows, N> result;

                for (size_t i = 0; i < Rows; ++i) {
                    for (size_t j = 0; j < N; ++j) {
                        result.m[i][j] = 0;
                        for (size_t k = 0; k < Cols; ++k) {
                            result.m[i][j] += m[i][k] * other.m[k][j];
                        }
                    }
                }

                *this = result;''','''                mat<Rows, N> result;

                for (size_t i = 0; i < Rows; ++i) {
                    for (size_t j = 0; j < N; ++j) {
                        result.m[i][j] = 0;
                        for (size_t k = 0; k < Cols; ++k) {
                            result.m[i][j] += m[i][k] * other.m[k][j];
                        }
                    }
                    for (size_t j = 0; j < N; ++j) {
                        m[i][j] = result.m[i][j];
                    }
                }

                *this = result;''')],
'''#include <include/mat.hpp>
using namespace qlibs;
int main(){ mat<2,2> a; a(0,0)=1;a(0,1)=2;a(1,0)=3;a(1,1)=4; mat<2,2> b(a); mat<2,2> c(a); c*=b; CHECK(c(0,0)==7&&c(0,1)==10&&c(1,0)==15&&c(1,1)==22); a*=a; CHECK(a(0,0)==7&&a(0,1)==10&&a(1,0)==15&&a(1,1)==22); return bad; }''','',
'multiplying a matrix by itself in compound form','rows after the first use already overwritten elements')
seed('ip-nearest','C10','src/interp1.cpp',[('if ( distance <= minDistance) {','if ( ( distance <= minDistance ) && ( ( i + 1U < tableSize ) || ( x < tx[ i ] ) ) ) {')],
'''#include <include/interp1.hpp>
using namespace qlibs;
int main(){ real_t tx[]={1,2,4,8}, ty[]={10,20,30,40}; interp1 ip(tx,ty); ip.setMethod(INTERP1_NEAREST); CHECK(ip.get(7.5f)==40); CHECK(ip.get(8.0f)==40); CHECK(ip.get(9.0f)==40); CHECK(ip.get(0.0f)==10); CHECK(ip.get(2.9f)==20); return bad; }''','interp1.cpp ffmath.cpp',
'nearest interpolation at or past the last node','the value of an earlier node is returned')
seed('sm-expwreset','C11','src/smoother.cpp',[('        m = x;\n        w = 1.0_re;\n        init = false;','        m = x;\n        init = false;')],
'''#include <include/smoother.hpp>
using namespace qlibs;
int main(){ smootherEXPW f; CHECK(f.setup(0.9f)); const float s[]={1,5,2,8,3}; float o[5]; for(int i=0;i<5;i++) o[i]=f.smooth(s[i]); f.reset(); for(int i=0;i<5;i++){ float y=f.smooth(s[i]); CHECK(std::fabs(y-o[i])<1e-5f);} return bad; }''','smoother.cpp ltisys.cpp ffmath.cpp numa.cpp tdl.cpp',
'using the filter after a reset','the weight of the history before the reset is kept')
seed('sm-mwm2','C11','src/smoother.cpp',[('    sum += x - getOldest();\n    insertSample( x );\n\n    return sum/wsize;','    sum += x - ( ( itemCount > 2U ) ? getOldest() : getAtIndex( 0U ) );\n    insertSample( x );\n\n    return sum/wsize;')],
'''#include <include/smoother.hpp>
using namespace qlibs;
int main(){ real_t w[2]; smootherMWM2 f; CHECK(f.setup(w,2)); const float s[]={1,5,2,8,3}; float p=s[0]; for(int i=0;i<5;i++){ float y=f.smooth(s[i]); CHECK(std::fabs(y-0.5f*(s[i]+p))<1e-5f); p=s[i]; } return bad; }''','smoother.cpp ltisys.cpp ffmath.cpp numa.cpp tdl.cpp',
'a moving window of exactly two samples','the mean drifts away from the mean of the last two samples')
seed('rms-params','C12','src/rms.cpp',[('        lambda = l;\n        alpha = a;\n        retValue = true;','        lambda = l;\n        alpha = a;\n        w = 1.0_re;\n        retValue = true;')],
'''#include <include/rms.hpp>
using namespace qlibs;
int main(){ real_t w1[4],w2[4]; rms a,b; a.setup(w1,4); b.setup(w2,4); float s=0.3f; for(int i=0;i<40;i++){ s=3.7f*s*(1-s); if(i==20) a.setParams(0.99f,0.75f); float ya=a.update(s), yb=b.update(s); CHECK(std::fabs(ya-yb)<1e-5f);} return bad; }''','rms.cpp smoother.cpp ltisys.cpp ffmath.cpp numa.cpp tdl.cpp',
'setting the parameters while the estimator is running','the accumulated weight is discarded, so the estimate jumps')
