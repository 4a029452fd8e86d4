FF='ffmath.cpp'
seed('tdl-flushwr','C04','src/tdl.cpp',[('    head = area;\n    flush( initVal );','    head = area;\n    wr = area;\n    flush( initVal );'),('    wr = head;\n    /*cstat -CERT-INT30-C_a*/\n    rd = &head','    /*cstat -CERT-INT30-C_a*/\n    rd = &head')],
'''#include <include/tdl.hpp>
using namespace qlibs;
int main(){ real_t a[5]; tdl d; d.setup(a,5,0.0f); for(int i=0;i<7;i++) d.insertSample((real_t)i); d.flush(9.0f); for(int k=0;k<5;k++) CHECK(d[k]==9.0f);
 for(int i=0;i<9;i++){ d.insertSample((real_t)(100+i)); for(int k=0;k<5;k++) CHECK(d[k]==((i>=k)?(real_t)(100+i-k):9.0f)); } return bad; }''','tdl.cpp',
'samples inserted after a flush at a moment when the write position is not at the start of the area','the write position is not brought back in step with the read position, so taps return stale samples')
seed('fp16-ascii','C06','src/fp16.cpp',[('uValue = static_cast<uint32_t>( ( num >= 0 ) ? num : -num );','uValue = static_cast<uint32_t>( ( num >= 0 ) ? num : ~num );')],
'''#include <include/fp16.hpp>
using namespace qlibs;
int main(){ char s[32]; const double v[]={-1.5,-0.5,-2.0,-100.25,-3.0}; const char* e[]={"-1.50","-0.50","-2.00","-100.25","-3.00"}; for(int i=0;i<5;i++){ fp16 x=fp16::from(v[i]); fp16::toASCII(x,s,2); CHECK(0==std::strcmp(s,e[i])||0); } fp16 z=fp16::from(-2.0); fp16::toASCII(z,s,5); CHECK(0==std::strcmp(s,"-2.00000")); return bad; }''','fp16.cpp',
'a negative number printed with enough decimals to show its last bit','negative numbers are printed one unit of the last place too small')
PID='''#include <include/pid.hpp>
using namespace qlibs;
'''
seed('pid-manual','C13','src/pid.cpp',[('        u = uSat; /*output saturated*/','        u = ( pidMode::PID_AUTOMATIC == mode ) ? uSat : m; /*output saturated*/')],
PID+'''int main(){ pidController c; CHECK(c.setup(1.0f,0.2f,0.1f,0.1f)); CHECK(c.setSaturation(-1.0f,1.0f)); CHECK(c.setExtraGains(0.0f,1.0f)); CHECK(c.setMode(pidMode::PID_MANUAL)); CHECK(c.setManualInput(50.0f)); for(int i=0;i<200;i++){ const real_t u=c.control(1.0f,0.0f); CHECK(u<=1.0f && u>=-1.0f); if(bad) break; } return bad; }''','pid.cpp numa.cpp ffmath.cpp',
'manual mode with an integrated manual input beyond the limits','in manual mode the control action is returned without the limits')
seed('pid-resetD','C14','src/pid.cpp',[('        D = 0.0_re;\n        u1 = 0.0_re;\n        m = 0.0_re;\n        uSat = 0.0_re;\n        retValue = true;\n    }\n\n    return retValue;\n}\n/*============================================================================*/\nbool pidController::setModelReferenceControl','        u1 = 0.0_re;\n        m = 0.0_re;\n        uSat = 0.0_re;\n        retValue = true;\n    }\n\n    return retValue;\n}\n/*============================================================================*/\nbool pidController::setModelReferenceControl')],
PID+'''static void run(pidController&c,real_t*o){ for(int i=0;i<5;i++) o[i]=c.control((real_t)(i%2),0.25f*(real_t)i); }
int main(){ pidController a,b; real_t p[5],q[5]; CHECK(a.setup(1.0f,0.2f,0.5f,0.1f)&&b.setup(1.0f,0.2f,0.5f,0.1f)); CHECK(a.setDerivativeFilter(0.9f)&&b.setDerivativeFilter(0.9f)); CHECK(a.setSaturation(-1000.0f,1000.0f)&&b.setSaturation(-1000.0f,1000.0f)); for(int i=0;i<8;i++) (void)a.control(5.0f,(real_t)(i*i)); CHECK(a.reset()); run(a,p); run(b,q); for(int i=0;i<5;i++) CHECK(std::fabs(p[i]-q[i])<1e-4f); return bad; }''','pid.cpp numa.cpp ffmath.cpp',
'a derivative filter, some history, then a reset','the filtered derivative survives a reset')
seed('pid-backzero','C14','src/pid.cpp',[('            kd = ( kd > 0.0_re ) ? -kd : kd;','            kd = ( ki < 0.0_re ) ? -kd : kd;')],
PID+'''int main(){ pidController a,b; CHECK(a.setup(1.0f,0.0f,0.5f,0.1f)&&b.setup(1.0f,0.0f,0.5f,0.1f)); CHECK(a.setSaturation(-1000.0f,1000.0f)&&b.setSaturation(-1000.0f,1000.0f)); CHECK(a.setDirection(pidDirection::PID_BACKWARD)); for(int i=0;i<6;i++){ const real_t p=a.control(1.0f,0.3f*(real_t)(i*i)), q=b.control(1.0f,0.3f*(real_t)(i*i)); CHECK(std::fabs(p+q)<1e-3f); } return bad; }''','pid.cpp numa.cpp ffmath.cpp',
'a PD controller (no integral gain) acting backwards','the derivative gain keeps its sign')
LTI='''#include <include/ltisys.hpp>
using namespace qlibs;
'''
seed('disc-init','C15','src/ltisys.cpp',[('            for ( size_t i = 0U; i < n ; ++i ) {\n                xd[ i ] = 0.0_re;\n            }','            for ( size_t i = 0U; i < na ; ++i ) {\n                xd[ i ] = 0.0_re;\n            }')],
LTI+'''int main(){ real_t num[4]={1.0f,2.0f,3.0f,4.0f}, den[2]={1.0f,-0.5f}, x[4]={7.0f,8.0f,9.0f,10.0f}; discreteSystem s(num,den,x,4,2); CHECK(s.isInitialized()); real_t y1=0, u[8]={0}; for(int k=0;k<8;k++){ u[k]=(real_t)(k+1); real_t e=0.5f*y1; for(int i=0;i<4&&i<=k;i++) e+=(real_t)(i+1)*u[k-i]; const real_t y=s.excite(u[k]); CHECK(std::fabs(y-e)<1e-3f); y1=e; } return bad; }''','ltisys.cpp tdl.cpp numa.cpp ffmath.cpp',
'more numerator than denominator coefficients and a state array that is not zero beforehand','states beyond the denominator order keep what was in memory')
seed('cont-order','C16','src/ltisys.cpp',[('            dx0 += a[ i ]*xc[ i ](); /*compute the first derivative*/\n            /*integrate to obtain the remaining states*/\n            (void)xc[ i ].integrate( xc[ i - 1U ](), dt );\n','            /*integrate to obtain the remaining states*/\n            (void)xc[ i ].integrate( xc[ i - 1U ](), dt );\n            dx0 += a[ i ]*xc[ i ](); /*compute the first derivative*/\n')],
LTI+'''int main(){ real_t num[3]={0.0f,2.0f,1.0f}, den[3]={1.0f,3.0f,2.0f}; nState x[2]; continuousSystem s(num,den,x,2,0.1f); CHECK(s.isInitialized()); (void)x[0].setIntegrationMethod(INTEGRATION_RECTANGULAR); (void)x[1].setIntegrationMethod(INTEGRATION_RECTANGULAR); double a=0,b=0; for(int k=0;k<20;k++){ const double u=1.0+k%3, d0=u-(3.0*a+2.0*b), d1=a; a+=0.1*d0; b+=0.1*d1; const double e=2.0*a+1.0*b; CHECK(std::fabs((double)s.excite((real_t)u)-e)<1e-3); } return bad; }''','ltisys.cpp tdl.cpp numa.cpp ffmath.cpp',
'a system of order two or more','the first derivative is taken from the states after the step')
seed('numa-keep','C17','src/numa.cpp',[('            ds = ( ( 4.0_re*x[ 1 ] ) - ( 3.0_re*x[ 2 ] ) - s )/( 2.0_re*dt );\n            break;\n        default:\n            break;\n    }\n    if ( bUpdate ) {','            ds = ( ( 4.0_re*x[ 1 ] ) - ( 3.0_re*x[ 2 ] ) - s )/( 2.0_re*dt );\n            break;\n        default:\n            break;\n    }\n    if ( bUpdate || ( ( 0.0_re == x[ 1 ] ) && ( DERIVATION_FORWARD == dMethod ) ) ) {')],
'''#include <include/numa.hpp>
using namespace qlibs;
int main(){ nState n; n.setDerivationMethod(DERIVATION_FORWARD); n.init(0.0f,0.0f,3.0f); const real_t a=n.derive(5.0f,0.5f,false), b=n.derive(5.0f,0.5f,false); CHECK(a==b); CHECK(std::fabs(a-(-14.0f))<1e-4f); return bad; }''','numa.cpp',
'forward derivation without updating while the previous sample is zero','the sample becomes part of the past although updating was not requested')
FIS='''#include <include/fis.hpp>
using namespace qlibs;
using namespace qlibs::fis;
'''
seed('fis-zmf','C18','src/fisCore.cpp',[('        y = 1.0_re;\n    }\n    else if ( x >= b ) { // skipcq: CXX-W2041\n        y = 0.0_re;\n    }\n    /*cppcheck-suppress knownConditionTrueFalse */\n    else if ( ( x >= a ) && ( x <= ( ( a + b )*0.5_re ) ) ) {','        y = 1.0_re;\n    }\n    else if ( x >= b ) { // skipcq: CXX-W2041\n        y = 0.0_re;\n    }\n    /*cppcheck-suppress knownConditionTrueFalse */\n    else if ( ( x >= a ) && ( x <= ( ( b - a )*0.5_re ) ) ) {')],
FIS+'''static const rules R[]={ FIS_RULES_BEGIN IF 0 IS 0 THEN 0 IS 0 END FIS_RULES_END };
int main(){ input in[1]; output out[1]; mf mi[1],mo[1]; real_t w[1]; instance f; const real_t p[2]={2.0f,8.0f}, one[1]={1.0f}; CHECK(f.setup(Sugeno,in,out,mi,mo,R,w)); f.setupInput(0,0.0f,10.0f); f.setupOutput(0,0.0f,10.0f); f.setupInputMF(0,0,zmf,p); f.setupOutputMF(0,0,constantmf,one);
 for(int i=0;i<=20;i++){ const double x=i*0.5, t=(x-2.0)/6.0; const double e=x<=2?1.0:x>=8?0.0:x<=5?1.0-2.0*t*t:2.0*(t-1.0)*(t-1.0); f.setInput(0,(real_t)x); f.fuzzify(); f.inference(); CHECK(std::fabs(w[0]-e)<1e-4); } return bad; }''','fis.cpp fisCore.cpp ffmath.cpp',
'a z-shaped set whose start is not zero and an input in the upper half of its flank','memberships in the first half of the flank come out as zero')
seed('fis-two','C19','src/fis.cpp',[('    connector = ( nOutputs > 1U )? xRules[ i + 2U ] : -1;\n    /*cstat +CERT-INT30-C_a*/\n    i += 2U;','    connector = ( ( nOutputs > 1U ) && ( ruleCount < ( nRules - 1U ) ) )? xRules[ i + 2U ] : -1;\n    /*cstat +CERT-INT30-C_a*/\n    i += 2U;')],
FIS+'''static const rules R[]={ FIS_RULES_BEGIN IF 0 IS 0 THEN 0 IS 0 END IF 0 IS 1 THEN 0 IS 1 AND 1 IS 0 END FIS_RULES_END };
int main(){ input in[1]; output out[2]; mf mi[2],mo[2]; real_t w[2]; instance f; const real_t a[1]={0.25f}, b[1]={0.75f}, z0[1]={1.0f}, z1[1]={5.0f}; CHECK(f.setup(Sugeno,in,out,mi,mo,R,w)); f.setupInput(0,0.0f,10.0f); f.setupOutput(0,-10.0f,10.0f); f.setupOutput(1,-10.0f,10.0f); f.setupInputMF(0,0,constantmf,a); f.setupInputMF(0,1,constantmf,b); f.setupOutputMF(0,0,constantmf,z0); f.setupOutputMF(0,1,constantmf,z1);
 f.setInput(0,1.0f); CHECK(f.fuzzify()); CHECK(f.inference()); CHECK(f.deFuzzify()); real_t y=0; f.getOutput(0,y); CHECK(std::fabs(y-4.0f)<1e-4f); f.getOutput(1,y); CHECK(std::fabs(y-1.0f)<1e-4f); return bad; }''','fis.cpp fisCore.cpp ffmath.cpp',
'two or more outputs and a last rule with more than one consequent','a well formed table is refused')
seed('fis-weight','C19','src/fis.cpp',[('            wi[ ruleCount ] *= bound( ruleWeight[ ruleCount ] );','            wi[ ruleCount ] = bound( wi[ ruleCount ]*ruleWeight[ ruleCount ] );')],
FIS+'''static const rules R[]={ FIS_RULES_BEGIN IF 0 IS 0 THEN 0 IS 0 END FIS_RULES_END };
int main(){ input in[1]; output out[1]; mf mi[1],mo[1]; real_t w[1], rw[1]={2.0f}; instance f; const real_t a[1]={0.25f}, z[1]={1.0f}; CHECK(f.setup(Sugeno,in,out,mi,mo,R,w)); f.setupInput(0,0.0f,10.0f); f.setupOutput(0,-10.0f,10.0f); f.setupInputMF(0,0,constantmf,a); f.setupOutputMF(0,0,constantmf,z); f.setRuleWeights(rw); f.setInput(0,1.0f); f.fuzzify(); f.inference(); CHECK(std::fabs(w[0]-0.25f)<1e-5f); return bad; }''','fis.cpp fisCore.cpp ffmath.cpp',
'a rule weight above one','a weight above one raises the strength instead of being limited to one')
seed('fis-lom','C20','src/fisCore.cpp',[('            if ( o->y >= o->v[ yMax ] ) {','            if ( ( o->y > o->v[ yMax ] ) || ( ( o->y > 0.999_re ) && ( o->y >= o->v[ yMax ] ) ) ) {')],
FIS+'''static const rules R[]={ FIS_RULES_BEGIN IF 0 IS 0 THEN 0 IS 0 END FIS_RULES_END };
int main(){ input in[1]; output out[1]; mf mi[1],mo[1]; real_t w[1]; instance f; const real_t a[1]={0.5f}, t[3]={0.0f,50.0f,100.0f}; CHECK(f.setup(Mamdani,in,out,mi,mo,R,w)); f.setupInput(0,0.0f,10.0f); f.setupOutput(0,0.0f,100.0f); f.setupInputMF(0,0,constantmf,a); f.setupOutputMF(0,0,trimf,t); CHECK(f.setDeFuzzMethod(lom)); f.setInput(0,1.0f); f.fuzzify(); f.inference(); f.deFuzzify(); real_t y=0; f.getOutput(0,y); CHECK(y>70.0f && y<80.0f); return bad; }''','fis.cpp fisCore.cpp ffmath.cpp',
'largest of maximum over a plateau below full membership','the smallest point of the plateau is returned')
seed('ff-round','C21','src/ffmath.cpp',[('            const int32_t i = 0x007FFFFF >> j0;\n\n            if ( 0 != ( i0 & i ) ) {\n                i0 += 0x00400000 >> j0;','            const int32_t i = 0x007FFFFF >> j0;\n\n            if ( 0 != ( i0 & i ) ) {\n                i0 += 0x003FFFFF >> j0;')],
'''#include <include/ffmath.hpp>
using namespace qlibs;
int main(){ for(int k=1;k<200;k++){ const float x=(float)k+0.5f; CHECK(ffmath::rounding(x)==std::round(x)); CHECK(ffmath::rounding(-x)==std::round(-x)); } return bad; }''','ffmath.cpp',
'an exact half above one','exact halves are rounded towards zero')
seed('ff-next','C21','src/ffmath.cpp',[('            uxi = ( 0U == ay ) ? uyi : ( ( uyi & F32_SIGN_MASK ) | 1U );','            uxi = ( 0U == ay ) ? uyi : ( ( uyi & F32_SIGN_MASK ) | 0x00800000U );')],
'''#include <include/ffmath.hpp>
using namespace qlibs;
int main(){ CHECK(ffmath::nextAfter(0.0f,1.0f)==std::nextafter(0.0f,1.0f)); CHECK(ffmath::nextAfter(-0.0f,-1.0f)==std::nextafter(-0.0f,-1.0f)); return bad; }''','ffmath.cpp',
'stepping away from zero','all subnormal numbers are skipped')
seed('ff-poly','C22','src/ffmath.cpp',[('            if ( ( px[ i ] > x ) != ( px[ j ] > x ) ) {','            if ( ( px[ i ] >= x ) != ( px[ j ] > x ) ) {')],
'''#include <include/ffmath.hpp>
using namespace qlibs;
int main(){ const float px[4]={0.0f,2.0f,4.0f,2.0f}, py[4]={2.0f,0.0f,2.0f,4.0f}; CHECK(ffmath::inPolygon(2.0f,2.0f,px,py,4)); CHECK(ffmath::inPolygon(2.0f,1.0f,px,py,4)); CHECK(ffmath::inPolygon(1.5f,2.0f,px,py,4)); CHECK(!ffmath::inPolygon(0.5f,0.5f,px,py,4)); return bad; }''','ffmath.cpp',
'a point with exactly the abscissa of a vertex','the vertex is counted once too often')
seed('ff-lerp','C22','src/ffmath.cpp',[('    else if ( ffmath::isEqual( t, 1.0F ) ) {','    else if ( ffmath::isEqual( t, 1.0F ) && ( b < a ) ) {')],
'''#include <include/ffmath.hpp>
using namespace qlibs;
int main(){ unsigned s=12345u; for(int k=0;k<200000;k++){ s=s*1664525u+1013904223u; const float a=1.0f+(float)(s>>9)*1e-6f; s=s*1664525u+1013904223u; const float b=1.0f+(float)(s>>9)*1e-3f; CHECK(ffmath::lerp(a,b,1.0f)==b); if(bad) break; } return bad; }''',FF,'two positive ends, the second larger, whose difference is rounded','the position 1 no longer gives exactly the second end')
seed('ff-fact','C23','src/ffmath.cpp',[('25852016738884978212864.0F','25825016738884978212864.0F')],
'''#include <include/ffmath.hpp>
using namespace qlibs;
int main(){ double p=1; for(int i=0;i<=34;i++){ if(i>0) p*=i; CHECK(std::fabs(ffmath::factorial((float)i)/p-1.0)<1e-6); } return bad; }''','ffmath.cpp','the factorial of 23','two digits of one table entry are swapped')
seed('ff-atan2','C23','src/ffmath.cpp',[('    t = ffmath::FFP_PI - ( ( y < 0.0F ) ? ffmath::FFP_2PI : 0.0F );','    t = ffmath::FFP_PI - ( ( ( y < 0.0F ) && ( x < 0.0F ) ) ? ffmath::FFP_2PI : 0.0F );')],
'''#include <include/ffmath.hpp>
using namespace qlibs;
int main(){ for(int i=-8;i<=8;i++) for(int j=-8;j<=8;j++) if(i||j){ if(j<0&&i==0) continue; CHECK(std::fabs(ffmath::atan2((float)i,(float)j)-std::atan2((double)i,(double)j))<0.02); } return bad; }''','ffmath.cpp','a point on the negative vertical axis','the angle of the negative vertical axis comes out positive')
seed('ff-hermite','C24','src/ffmath.cpp',[('                    const auto j = static_cast<float>( i - 1U );','                    const auto j = static_cast<float>( ( i > 4U ) ? i : ( i - 1U ) );')],
'''#include <include/ffmath.hpp>
using namespace qlibs;
int main(){ for(int k=-4;k<=4;k++){ const double x=k*0.5; double h0=1,h1=2*x; for(int n=2;n<=7;n++){ const double h=2*x*h1-2*(n-1)*h0; h0=h1; h1=h; CHECK(std::fabs(ffmath::hermite((size_t)n,(float)x)-h)<=1e-3*(1+std::fabs(h))+0.02); } } return bad; }''','ffmath.cpp','a degree of five or more','the recurrence uses the degree instead of the degree less one')
seed('ff-legparity','C24','src/ffmath.cpp',[('        y = ( 1 == ( l % 2 ) ) ? -1.0F : 1.0F;','        y = ( 1 == ( l % 2 ) ) ? 1.0F : -1.0F;')],
'''#include <include/ffmath.hpp>
using namespace qlibs;
int main(){ for(size_t n=2;n<9;n++){ CHECK(std::fabs(ffmath::assoc_legendre(n,0,-1.0f)-((n%2)?-1.0f:1.0f))<1e-4f); } return bad; }''','ffmath.cpp','a Legendre polynomial at exactly minus one','the sign is wrong')
