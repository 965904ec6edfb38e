/* shapes the symbolic executor has to get right: every function takes four int (a,b,c,n) and returns an int */
#include <math.h>
#include <stdlib.h>
typedef struct In_s { int p, q; } In;
typedef struct R_s { int x, y[3]; short t; unsigned short u; signed char s; In in; } R;
static int h1(int a,int b,int c) { if ( a > 0 ) { if ( b > 0 ) return 0; if ( c > 0 ) return 0; } return 1; }
int f1(int a,int b,int c,int n) { int r = h1(a,b,c); if ( !r ) return 7; return 9 + (b > c); }
static int h2(int a,int b,int c) { if ( a > 0 ) { if ( b > 0 ) { c++; } else if ( b < -1 ) return 5; else c--; } else { c += 2; } return c; }
int f2(int a,int b,int c,int n) { return h2(a,b,c) + h2(b,c,a); }
static int h3(int a,int b,int *o) { *o = 1; if ( a == b ) { *o = 2; if ( a > 1 ) return 0; *o = 3; if ( a < -1 ) return 0; *o = 4; return 1; } if ( a > b ) { *o = 5; return 0; } return 1; }
int f3(int a,int b,int c,int n) { int o, r = h3(a,b,&o); return r ? o : -o; }
int f4(int a,int b,int c,int n) { int i, s = 0; for (i=0; i<4; i++) { if ( i == a ) continue; if ( i == b ) break; s += i*i+c; } return s; }
int f5(int a,int b,int c,int n) { int i; for (i=0; i<5; i++) { if ( i == a ) return i+10; if ( i*2 == b ) return i+20; } return c; }
int f6(int a,int b,int c,int n) { int r; switch ( a ) { case 0: r = b; break; case 1: r = c; case 2: r = b+c; break; case -1: return 99; default: r = -1; } return r; }
int f7(int a,int b,int c,int n) { int t[4], i; for (i=0; i<4; i++) t[i] = i*b; if ( a < 0 || a > 3 ) return -1; t[a] = c; return t[0]+2*t[1]+3*t[2]+4*t[3]; }
int f8(int a,int b,int c,int n) { R r; r.x = a; r.y[0] = b; r.y[1] = c; r.y[2] = a+b; r.in.p = 3; r.in.q = r.y[1]; r.t = (short)(a*300); r.u = (unsigned short)(b); r.s = (signed char)c; r.u |= 4; r.u &= ~1;
  R q = r; q.y[0]++; return q.x + q.y[0] + q.y[2] + r.y[0] + q.in.q + r.t + r.u + r.s; }
int f9(int a,int b,int c,int n) { int *p, t[3]; t[0]=a; t[1]=b; t[2]=c; p = a > b ? &t[1] : t; p += (c > 0); *p = 50; return t[0]+10*t[1]+100*t[2]; }
int g1(int a,int b,int c,int n) { int r = 0; if ( a > 0 ) { r = 1; if ( b > 0 ) goto end; r = 2; } r += c; if ( c == 2 ) goto end; r *= 3; end: return r; }
int g2(int a,int b,int c,int n) { return (a && (b || c)) + 2*((a > b) ? (b > c ? 1 : 2) : 3) + (a / 3) + (a % 3) + (b >> 1) + (a << 2) + (a & b) + (a | c) + (b ^ c) + ~a; }
int g3(int a,int b,int c,int n) { int i, s = 0, k = a; do { s += k; k--; } while ( k > a-3 ); i = 3; while ( i-- ) s += b; return s + i; }
static int cnt;
static int side(int a) { cnt += a; return cnt; }
int g4(int a,int b,int c,int n) { cnt = 0; if ( side(a) > 1 && side(b) > 1 ) return cnt; return (a || side(c)) ? cnt : cnt - 1; }
static int h5(int a,int *p,int *q) { if ( a > 1 ) { *p = a; if ( *q > 0 ) { *q = 0; return 2; } *q = 1; return 2; } else if ( a == 1 ) { *p = 9; } return 3; }
int g5(int a,int b,int c,int n) { int u = b, v = c, r; r = h5(a,&u,&v); r += 10 * h5(r,&v,&u); return r + 100*u + 1000*v; }
int g6(int a,int b,int c,int n) { int t[8], i, m = n < 0 ? 0 : (n > 7 ? 7 : n); for (i=0; i<8; i++) t[i] = 1; for (i=0; i<m; i++) t[i] = a + i; for (i=0; i<m; i++) t[i] *= b; return t[0] + t[3] + t[7]; }
int g7(int a,int b,int c,int n) { int i, m = n < 0 ? 0 : (n > 7 ? 7 : n), s = 0; for (i=1; i<=m; i++) { if ( i == a ) return 100+i; s = i; } return s + c; }
int g8(int a,int b,int c,int n) { int i, m = n < 0 ? 0 : (n > 7 ? 7 : n), s = 0, t[9]; for (i=0; i<9; i++) t[i] = (i*a+b) % 5; for (i=0; i<m; i++) { if ( t[i] < 0 ) continue; s += t[i]; if ( s > 6 ) break; } return s*10 + i; }
int k1(int a,int b,int c,int n) { double x = a*0.5, y = b; if ( x < y ) x = y - x; else if ( x == y ) return 1; return (int)(x*2) + (fabs(y) > 2. ? 10 : 0); }
int k2(int a,int b,int c,int n) { int r = 0; if ( a ) { int z; if ( b > 1 ) z = 1; else { if ( c ) return 4; z = 2; } r = z; } else { if ( c > 0 ) r = 8; } if ( r == 1 && c ) return 11; return r; }
static int h6(int a,int b) { if ( a ) { if ( b ) return 1; else return 0; } else { if ( b > 1 ) return 0; } return b == 1; }
static int h7(int a,int b,int c) { if ( !h6(a,b) ) { if ( !h6(b,c) ) return 0; if ( !h6(c,a) ) return 0; } if ( c == 1 ) { if ( a == 1 ) return 0; } return 1; }
int k3(int a,int b,int c,int n) { if ( !h7(a,b,c) ) { if ( h7(c,b,a) ) return 1; return 2; } return 3 + h7(b,a,c); }
int k4(int a,int b,int c,int n) { unsigned char m = 0; if ( a > 0 ) m |= 1 << 1; if ( b > 0 ) m |= 1 << 3; if ( c > 0 ) m ^= 10; switch ( m ) { case 2: case 8: return 1; case 10: { if ( a == b ) return 2; return 3; } case 0: return 4; } return 5; }

static int h8(int *t,int m,int a) { int i; for (i=0; i<m; i++) { if ( t[i] == a ) return 0; } if ( a > 2 ) return 0; return 1; }
int k5(int a,int b,int c,int n) { int m = n < 0 ? 0 : (n > 4 ? 4 : n), t[5], i, r; for (i=0; i<5; i++) t[i] = i*b; r = h8(t,m,a); if ( r ) return 3; if ( !h8(t,m,c) ) return 4; return 5; }
int k6(int a,int b,int c,int n) { int m = n < 0 ? 0 : (n > 4 ? 4 : n), i, j = 0, s = 0; for (i=0; i<m; i++) { if ( i == a ) { j = 1; break; } if ( i == b ) { j = 2; break; } if ( i == c ) { s = 5; continue; } } if ( j == 1 ) return i; if ( i < m ) return 20 + i + s; return 50 + s; }
int k7(int a,int b,int c,int n) { int m = n < 0 ? 0 : (n > 4 ? 4 : n), i, j, s = 0; for (i=0; i<m; i++) { for (j=0; j<3; j++) { if ( i + j == a ) break; s += b; } if ( s > 7 ) return s; } return s + c; }
int k8(int a,int b,int c,int n) { int m = n < 0 ? 0 : (n > 4 ? 4 : n), i = 0, r = 0; while ( i < m ) { ++i; if ( i == a ) goto end; if ( i == b ) { r = -1; goto out; } } r = 1; end: r += c; return r * 10 + i; out: return r * 100 + i; }
int k9(int a,int b,int c,int n) { int m = n < 0 ? 0 : (n > 4 ? 4 : n), i, k = -1; for (i=0; i<m; i++) { if ( i*2 == a ) k = i; } if ( k < 0 ) return b; return k + c; }
