// Search for a failing input of a property on the real code (used only after an obligation has
// failed, to attach a concrete input to the report).  All expected values come from reference
// arithmetic written here (or OpenSSL), never from the code under test.
//   refute PROPERTY SEED SECONDS [POOLFILE]     prints "FAILING <text>" and exits 3 on a failure
#include <sys/cdefs.h>
#include <sys/param.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <stdarg.h>
#include <gmpxx.h>
#include <iostream>
#include <string>
#include <vector>
#include <map>
#include <algorithm>
#include <fstream>
#include <functional>
#include <assert.h>
#include <openssl/evp.h>
#include "utilities.hpp"
#include "aes.hpp"
#include "field_secp256r1.hpp"
#include "field_bn254.hpp"
#include "ecc_secp256r1.hpp"
#include "ecc_bn254.hpp"
#include "dme.hpp"
#include "dmhe.hpp"
#include "ot.hpp"
#include "dot.hpp"
#include "opprf.hpp"
#include "puda.hpp"
#include "shamirss.hpp"
#include "elgamal.hpp"
namespace crc_client
{
#include "crc.hpp"
}
typedef mpz_class Z;
using std::string;
using std::vector;

// ---------------------------------------------------------------- own random source
static uint64_t rs[2];
static uint64_t rnd()
{
    uint64_t a = rs[0], b = rs[1];
    rs[0] = b;
    a ^= a << 23;
    rs[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
    return rs[1] + b;
}
static size_t below(size_t n) { return n ? rnd() % n : 0; }
static Z zbits(size_t n)
{
    Z r = 0;
    for (size_t i = 0; i < n; i += 32) { r <<= 32; r += (unsigned long)(rnd() & 0xffffffffu); }
    Z m = Z(1) << n;
    r %= m;
    return r;
}
static vector<Z> pool, recent;
static Z runs(size_t n)             // long runs of equal bits
{
    Z r = 0;
    size_t i = 0;
    bool b = rnd() & 1;
    while (i < n)
    {
        size_t k = 1 + below(below(3) ? 20 : 120);
        if (i + k > n) k = n - i;
        r <<= k;
        if (b) r += (Z(1) << k) - 1;
        b = !b;
        i += k;
    }
    return r;
}
static Z limbs(size_t n)            // limbs of 0, all ones, small or random
{
    Z r = 0;
    size_t w = (rnd() & 1) ? 64 : (rnd() & 1) ? 32 : 8;
    for (size_t i = 0; i < n; i += w)
    {
        r <<= w;
        switch (below(4))
        {
        case 0: break;
        case 1: r += (Z(1) << w) - 1; break;
        case 2: r += (unsigned long)below(3); break;
        default: r += zbits(w);
        }
    }
    return r;
}
static Z sparse(size_t n)
{
    Z r = 0;
    for (size_t k = 1 + below(5); k--; ) r |= Z(1) << below(n);
    return r;
}
// an integer of about `bits` bits, of any structure
static Z any(size_t bits)
{
    Z r;
    switch (below(8))
    {
    case 0: r = (unsigned long)below(40); break;
    case 1: { size_t k = below(bits + 1); r = Z(1) << k; if (rnd() & 1) r += (long)below(5) - 2; if (r < 0) r = 0; break; }
    case 2: r = runs(bits); break;
    case 3: r = limbs(bits); break;
    case 4: r = sparse(bits); break;
    case 5: r = zbits(1 + below(bits)); break;
    default: r = zbits(bits);
    }
    return r;
}
static Z modz(const Z& a, const Z& m) { Z r = a % m; if (r < 0) r += m; return r; }
static Z inv(const Z& a, const Z& m) { Z r; mpz_invert(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
// a residue
static Z res(const Z& m)
{
    Z r;
    switch (below(14))
    {
    case 0: r = (long)below(12) - 6; break;
    case 1: r = m / 2 + (long)below(5) - 2; break;
    case 2: r = -any(256); break;
    case 3: if (pool.size()) { r = pool[below(pool.size())]; switch (below(4)) { case 0: r = -r; break; case 1: r += (long)below(5) - 2; break; default: break; } break; }  // fall through
    case 4: if (recent.size()) { r = recent[below(recent.size())]; switch (below(6)) { case 0: r = m - r; break; case 1: r += 1; break; case 2: if (modz(r, m) != 0) r = inv(modz(r, m), m); break; case 3: r *= 2; break; default: break; } break; }  // fall through
    case 5: { Z d = (unsigned long)(1 + below(20)); r = modz(Z((unsigned long)below(20)) * inv(d, m), m); break; }
    default: r = any(mpz_sizeinbase(m.get_mpz_t(), 2));
    }
    r = modz(r, m);
    recent.push_back(r);
    if (recent.size() > 40) recent.erase(recent.begin());
    return r;
}
// any integer, relative to a modulus
static Z integer(const Z& m)
{
    Z r;
    switch (below(9))
    {
    case 0: r = m * ((long)below(9) - 4) + ((long)below(5) - 2); break;
    case 1: r = any(600); break;
    case 2: r = -any(600); break;
    case 3: r = -any(256); break;
    case 4: r = any(64); break;
    case 5: if (pool.size()) { r = pool[below(pool.size())]; if (rnd() & 1) r = -r; break; } // fall through
    case 6: r = res(m) + m * ((long)below(5) - 2); break;
    default: r = res(m);
    }
    return r;
}

// the library's random source: special values now and then, all draws logged
static int special = 0;             // percentage of special draws
static int samey = 0;               // percentage of draws that repeat the previous one
static Z lastdraw;
static bool nonzero = false;        // no zero draws
struct Draw { Z v; int kind; Z m; };
static vector<Draw> drawlog;
extern "C" void __gmpz_urandomm(mpz_ptr r, gmp_randstate_t, mpz_srcptr m)
{
    Z mm(m), v;
    v = (int)below(100) < special ? res(mm) : modz(zbits(mpz_sizeinbase(m, 2) + 64), mm);
    if (special && (int)below(100) < samey && lastdraw < mm) v = lastdraw;
    lastdraw = v;
    if (nonzero && v == 0) v = 1;
    drawlog.push_back({v, 0, mm});
    mpz_set(r, v.get_mpz_t());
}
extern "C" void __gmpz_urandomb(mpz_ptr r, gmp_randstate_t, mp_bitcnt_t n)
{
    Z v = (int)below(100) < special ? modz(any(n), Z(1) << n) : zbits(n);
    if (nonzero && v == 0) v = 1;
    drawlog.push_back({v, 1, Z(1) << n});
    mpz_set(r, v.get_mpz_t());
}
extern "C" int rand(void) { return (int)(rnd() & 0x7fffffff); }

// a value of the pool (or next to one) below lim, or the given one
static size_t known(size_t lim, size_t other)
{
    for (int i = 0; i < 20 && pool.size(); i++)
    {
        Z z = abs(pool[below(pool.size())]) + (long)below(5) - 2;
        if (z >= 0 && z < Z((unsigned long)lim)) return z.get_ui();
    }
    return other;
}
// ---------------------------------------------------------------- reporting
static string cur;
static void fail(const string& m)
{
    fprintf(stdout, "FAILING %s: %s\n", cur.c_str(), m.c_str());
    fflush(stdout);
    _exit(3);
}
#define CHECK(c, m) do { if (!(c)) fail(m); } while (0)
static string h(const Z& z) { return (z < 0 ? "-0x" + Z(-z).get_str(16) : "0x" + z.get_str(16)); }
// a numeral, sometimes with leading zeros or capital digits
static string txt(const Z& z, int base)
{
    string s = z.get_str((rnd() & 1) && base == 16 ? -16 : base);
    return string(below(3) ? 0 : 1 + below(3), '0') + s;
}
static void say(const char* f, ...)
{
    char b[400];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    cur = b;
}
static void also(const char* nm, const Z& v) { cur += string(" ") + nm + "=" + h(v); }
static void dying(const char* m)
{
    char b[6000];
    int n = snprintf(b, sizeof b, "FAILING %.5000s: %s\n", cur.c_str(), m);
    if (n > (int)sizeof b) n = sizeof b;
    ssize_t k = write(1, b, n); (void)k;
}
static void onsig(int s)
{
    dying(s == SIGALRM ? "does not end" : s == SIGABRT ? "abort (failed assertion or memory error)" : "memory error");
    _exit(3);
}
extern "C" void __asan_on_error() { dying("memory error"); _exit(3); }

// ---------------------------------------------------------------- reference curves
struct RP { bool inf; Z x, y; RP() : inf(true) {} RP(Z a, Z b) : inf(false), x(a), y(b) {}
    bool operator==(const RP& o) const { return inf == o.inf && (inf || (x == o.x && y == o.y)); } };
struct RC
{
    Z p, n, a, b; RP G;
    RP neg(const RP& P) const { return P.inf ? P : RP(P.x, modz(-P.y, p)); }
    RP add(const RP& P, const RP& Q) const
    {
        if (P.inf) return Q;
        if (Q.inf) return P;
        Z l;
        if (P.x == Q.x)
        {
            if (modz(P.y + Q.y, p) == 0) return RP();
            l = modz((3 * P.x * P.x + a) * inv(modz(2 * P.y, p), p), p);
        }
        else l = modz((Q.y - P.y) * inv(modz(Q.x - P.x, p), p), p);
        Z x = modz(l * l - P.x - Q.x, p);
        return RP(x, modz(l * (P.x - x) - P.y, p));
    }
    RP mul(const RP& P, const Z& k0) const
    {
        Z k = modz(k0, n);
        RP R;
        for (long i = (long)mpz_sizeinbase(k.get_mpz_t(), 2) - 1; i >= 0; i--)
        {
            R = add(R, R);
            if (mpz_tstbit(k.get_mpz_t(), i)) R = add(R, P);
        }
        return R;
    }
    Z rhs(const Z& x) const { return modz(x * x * x + a * x + b, p); }
    bool sqrt(const Z& v, Z& r) const
    {
        Z e = (p + 1) / 4;
        mpz_powm(r.get_mpz_t(), v.get_mpz_t(), e.get_mpz_t(), p.get_mpz_t());
        return modz(r * r - v, p) == 0;
    }
    bool lift(const Z& x, RP& P) const
    {
        Z r;
        if (!sqrt(rhs(x), r)) return false;
        P = RP(x, r);
        return true;
    }
};
static RC SEC, BNC;
static void curves()
{
    SEC.p = Z("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", 16);
    SEC.n = Z("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551", 16);
    SEC.a = SEC.p - 3;
    SEC.b = Z("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b", 16);
    SEC.G = RP(Z("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296", 16), Z("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5", 16));
    Z t = -((Z(1) << 62) + (Z(1) << 55) + 1);
    BNC.p = 36 * t * t * t * t + 36 * t * t * t + 24 * t * t + 6 * t + 1;
    BNC.n = 36 * t * t * t * t + 36 * t * t * t + 18 * t * t + 6 * t + 1;
    BNC.a = 0; BNC.b = 2;
    BNC.G = RP(BNC.p - 1, 1);
}
struct S256 { typedef ecc::Point_secp256r1 P; typedef ecc::Curve_secp256r1 C; typedef field::Field_secp256r1_p Fp; typedef field::Field_secp256r1_n Fn; static RC& R() { return SEC; } static const char* nm() { return "secp256r1"; } };
struct B254 { typedef ecc::Point_bn254 P; typedef ecc::Curve_bn254 C; typedef field::Field_bn254_p Fp; typedef field::Field_bn254_n Fn; static RC& R() { return BNC; } static const char* nm() { return "bn254"; } };
template<class T> static RP rd(const typename T::P& P) { return P.isInf() ? RP() : RP(P.getX().getRawValue(), P.getY().getRawValue()); }
template<class T> static typename T::P mk(const RP& P, typename T::C* c) { if (P.inf) return typename T::P(); return typename T::P(P.x, P.y, c); }
static string h(const RP& P) { return P.inf ? "infinity" : "(" + h(P.x) + ", " + h(P.y) + ")"; }
static void also(const char* nm, const RP& P) { cur += string(" ") + nm + "=" + h(P); }

// a point of any kind; `old`: points used before
template<class T> static RP pt(vector<RP>& old)
{
    RC& R = T::R();
    RP P;
    switch (below(12))
    {
    case 0: break;
    case 1: P = R.G; break;
    case 2: P = R.mul(R.G, (long)below(40) - 20); break;
    case 3: for (Z x = (unsigned long)below(60);; x += 1) if (R.lift(modz(x, R.p), P)) break; break;
    case 4: for (Z x = R.p - (unsigned long)below(60);; x += 1) if (R.lift(modz(x, R.p), P)) break; break;
    case 5: for (Z x = res(R.p);; x += 1) if (R.lift(modz(x, R.p), P)) break; break;
    case 6: if (old.size())
        {   // a point with the same ordinate
            RP Q = old[below(old.size())];
            if (!Q.inf)
            {
                Z d = modz(Q.x * Q.x - 4 * (Q.x * Q.x + R.a), R.p), s;
                if (R.sqrt(d, s)) { P = RP(modz((-Q.x + s) * inv(Z(2), R.p), R.p), Q.y); break; }
            }
        } // fall through
    case 7: case 8: if (old.size()) { P = old[below(old.size())]; if (rnd() & 1) P = R.neg(P); break; } // fall through
    case 9: if (old.size()) { P = R.mul(old[below(old.size())], (long)below(7) - 3); break; } // fall through
    default: P = R.mul(R.G, res(R.n));
    }
    if (rnd() & 1) P = R.neg(P);
    old.push_back(P);
    if (old.size() > 12) old.erase(old.begin());
    return P;
}

// ---------------------------------------------------------------- C01, C02
template<class F> static Z val(const F& f, const Z& p)
{
    CHECK(f.getField() == p, "the result's modulus differs");
    Z v = f.getRawValue();
    CHECK(v >= 0 && v < p, "the result is not in [0, p): " + h(v));
    return v;
}
#define SAME(f, e) do { Z v_ = val(f, p), e_ = modz(e, p); CHECK(v_ == e_, "gives " + h(v_) + ", expected " + h(e_)); } while (0)
template<class F> static void c01f(const Z& p, const char* nm)
{
    Z a = integer(p), b = below(8) ? integer(p) : a, k = integer(p);
    say("%s:", nm); also("a", a); also("b", b); also("k", k);
    string base = cur;
    F x(a), y(b);
    cur = base + " constructor"; SAME(x, a); SAME(y, b);
    for (int q = 0; q < 16; q++)
    {
        F u = x, w = y;
        cur = base;
        switch (q)
        {
        case 0: cur += " a+b"; SAME(u + w, a + b); break;
        case 1: cur += " a-b"; SAME(u - w, a - b); break;
        case 2: cur += " a*b"; SAME(u * w, a * b); break;
        case 3: cur += " -a"; SAME(-u, -a); break;
        case 4: cur += " square"; SAME(u.square(), a * a); break;
        case 5: cur += " a*k"; SAME(u * k, a * k); break;
        case 6: cur += " a+=b"; { F& r = (u += w); CHECK(&r == &u, "returns another object"); } SAME(u, a + b); u = x; break;
        case 7: cur += " a-=b"; { F& r = (u -= w); CHECK(&r == &u, "returns another object"); } SAME(u, a - b); u = x; break;
        case 8: cur += " a*=b"; { F& r = (u *= w); CHECK(&r == &u, "returns another object"); } SAME(u, a * b); u = x; break;
        case 9: cur += " a*=k"; { F& r = (u *= k); CHECK(&r == &u, "returns another object"); } SAME(u, a * k); u = x; break;
        case 10: cur += " a+=a"; u += u; SAME(u, a + a); u = x; break;
        case 11: cur += " a-=a"; u -= u; SAME(u, 0); u = x; break;
        case 12: cur += " a*=a"; u *= u; SAME(u, a * a); u = x; break;
        case 13: cur += " a==b"; CHECK((u == w) == (modz(a - b, p) == 0), "is wrong"); break;
        case 14: cur += " a==a+kp"; CHECK(u == F(a + p * ((long)below(5) - 2)), "is false"); break;
        case 15: cur += " assignment"; { F v; v = u; SAME(v, a); v = v; SAME(v, a); F z; SAME(z, 0); } break;
        }
        cur += " operands after"; SAME(u, a); SAME(w, b);
    }
}
template<class F> static void c02f(const Z& p, const char* nm)
{
    Z a = integer(p), b = integer(p);
    if (modz(a, p) == 0) a = 1;
    say("%s:", nm); also("a", a); also("b", b);
    string base = cur;
    F x(a), y(b);
    Z i = inv(modz(a, p), p);
    cur = base + " a.invert()"; SAME(x.invert(), i);
    cur = base + " b/a"; SAME(y / x, b * i);
    cur = base + " operands after"; SAME(x, a); SAME(y, b);
    cur = base + " a/a"; SAME(x / x, 1);
    cur = base + " b/=a"; F w = y; F& r = (w /= x); CHECK(&r == &w, "returns another object"); SAME(w, b * i);
    cur = base + " a/=a"; w = x; w /= w; SAME(w, 1);
    cur = base + " operands after"; SAME(x, a); SAME(y, b);
}
static void c01() { switch (below(4)) { case 0: c01f<field::Field_secp256r1_p>(SEC.p, "Field_secp256r1_p"); break; case 1: c01f<field::Field_secp256r1_n>(SEC.n, "Field_secp256r1_n"); break; case 2: c01f<field::Field_bn254_p>(BNC.p, "Field_bn254_p"); break; default: c01f<field::Field_bn254_n>(BNC.n, "Field_bn254_n"); } }
static void c02() { switch (below(4)) { case 0: c02f<field::Field_secp256r1_p>(SEC.p, "Field_secp256r1_p"); break; case 1: c02f<field::Field_secp256r1_n>(SEC.n, "Field_secp256r1_n"); break; case 2: c02f<field::Field_bn254_p>(BNC.p, "Field_bn254_p"); break; default: c02f<field::Field_bn254_n>(BNC.n, "Field_bn254_n"); } }

// ---------------------------------------------------------------- C03-C06
template<class T> static void wantp(const typename T::P& P, const RP& E)
{
    RP r = rd<T>(P);
    CHECK(r == E, "gives " + h(r) + ", expected " + h(E));
    if (!r.inf) CHECK(P.curve != NULL, "the result has no curve");
    CHECK(P.isValid(), "the result " + h(r) + " is not valid");
}
template<class T> static void c03c()
{
    static typename T::C c1, c2;
    static vector<RP> old;
    RC& R = T::R();
    RP A = pt<T>(old), B;
    switch (below(5)) { case 0: B = A; break; case 1: B = R.neg(A); break; default: B = pt<T>(old); }
    typename T::P a = mk<T>(A, &c1), b = mk<T>(B, (rnd() & 1) ? &c1 : &c2);
    say("%s:", T::nm()); also("P", A); also("Q", B);
    string base = cur;
    cur = base + " P+Q"; wantp<T>(a + b, R.add(A, B));
    cur = base + " P-Q"; wantp<T>(a - b, R.add(A, R.neg(B)));
    cur = base + " 2P"; wantp<T>(a.pointDouble(), R.add(A, A));
    cur = base + " P+P"; wantp<T>(a + a, R.add(A, A));
    cur = base + " P-P"; wantp<T>(a - a, RP());
    typename T::P u = a;
    cur = base + " P+=Q"; { typename T::P& r = (u += b); CHECK(&r == &u, "returns another object"); } wantp<T>(u, R.add(A, B));
    cur = base + " P-=Q"; u = a; { typename T::P& r = (u -= b); CHECK(&r == &u, "returns another object"); } wantp<T>(u, R.add(A, R.neg(B)));
    cur = base + " P+=P"; u = a; u += u; wantp<T>(u, R.add(A, A));
    cur = base + " P-=P"; u = a; u -= u; wantp<T>(u, RP());
    cur = base + " operands after"; wantp<T>(a, A); wantp<T>(b, B);
    cur = base + " P+infinity"; wantp<T>(a + typename T::P(), A);
    cur = base + " infinity+P"; wantp<T>(typename T::P() + a, A);
    cur = base + " P-infinity"; wantp<T>(a - typename T::P(), A);
    cur = base + " infinity-P"; wantp<T>(typename T::P() - a, R.neg(A));
    // a chain
    RP E = A; u = a;
    cur = base + " chain";
    for (size_t i = below(6); i--; )
        switch (below(4))
        {
        case 0: u += b; E = R.add(E, B); break;
        case 1: u = u - a; E = R.add(E, R.neg(A)); break;
        case 2: u = u.pointDouble(); E = R.add(E, E); break;
        default: u = b + u; E = R.add(E, B);
        }
    wantp<T>(u, E);
}
template<class T> static void c04c()
{
    static typename T::C c1;
    static vector<RP> old;
    RC& R = T::R();
    RP A = pt<T>(old);
    Z k = integer(R.n);
    if (below(3) == 0) { k = (rnd() & 1) ? Z(res(R.n)) : any(300); if (below(4) == 0) k = -k; }
    typename T::P a = mk<T>(A, &c1);
    say("%s:", T::nm()); also("P", A); also("k", k);
    string base = cur;
    RP E = R.mul(A, k);
    cur = base + " P*k (integer)"; wantp<T>(a * k, E);
    typename T::Fn f(k);
    cur = base + " P*k (scalar)"; wantp<T>(a * f, E);
    typename T::P u = a;
    cur = base + " P*=k (scalar)"; { typename T::P& r = (u *= f); CHECK(&r == &u, "returns another object"); } wantp<T>(u, E);
    cur = base + " operands after"; wantp<T>(a, A); CHECK(f.getRawValue() == modz(k, R.n), "the scalar was changed");
    if (below(3) == 0)
    {
        cur = base + " P*1"; wantp<T>(a * Z(1), A); wantp<T>(a * typename T::Fn(1), A);
        cur = base + " P*0"; wantp<T>(a * Z(0), RP()); wantp<T>(a * typename T::Fn(0), RP());
        cur = base + " P*(-1)"; wantp<T>(a * Z(-1), R.neg(A));
        cur = base + " P*n"; wantp<T>(a * R.n, RP());
    }
}
template<class T> static void c05c()
{
    RC& R = T::R();
    static vector<RP> old;
    typename T::C c;
    say("%s: curve constants", T::nm());
    CHECK(c.getPrime() == R.p, "prime"); CHECK(modz(c.getA(), R.p) == R.a, "a"); CHECK(modz(c.getB(), R.p) == R.b, "b"); CHECK(c.getOrder() == R.n, "order");
    CHECK(rd<T>(c.getDefaultGen()) == R.G, "base point");
    CHECK(c.getDefaultGen().isValid(), "the base point is not valid");
    {
        Z x = res(R.p);
        say("%s: evaluatePy2", T::nm()); also("x", x);
        auto xf = mk<T>(R.G, &c).getX(); xf = decltype(xf)(x);
        CHECK(c.evaluatePy2(xf).getRawValue() == modz(x * x * x + R.a * x + R.b, R.p), "not x^3 + a x + b");
        CHECK(c.getAField().getRawValue() == R.a && c.getBField().getRawValue() == R.b, "coefficients");
    }
    say("%s: isValid", T::nm());
    CHECK(typename T::P().isValid(), "infinity is not valid");
    RP A = pt<T>(old);
    if (!A.inf)
    {
        also("P", A);
        CHECK(mk<T>(A, &c).isValid(), "rejects a point of the curve");
        RP B = A;
        switch (below(8))
        {
        case 0: B.x = res(R.p); break;
        case 1: B.y = res(R.p); break;
        case 2: B.y = modz(B.y + 1, R.p); break;
        case 3: B.x = modz(B.x + 1, R.p); break;
        case 4: std::swap(B.x, B.y); break;
        case 5: B.y = 0; break;
        case 6: B.x = modz(-B.x, R.p); break;
        default: B = RP(res(R.p), res(R.p));
        }
        say("%s: isValid", T::nm()); also("P", B);
        bool ok = modz(B.y * B.y - R.rhs(B.x), R.p) == 0;
        CHECK(mk<T>(B, &c).isValid() == ok, ok ? "rejects a point of the curve" : "accepts a point that does not satisfy the curve equation");
        // points of neighbouring curves
        Z s;
        for (int v = below(10), g = 0; g < 1; g++)
        {
            Z x = res(R.p), c3 = x * x * x, w;
            switch (v)
            {
            case 0: w = c3 + R.a * x; break;
            case 1: w = c3 + R.b; break;
            case 2: w = c3 + R.a * x - R.b; break;
            case 3: w = c3 - R.a * x + R.b; break;
            case 4: w = -R.rhs(x); break;
            case 5: w = x * x + R.a * x + R.b; break;
            case 6: w = c3 + R.a * x * x + R.b; break;
            case 7: w = c3 + R.a + R.b; break;
            case 8: w = 2 * R.rhs(x); break;
            default: w = R.rhs(x) * R.rhs(x); break;
            }
            if (!R.sqrt(modz(w, R.p), s)) continue;
            B = RP(x, (rnd() & 1) ? s : modz(-s, R.p));
            say("%s: isValid", T::nm()); also("P", B);
            bool ok = modz(B.y * B.y - R.rhs(B.x), R.p) == 0;
            CHECK(mk<T>(B, &c).isValid() == ok, ok ? "rejects a point of the curve" : "accepts a point that does not satisfy the curve equation");
        }
        B.x = res(R.p);
        if (R.sqrt(R.rhs(B.x), s))
        {
            B.y = (rnd() & 1) ? s : modz(-s, R.p);
            say("%s: isValid", T::nm()); also("P", B);
            CHECK(mk<T>(B, &c).isValid(), "rejects a point of the curve");
        }
    }
    special = 40;
    say("%s: random material, draw:", T::nm());
    drawlog.clear();
    typename T::P q = c.getRandomPoint();
    for (auto& d : drawlog) also("draw", d.v);
    RP Q = rd<T>(q);
    CHECK(Q.inf || modz(Q.y * Q.y - R.rhs(Q.x), R.p) == 0, "random point not on the curve: " + h(Q));
    CHECK(q.isValid(), "random point not valid");
    typename T::Fn f = c.getRandomScalar();
    CHECK(f.getField() == R.n, "random scalar's modulus");
    CHECK(f.getRawValue() >= 0 && f.getRawValue() < R.n, "random scalar out of range");
    auto k = c.generateKeyPair();
    CHECK(k.sk >= 0 && k.sk < R.n, "secret key out of range");
    RP K = k.pk.isInf() ? RP() : RP(k.pk.getX().getRawValue(), k.pk.getY().getRawValue());
    CHECK(K == R.mul(R.G, k.sk), "public key is not the base point times the secret key");
    special = 0;
}
template<class T> static void c06c()
{
    RC& R = T::R();
    static typename T::C c;
    static vector<RP> old;
    Z x = (rnd() & 1) ? res(R.p) : modz(any(256), R.p);
    if (below(4) == 0) { RP Q = pt<T>(old); if (!Q.inf) x = Q.x; }
    say("%s: evaluateP:", T::nm()); also("x", x);
    typename T::Fp f(x);
    RP E;
    bool has = R.lift(x, E);
    typename T::P a = c.evaluateP(f), b = c.evaluatePneg(f), a2 = c.evaluateP(f), b2 = c.evaluatePneg(f);
    RP A = rd<T>(a), B = rd<T>(b);
    CHECK(f.getRawValue() == x, "the abscissa was changed");
    CHECK(A == rd<T>(a2) && B == rd<T>(b2), "differs from one call to the next");
    if (!has) CHECK(A.inf && B.inf, "a point where none exists: " + h(A) + " " + h(B));
    else
    {
        CHECK(!A.inf && !B.inf, "no point where one exists");
        CHECK(A == E || A == R.neg(E), "not a point with that abscissa: " + h(A));
        CHECK(B == R.neg(A), "the two points are not opposite: " + h(A) + " " + h(B));
        CHECK(a.isValid() && b.isValid(), "not valid");
        Z ea = a.getEncodedX(), eb = b.getEncodedX();
        CHECK(ea >= 0, "negative encoding");
        CHECK(ea != eb, "opposite points have the same encoding");
        typename T::P u = c.getDefaultGen();
        say("%s: setEncodedX(getEncodedX):", T::nm()); also("P", A);
        u.setEncodedX(ea); CHECK(rd<T>(u) == A, "gives " + h(rd<T>(u)));
        say("%s: setEncodedX(getEncodedX):", T::nm()); also("P", B);
        u.setEncodedX(eb); CHECK(rd<T>(u) == B, "gives " + h(rd<T>(u)));
        wantp<T>(a, A);
    }
    static std::map<Z, RP> codes;
    if (has)
    {
        Z e = a.getEncodedX();
        auto it = codes.find(e);
        CHECK(it == codes.end() || it->second == A, "two points have the same encoding");
        if (codes.size() < 20000) codes[e] = A;
    }
}
#define BOTH(f) static void f() { if (rnd() & 1) f##c<S256>(); else f##c<B254>(); }
BOTH(c03) BOTH(c04) BOTH(c05) BOTH(c06)

// ---------------------------------------------------------------- C07-C14
typedef S256 S;
using dme::DME_DDH;
static vector<RP> oldp;
static ecc::Curve_secp256r1* CV() { static ecc::Curve_secp256r1 c; return &c; }
static dme::POINT P_(const RP& r) { return mk<S>(r, CV()); }
static dme::CRS_DDH crs4(bool degenerate)
{
    vector<RP> q;
    for (int i = 0; i < 4; i++)
    {
        RP r = pt<S>(oldp);
        while (!degenerate && r.inf) r = pt<S>(oldp);
        q.push_back(r);
    }
    for (int i = 0; i < 4; i++) also("crs", q[i]);
    dme::POINT a = P_(q[0]), b = P_(q[1]), c = P_(q[2]), d = P_(q[3]);
    return dme::CRS_DDH(a, b, c, d);
}
// one of the ways to set up
static DME_DDH* setup(int how)
{
    switch (how)
    {
    case 0: return new DME_DDH((dme::mode_t)0);
    case 1: return new DME_DDH((dme::mode_t)1);
    case 2: return new DME_DDH();
    case 3: { dme::CRS_DDH c = crs4(true); return new DME_DDH(c); }
    default: { DME_DDH o((dme::mode_t)below(2)); return new DME_DDH(o.crs); }
    }
}
static Z small_msg()
{
    Z lim = SEC.p >> 10;
    switch (below(5))
    {
    case 0: return lim - 1 - (unsigned long)below(6);
    case 1: return (unsigned long)below(300);
    case 2: return modz(any(246), lim);
    case 3: return modz(pool.size() ? Z(abs(pool[below(pool.size())])) : any(246), lim);
    default: return modz(any(246) << below(20), lim);
    }
}
static vector<DME_DDH*> keep;
static DME_DDH* some_dme()
{
    if (keep.size() > 6) { delete keep[0]; keep.erase(keep.begin()); }
    if (keep.size() < 2 || below(4) == 0) keep.push_back(setup(below(5)));
    return keep[below(keep.size())];
}
static void c07()
{
    special = 20;
    say("encode:");
    DME_DDH* d = some_dme();
    Z m = small_msg();
    say("encode:"); also("m", m);
    Z m0 = m;
    if (below(3) == 0)
    {
        // what the curve was asked before must not matter
        int j = below(4);
        char t[60]; snprintf(t, sizeof t, " (after evaluateP(1024 m + %d))", j);
        cur += t;
        d->getCurve()->evaluateP(dme::FIELD_p(m * 1024 + j));
    }
    dme::POINT P = d->encode(m);
    CHECK(m == m0, "the message was changed");
    RP r = rd<S>(P);
    CHECK(!r.inf, "gives infinity");
    CHECK(modz(r.y * r.y - SEC.rhs(r.x), SEC.p) == 0 && P.isValid(), "not a point of the curve");
    Z o = d->decode(P);
    CHECK(o == m, "decode(encode(m)) gives " + h(o));
    CHECK(d->decode(P_(SEC.neg(r))) == m, "decoding the opposite point gives " + h(d->decode(P_(SEC.neg(r)))));
    RP q = pt<S>(oldp);
    if (!q.inf)
    {
        say("decode:"); also("P", q);
        CHECK(d->decode(P_(q)) == d->decode(P_(SEC.neg(q))), "depends on more than the abscissa");
    }
}
static void c08()
{
    special = 15;
    int how = below(5);
    say("set-up %d", how);
    DME_DDH* d = (rnd() & 1) ? setup(how) : NULL;
    DME_DDH* u = d ? d : some_dme();
    int b = below(2);
    char t[60]; snprintf(t, sizeof t, " (set-up %d) branch %d:", d ? how : -1, b);
    cur += t;
    string base = cur;
    auto k = u->KeyGen((dme::branch_t)b);
    also("secret key", k.sk.getRawValue());
    base = cur;
    for (int i = 0; i < 2; i++)
    {
        cur = base;
        RP M = pt<S>(oldp);
        int samey0 = samey;
        if (i && below(3) == 0)
        {   // a message that cancels the mask, or its first or second half
            RP A = SEC.mul(rd<S>(k.pk.g), lastdraw), B = SEC.mul(rd<S>(k.pk.h), lastdraw);
            int w = below(4);
            M = SEC.neg(w == 0 ? A : w == 1 ? B : SEC.add(A, B));
            samey = 100;
        }
        also("message", M);
        dme::POINT m = P_(M);
        drawlog.clear();
        auto c = u->Enc(k.pk, (dme::branch_t)b, m);
        for (auto& x : drawlog) also("draw", x.v);
        samey = samey0;
        RP o = rd<S>(u->Dec(k.sk, c));
        CHECK(o == M, "Dec(Enc(m)) gives " + h(o));
        CHECK(rd<S>(m) == M, "the message was changed");
    }
    cur = base;
    Z z = small_msg();
    also("integer", z);
    drawlog.clear();
    auto c = u->Enc(k.pk, (dme::branch_t)b, z);
    for (auto& x : drawlog) also("draw", x.v);
    Z o = u->DecDecode(k.sk, c);
    CHECK(o == z, "DecDecode(Enc(m)) gives " + h(o));
    if (d) delete d;
}
static void c09()
{
    special = 10;
    nonzero = true;
    say("messy mode:");
    drawlog.clear();
    DME_DDH d((dme::mode_t)0);
    if ((int)d.mode != 0) { return; }
    for (auto& x : drawlog) also("set-up draw", x.v);
    string base = cur;
    RP g0 = rd<S>(d.crs.g0), g1 = rd<S>(d.crs.g1), h0 = rd<S>(d.crs.h0), h1 = rd<S>(d.crs.h1);
    Z e0 = d.td_m.e0.getRawValue(), e1 = d.td_m.e1.getRawValue();
    if (g0.inf || g1.inf || e0 == e1) return;
    for (int b = 0; b < 2; b++)
    {
        cur = base;
        drawlog.clear();
        auto k = d.KeyGen((dme::branch_t)b);
        also("key draw", k.sk.getRawValue());
        if (k.sk.getRawValue() == 0) continue;
        int m = (int)d.FindMessy(k.pk);
        CHECK(m == 1 - b, b ? "FindMessy does not name branch 0 for a key of branch 1" : "FindMessy does not name branch 1 for a key of branch 0");
        // a ciphertext of the messy branch: (s g + t h of the reference string, s g + t h of the key + message)
        RP M = pt<S>(oldp);
        drawlog.clear();
        dme::POINT mm = P_(M);
        auto c = d.Enc(k.pk, (dme::branch_t)m, mm);
        also("message", M);
        RP gm = m ? g1 : g0, hm = m ? h1 : h0, G = rd<S>(k.pk.g), H = rd<S>(k.pk.h), U = rd<S>(c.u), V = SEC.add(rd<S>(c.mv), SEC.neg(M));
        vector<Z> dr;
        for (auto& x : drawlog) { dr.push_back(x.v); also("draw", x.v); }
        for (auto& x : drawlog) CHECK(x.m >= SEC.n, "the messy ciphertext uses a value drawn from [0," + h(x.m) + ") only, so it does not hide the message");
        if (dr.size() == 2)
        {
            bool ok = false;
            for (int i = 0; i < 2; i++)
            {
                Z s = dr[i], t = dr[1 - i];
                ok |= U == SEC.add(SEC.mul(gm, s), SEC.mul(hm, t)) && V == SEC.add(SEC.mul(G, s), SEC.mul(H, t));
            }
            CHECK(ok, "the messy ciphertext is not the linear combination of two independent draws, so it does not hide the message");
        }
        else if (dr.size() < 2) fail("the messy ciphertext uses fewer than two random values, so it does not hide the message");
    }
}
static void c10()
{
    special = 10;
    nonzero = true;
    say("decryption mode:");
    drawlog.clear();
    DME_DDH d((dme::mode_t)1);
    for (auto& x : drawlog) also("draw", x.v);
    if (d.crs.g0.isInf() || d.crs.g1.isInf()) return;
    nonzero = false;
    string base = cur;
    auto t = d.TrapKeyGen();
    auto pk = std::get<0>(t);
    also("secret key 0", std::get<1>(t).getRawValue());
    string b2 = cur;
    for (int b = 0; b < 2; b++)
    {
        cur = b2 + (b ? " branch 1" : " branch 0");
        RP M = pt<S>(oldp);
        also("message", M);
        dme::POINT m = P_(M);
        auto c = d.Enc(pk, (dme::branch_t)b, m);
        RP o = rd<S>(d.Dec(b ? std::get<2>(t) : std::get<1>(t), c));
        CHECK(o == M, "the trapdoor key decrypts to " + h(o));
    }
    // a key of one branch is a key of the other
    RP g0 = rd<S>(d.crs.g0), g1 = rd<S>(d.crs.g1), h0 = rd<S>(d.crs.h0), h1 = rd<S>(d.crs.h1);
    Z y = d.td_d.y.getRawValue();
    for (int b = 0; b < 2; b++)
    {
        cur = base;
        auto k = d.KeyGen((dme::branch_t)b);
        Z s = k.sk.getRawValue();
        also("key", s);
        Z o = b ? modz(s * y, SEC.n) : modz(s * inv(y, SEC.n), SEC.n);
        CHECK(rd<S>(k.pk.g) == SEC.mul(b ? g0 : g1, o) && rd<S>(k.pk.h) == SEC.mul(b ? h0 : h1, o), "the key of one branch is no key of the other branch");
    }
}
static void c11()
{
    special = 10;
    say("homomorphic evaluation:");
    dme::DMHE_DDH* d;
    if (rnd() & 1) { dme::CRS_DDH c = crs4(true); d = new dme::DMHE_DDH(c); } else d = new dme::DMHE_DDH((dme::mode_t)below(2));
    int b = below(2);
    auto k = d->KeyGen((dme::branch_t)b);
    RP E; dme::CTXT acc;
    int n = 1 + below(4);
    vector<RP> ms;
    for (int i = 0; i < n; i++)
    {
        RP M = (i && below(3) == 0) ? (rnd() & 1 ? ms[0] : SEC.neg(E)) : pt<S>(oldp);
        ms.push_back(M);
        also("message", M);
        dme::POINT m = P_(M);
        auto c = d->Enc(k.pk, (dme::branch_t)b, m);
        dme::CTXT keepc = c, keepa = acc;
        if (i == 0) acc = c;
        else
        {
            dme::CTXT r = (rnd() & 1) ? d->Eval(acc, c) : d->Eval(c, acc);
            CHECK(rd<S>(c.u) == rd<S>(keepc.u) && rd<S>(c.mv) == rd<S>(keepc.mv) && rd<S>(acc.u) == rd<S>(keepa.u) && rd<S>(acc.mv) == rd<S>(keepa.mv), "an operand was changed");
            acc = r;
        }
        E = SEC.add(E, M);
        RP o = rd<S>(d->Dec(k.sk, acc));
        CHECK(o == E, "decrypts to " + h(o) + ", expected " + h(E));
    }
    delete d;
}
// C12
static bool eqr(const dme::PKEY& a, const dme::PKEY& b) { return rd<S>(a.g) == rd<S>(b.g) && rd<S>(a.h) == rd<S>(b.h); }
static void c12()
{
    say("equality and copies:");
    ecc::Curve_secp256r1 *c1 = new ecc::Curve_secp256r1, *c2 = new ecc::Curve_secp256r1;
    ecc::Curve_bn254 *d1 = new ecc::Curve_bn254, *d2 = new ecc::Curve_bn254;
    RP A = pt<S>(oldp), B = below(3) ? pt<S>(oldp) : (rnd() & 1) ? A : SEC.neg(A);
    also("A", A); also("B", B);
    string base = cur;
    {
        dme::POINT a = mk<S>(A, c1), b = mk<S>(B, c2), a2 = mk<S>(A, c2);
        cur = base + " points"; CHECK((a == b) == (A == B), "a == b is wrong"); CHECK((b == a) == (A == B), "b == a is wrong"); CHECK(a == a2 && a2 == a, "equal points differ");
        dme::POINT k(a); CHECK(rd<S>(k) == A && k == a, "copy differs"); k = b; CHECK(rd<S>(k) == B && k == b, "assigned value differs"); k = k; CHECK(rd<S>(k) == B, "self-assignment");
        CHECK(rd<S>(a) == A && rd<S>(b) == B, "source changed");
        if (!A.inf && !B.inf) {
            cur = base + " constructors"; ecc::Point_secp256r1 v1(A.x, B.y, c1), v2(txt(A.x, 10), txt(B.y, 10), c1), v3(txt(A.x, 16), txt(B.y, 16), c1, 16), v4(txt(A.x, 10).c_str(), txt(B.y, 10).c_str(), c1), v5(txt(A.x, 2).c_str(), txt(B.y, 2).c_str(), c1, 2);
            ecc::Point_secp256r1* v[5] = {&v1, &v2, &v3, &v4, &v5};
            for (int i = 0; i < 5; i++) { CHECK(!v[i]->isInf() && v[i]->getX().getRawValue() == A.x && v[i]->getY().getRawValue() == B.y && v[i]->curve == c1, "construction from coordinates gives other coordinates"); }
            cur = base + " points"; }
        { dme::POINT z = a - a, z2(z), z3 = b, z4; z3 = z; z4 = z; CHECK(z.isInf() && z2.isInf() && z3.isInf() && z4.isInf() && z2 == z && z3 == z && z4 == z && z == z3, "copy of infinity (a - a) differs"); z = z; CHECK(z.isInf(), "self-assignment of infinity"); z3 = a; CHECK(rd<S>(z3) == A && z3 == a, "assignment over infinity"); }
        dme::POINT i1, i2; CHECK(i1 == i2, "infinite points differ"); CHECK((a == i1) == A.inf && (i1 == a) == A.inf, "infinity compared with a point");
        vector<RP> q = {A, B, pt<S>(oldp), pt<S>(oldp)};
        dme::POINT p[4]; for (int i = 0; i < 4; i++) p[i] = mk<S>(q[i], c1);
        int ch = below(5);
        dme::POINT p2[4]; vector<RP> q2 = q; if (ch < 4) q2[ch] = (rnd() & 1) ? SEC.neg(q[ch]) : pt<S>(oldp);
        for (int i = 0; i < 4; i++) p2[i] = mk<S>(q2[i], c2);
        also("C", q[2]); also("D", q[3]); base = cur; char t[40]; snprintf(t, sizeof t, " component %d changed", ch); base += t;
        cur = base + " public keys";
        dme::PKEY k1(p[0], p[1]), k2(p2[0], p2[1]);
        CHECK(rd<S>(k1.g) == q[0] && rd<S>(k1.h) == q[1], "components");
        CHECK((k1 == k2) == (q[0] == q2[0] && q[1] == q2[1]), "== is wrong");
        dme::PKEY k3(k1), k4; k4 = k2; CHECK(eqr(k3, k1) && k3 == k1 && eqr(k4, k2) && k4 == k2, "copy differs");
        cur = base + " ciphertexts";
        dme::CTXT x1(p[0], p[1]), x2(p2[0], p2[1]), x3(x1), x4; x4 = x2;
        CHECK((x1 == x2) == (q[0] == q2[0] && q[1] == q2[1]), "== is wrong");
        CHECK(rd<S>(x3.u) == q[0] && rd<S>(x3.mv) == q[1] && x3 == x1 && rd<S>(x4.u) == q2[0] && rd<S>(x4.mv) == q2[1] && x4 == x2, "copy differs");
        cur = base + " reference strings";
        dme::CRS_DDH r1(p[0], p[1], p[2], p[3]), r2(p2[0], p2[1], p2[2], p2[3]), r3(r1), r4; r4 = r2;
        CHECK((r1 == r2) == (q == q2), "== is wrong");
        CHECK(rd<S>(r3.g0) == q[0] && rd<S>(r3.g1) == q[1] && rd<S>(r3.h0) == q[2] && rd<S>(r3.h1) == q[3] && r3 == r1 && r4 == r2, "copy differs");
        r4 = r4; k4 = k4; x4 = x4; CHECK(r4 == r2 && k4 == k2 && x4 == x2, "self-assignment");
        CHECK(rd<S>(r4.g0) == q2[0] && rd<S>(r4.g1) == q2[1] && rd<S>(r4.h0) == q2[2] && rd<S>(r4.h1) == q2[3], "assigned value differs");
        Z s1 = res(SEC.n), s2 = (rnd() & 1) ? s1 : res(SEC.n);
        dme::skey_t f1(s1), f2(s2), f3(res(SEC.n)), f4((rnd() & 1) ? f3.getRawValue() : res(SEC.n));
        also("scalar", s1); also("scalar", s2); base = cur;
        cur = base + " key pairs";
        dme::KeyPair kp1(k1, f1), kp2(k2, f2), kp3(kp1), kp4; kp4 = kp2;
        CHECK((kp1 == kp2) == (q[0] == q2[0] && q[1] == q2[1] && s1 == s2), "== is wrong");
        CHECK(eqr(kp3.pk, k1) && kp3.sk.getRawValue() == s1 && kp3 == kp1 && eqr(kp4.pk, k2) && kp4.sk.getRawValue() == s2 && kp4 == kp2, "copy differs");
        cur = base + " trapdoors";
        dme::td_messy_DDH t1(f1, f3), t2(f2, f4), t3(t1), t4; t4 = t2;
        CHECK((t1 == t2) == (s1 == s2 && f3.getRawValue() == f4.getRawValue()), "== is wrong");
        CHECK(t3 == t1 && t3.e0.getRawValue() == s1 && t3.e1.getRawValue() == f3.getRawValue() && t4 == t2 && t4.e0.getRawValue() == s2 && t4.e1.getRawValue() == f4.getRawValue(), "copy differs");
        dme::td_dec_DDH u1(f1), u2(f2), u3(u1), u4; u4 = u2;
        CHECK((u1 == u2) == (s1 == s2) && u3 == u1 && u3.y.getRawValue() == s1 && u4 == u2 && u4.y.getRawValue() == s2, "== or copy is wrong");
        t4 = t4; u4 = u4; kp4 = kp4; CHECK(t4 == t2 && u4 == u2 && kp4 == kp2, "self-assignment");
        static vector<RP> oldb;
        RP A2 = pt<B254>(oldb), B2 = below(3) ? pt<B254>(oldb) : A2;
        say("equality and copies, bn254:"); also("A", A2); also("B", B2);
        ecc::Point_bn254 e = mk<B254>(A2, d1), g = mk<B254>(B2, d2), e2(e);
        if (!A2.inf && !B2.inf) {
            ecc::Point_bn254 v1(A2.x, B2.y, d1), v2(txt(A2.x, 10), txt(B2.y, 10), d1), v3(txt(A2.x, 16), txt(B2.y, 16), d1, 16), v4(txt(A2.x, 10).c_str(), txt(B2.y, 10).c_str(), d1), v5(txt(A2.x, 2).c_str(), txt(B2.y, 2).c_str(), d1, 2);
            ecc::Point_bn254* v[5] = {&v1, &v2, &v3, &v4, &v5};
            for (int i = 0; i < 5; i++) { CHECK(!v[i]->isInf() && v[i]->getX().getRawValue() == A2.x && v[i]->getY().getRawValue() == B2.y && v[i]->curve == d1, "construction from coordinates gives other coordinates"); } }
        CHECK((e == g) == (A2 == B2), "== is wrong"); CHECK(rd<B254>(e2) == A2, "copy differs"); e2 = g; CHECK(rd<B254>(e2) == B2, "assigned value differs"); { ecc::Point_bn254 z = e - e, z2(z), z3 = g; z3 = z; CHECK(z.isInf() && z2.isInf() && z3.isInf(), "copy of infinity (a - a) differs"); }
        say("equality of curves"); CHECK(*c1 == *c2 && *d1 == *d2, "equal curves differ");
        ecc::Curve_secp256r1 cc; switch (below(5)) { case 0: cc.prime += 2; break; case 1: cc.a += 1; break; case 2: cc.b += 1; break; case 3: cc.order += 1; break; default: cc.cofactor += 1; }
        CHECK(!(cc == *c1) && !(*c1 == cc), "different curves are equal");
    }
    delete c1; delete c2; delete d1; delete d2;
}
static void c13()
{
    special = 5;
    static ot::OTrecv* r = NULL; static ot::OTsndr* s = NULL; static string hist;
    if (!r || below(6) == 0)
    {
        say("transfer:");
        dme::CRS_DDH c = crs4(true);
        hist = cur;
        delete r; delete s;
        r = new ot::OTrecv(c); s = new ot::OTsndr(c);
    }
    cur = hist;
    int b = below(2);
    cur += b ? " choice 1" : " choice 0";
    auto pk = r->selectMsg((dme::branch_t)b);
    CHECK(r->getBranch() == (dme::branch_t)b, "the receiver reports another choice");
    // several pairs under one public key, some messages sent again
    RP M[2] = {pt<S>(oldp), pt<S>(oldp)};
    Z m[2] = {small_msg(), small_msg()};
    int rounds = below(3) ? 1 : 3;
    for (int k = 0; k < rounds; k++)
    {
        if (k) for (int i = 0; i < 2; i++) if (below(3) == 0) { M[i] = pt<S>(oldp); m[i] = small_msg(); }
        if (k) cur += ", then with the same public key";
        if (rnd() & 1)
        {
            also("m0", M[0]); also("m1", M[1]);
            auto c = s->encMsgs(pk, P_(M[0]), P_(M[1]));
            RP o = rd<S>(r->decryptMsg(c));
            CHECK(o == M[b], "the receiver obtains " + h(o));
        }
        else
        {
            also("m0", m[0]); also("m1", m[1]);
            auto c = s->encMsgs(pk, m[0], m[1]);
            Z o = r->decryptMsgDecode(c);
            CHECK(o == m[b], "the receiver obtains " + h(o));
        }
    }
    if (hist.size() < 3000) hist += b ? ", after a transfer with choice 1" : ", after a transfer with choice 0";
}
static void c14()
{
    special = 5;
    static ot::DOTrecv* r = NULL; static ot::DOTprxy* p = NULL; static vector<ot::DOTsndr*> s; static string hist;
    if (!r || below(5) == 0)
    {
        say("distributed transfer:");
        dme::CRS_DDH c = crs4(true);
        hist = cur;
        delete r; delete p;
        for (auto x : s) delete x;
        s.clear();
        r = new ot::DOTrecv(c); p = new ot::DOTprxy(c);
        for (int i = 0; i < 5; i++) s.push_back(new ot::DOTsndr(c));
    }
    cur = hist;
    int b = below(2), n = 1 + below(5);
    cur += b ? " choice 1" : " choice 0";
    auto pk = r->selectMsg((dme::branch_t)b);
    vector<ot::ctxt_v_t> all;
    RP E;
    for (int i = 0; i < n; i++)
    {
        RP M[2] = {pt<S>(oldp), pt<S>(oldp)};
        if (i && below(4) == 0) M[b] = SEC.neg(E);
        also("m0", M[0]); also("m1", M[1]);
        all.push_back(s[i]->encMsgs(pk, P_(M[0]), P_(M[1])));
        E = SEC.add(E, M[b]);
        if (below(6) == 0)
        {
            // the same pair of ciphertexts once more
            int k = below(4) ? 1 : below(2) ? below(40) : below(300);
            cur += ", submitted " + std::to_string(k + 1) + " times";
            while (k--) { all.push_back(all.back()); E = SEC.add(E, M[b]); }
        }
    }
    n = all.size();
    auto c = p->aggregate(all);
    RP o = rd<S>(r->decryptMsg(c));
    CHECK(o == E, "the receiver obtains " + h(o) + ", expected " + h(E));
    CHECK((int)all.size() == n, "the ciphertexts were changed");
    if (hist.size() < 3000) hist += ", after an aggregation";
}
// ---------------------------------------------------------------- C15, C16
static void puda_(bool tags)
{
    special = 10;
    static puda::Puda* p = NULL;
    if (!p || below(4) == 0) { delete p; p = new puda::Puda; }
    int n = below(6) ? 1 + below(5) : below(12);
    int t;
    switch (below(6)) { case 0: t = below(4); break; case 5: t = 0; break; case 1: t = -(int)below(1000); break; case 2: t = 0x7fffffff - below(3); break; case 3: t = (int)0x80000000 + below(3); break; default: t = (int)rnd(); }
    if (below(6) == 0) t = known(0x7fffffff, t) * ((rnd() & 1) ? 1 : -1);
    say("PUDA: n=%d t=%d", n, t);
    auto st = p->Setup(n);
    auto ek = std::get<0>(st); auto sk = std::get<1>(st); auto ak = std::get<2>(st); auto vk = std::get<3>(st);
    CHECK((int)ek.size() == n && (int)sk.size() == n, "number of keys");
    vector<int> m; long sum = 0;
    int lim = tags ? 65535 : below(20) == 0 ? 65535 : below(8) ? 40 : 1500;
    for (int i = 0; i < n; i++)
    {
        int v = below(4) ? below(lim - sum + 1) : (rnd() & 1) ? 0 : 1;
        if (i == n - 1 && below(3) == 0) v = lim - sum;
        if (i && below(4) == 0) v = m[i - 1];
        if (below(6) == 0) v = known(lim - sum + 1, v);
        if (sum + v > lim) v = 0;
        m.push_back(v); sum += v;
    }
    if (tags && below(3) == 0 && n) { sum -= m[0]; m[0] = 65535; sum += m[0]; }
    for (int v : m) also("m", Z(v));
    puda::ctxt_v_t c; puda::tag_v_t g;
    for (int i = 0; i < n; i++) { c.push_back(p->Enc(ek[i], m[i], t)); g.push_back(p->Tag(sk[i], m[i], t)); }
    // any order
    for (int i = n - 1; i > 0; i--) { int j = below(i + 1); std::swap(c[i], c[j]); j = below(i + 1); std::swap(g[i], g[j]); }
    RP Hs = rd<S>(p->pp.hash), G1 = rd<S>(p->pp.g1), G2 = rd<S>(p->pp.g2);
    if (!tags)
    {
        auto r = p->Agg(ak, c, g, t);
        CHECK(r.first == (int)sum, "the aggregate is " + std::to_string(r.first) + ", expected " + std::to_string(sum));
        return;
    }
    // tags: few sums, so that the search in Agg ends soon
    puda::ctxt_v_t none; puda::tag_v_t gg = g;
    puda::ak_t zero(0);
    auto r = p->Agg(zero, none, gg, t);
    Z tk = 0, a = n ? sk[0].a : Z(0);
    for (int i = 0; i < n; i++) { tk += sk[i].tk.getRawValue(); CHECK(modz(sk[i].a - a, SEC.n) == 0, "the users' values a differ"); }
    RP E = SEC.add(SEC.mul(Hs, Z(t) * tk), SEC.mul(G1, a * sum));
    CHECK(rd<S>(r.second) == E, "the aggregated tag is " + h(rd<S>(r.second)) + ", expected " + h(E));
    CHECK(rd<S>(vk.vk_1) == SEC.mul(G2, tk), "the verification key does not commit to the tag keys");
    if (n) CHECK(rd<S>(vk.vk_2) == SEC.mul(G2, a), "the verification key does not commit to a");
    if (sum <= 65535) CHECK(p->Verify(vk, sum, r.second, t), "rejects the honest sum and tag");
}
static void c15() { puda_(false); }
static void c16() { puda_(true); }
// ---------------------------------------------------------------- C17, C18
static void c17()
{
    special = 10;
    static sss::ShamirSS* s = NULL;
    if (!s || below(4) == 0) { delete s; s = new sss::ShamirSS; }
    size_t t = 1 + below(below(16) ? 6 : below(8) ? 16 : 300), n = t + (below(24) ? below(8) : below(8) ? below(70) : below(400));
    if (below(10) == 0) t = 1 + known(200, t), n = t + below(4);
    if (below(10) == 0) n = t + known(200, n - t);
    Z x = res(SEC.n);
    say("Shamir: t=%d n=%d", (int)t, (int)n); also("secret", x);
    drawlog.clear();
    auto sh = s->getShares(t, n, sss::FIELD(x));
    for (auto& d : drawlog) also("coefficient", d.v);
    vector<int> ix;
    for (size_t i = 0; i < sh.size(); i++) ix.push_back(i);
    for (int i = (int)ix.size() - 1; i > 0; i--) std::swap(ix[i], ix[below(i + 1)]);
    size_t k = t + below(n - t + 1);
    sss::share_v_t use;
    cur += " shares used:";
    for (size_t i = 0; i < k && i < ix.size(); i++) { use.push_back(sh[ix[i]]); cur += " " + sh[ix[i]].idx.getRawValue().get_str(); }
    Z o = s->reconSecret(use).getRawValue();
    CHECK(o == x, "reconstructs " + h(o));
}
static void c18()
{
    special = 10;
    static sss::ShamirSS* s = NULL;
    if (!s || below(4) == 0) { delete s; s = new sss::ShamirSS; }
    size_t t = 1 + (below(24) ? below(10) : below(4) ? below(70) : below(600)), n = t + (below(24) ? below(8) : below(8) ? below(700) : below(70000) / t);
    if (below(10) == 0) t = 1 + known(200, t), n = t + below(4);
    if (below(10) == 0) n = t + known(200, n - t);
    Z x = res(SEC.n);
    say("Shamir: t=%d n=%d", (int)t, (int)n); also("secret", x);
    drawlog.clear();
    auto sh = s->getShares(t, n, sss::FIELD(x));
    vector<Z> c;
    for (auto& d : drawlog) { also("draw", d.v); c.push_back(modz(d.v, SEC.n)); }
    for (auto& d : drawlog) CHECK(d.m >= SEC.n, "a coefficient is drawn from [0," + h(d.m) + ") only");
    CHECK(sh.size() == n, "number of shares");
    CHECK(c.size() == t - 1, "draws " + std::to_string(c.size()) + " coefficients instead of " + std::to_string(t - 1));
    bool ok1 = true, ok2 = true;
    for (size_t i = 0; i < n; i++)
    {
        CHECK(sh[i].idx.getRawValue() == Z((unsigned long)(i + 1)), "index of share " + std::to_string(i + 1));
        Z e = 0, f = 0;
        for (size_t j = c.size(); j--; ) e = e * (i + 1) + c[j];
        for (size_t j = 0; j < c.size(); j++) f = f * (i + 1) + c[j];
        ok1 &= sh[i].val.getRawValue() == modz(e * (i + 1) + x, SEC.n);
        ok2 &= sh[i].val.getRawValue() == modz(f * (i + 1) + x, SEC.n);
    }
    CHECK(ok1 || ok2, "the shares are not the values of the polynomial with these coefficients");
}
// ---------------------------------------------------------------- C19-C23
static vector<uint8_t> bytes(const Z& z)
{
    vector<uint8_t> r;
    if (z <= 0) return r;
    r.resize((mpz_sizeinbase(z.get_mpz_t(), 2) + 7) / 8);
    mpz_export(r.data(), NULL, 1, 1, 1, 0, z.get_mpz_t());
    return r;
}
static Z unbytes(const uint8_t* p, size_t n) { Z r = 0; if (n) mpz_import(r.get_mpz_t(), n, 1, 1, 1, 0, p); return r; }
static Z bigint(size_t maxbits)
{
    size_t n;
    switch (below(6)) { case 0: n = below(40); break; case 1: n = 8 * below(20) + below(3); break; case 2: n = below(maxbits); break; case 3: n = 64 * below(10) + below(3); break; default: n = below(400); }
    if (below(60) == 0) n = below(3) ? 8 * ((rnd() & 1) ? below(20000) : known(20000, 0)) + below(9) : below(3000000);
    if (n == 0) return 0;
    Z r = any(n);
    if (below(4) == 0) r <<= 8 * below(10);
    if (below(6) == 0 && pool.size()) { r = abs(pool[below(pool.size())]); if (mpz_sizeinbase(r.get_mpz_t(), 2) > maxbits) r = 7; }
    return r;
}
static void c19()
{
    Z n = bigint(20000);
    say("getRawMpz:"); also("n", n);
    uint8_t* a = NULL;
    size_t len = utils::getRawMpz(&a, n);
    vector<uint8_t> e = bytes(n);
    CHECK(len == e.size(), "length " + std::to_string(len) + ", expected " + std::to_string(e.size()));
    if (len) CHECK(!memcmp(a, e.data(), len), "the bytes differ");
    Z o = utils::setRawMpz(a, len);
    CHECK(o == n, "the round trip gives " + h(o));
    free(a);
    size_t k = below(3) ? below(40) : below(12) ? below(600) : below(2) ? known(200000, 0) : below(200000);
    uint8_t* s = (uint8_t*)malloc(k ? k : 1);
    for (size_t i = 0; i < k; i++) s[i] = below(3) ? rnd() : below(2) ? 0 : 255;
    if (below(3) == 0) for (size_t i = 0; i < k && below(4); i++) s[i] = 0;
    vector<uint8_t> c(s, s + k);
    say("setRawMpz: %d bytes", (int)k); also("value", unbytes(s, k));
    o = utils::setRawMpz(s, k);
    CHECK(o == unbytes(c.data(), k), "gives " + h(o));
    CHECK(!k || !memcmp(s, c.data(), k), "the byte string was changed");
    free(s);
    size_t b = below(3) ? below(300) : below(4000);
    say("getRandom(%d)", (int)b);
    special = 30;
    o = utils::getRandom(b);
    CHECK(o >= 0 && o < (Z(1) << b), "gives " + h(o));
    special = 0;
}
static uint32_t refcrc(uint32_t c, const uint8_t* p, size_t n)
{
    while (n--) { c ^= *p++; for (int i = 0; i < 8; i++) c = (c >> 1) ^ ((c & 1) ? 0x82f63b78u : 0); }
    return c;
}
static void c20()
{
    size_t n = below(4) ? below(80) : below(4) ? below(600) : below(8) ? below(40000) : below(3) ? known(3000000, 0) : below(3000000), off = below(16);
    uint8_t* b = (uint8_t*)malloc(n + off + 1);
    uint8_t* q = (uint8_t*)malloc(n + off);      // ends exactly at the buffer's end
    for (size_t i = 0; i < n + off; i++) q[i] = below(4) ? rnd() : (rnd() & 1) ? 0 : 255;
    uint32_t st = below(3) ? (uint32_t)rnd() : (rnd() & 1) ? 0 : 0xffffffffu;
    say("calculate_crc32c: start %08x, %d bytes at offset %d:", st, (int)n, (int)off);
    if (n < 200) also("bytes", unbytes(q + off, n));
    vector<uint8_t> c(q, q + n + off);
    uint32_t o = crc_client::calculate_crc32c(st, q + off, n), e = refcrc(st, c.data() + off, n);
    char t[80]; snprintf(t, sizeof t, "gives %08x, expected %08x", o, e);
    CHECK(o == e, t);
    CHECK(n + off == 0 || !memcmp(q, c.data(), n + off), "the buffer was changed");
    free(b); free(q);
}
// four bytes after n such that the checksum is the given one
static Z forged(const Z& n, uint32_t want)
{
    vector<uint8_t> e = bytes(n);
    e.resize(e.size() + 4);
    uint8_t* w = e.data() + e.size() - 4;
    uint32_t base = refcrc(0, e.data(), e.size()) ^ want;
    struct { uint32_t c, x; } row[32];
    int r = 0;
    for (int i = 0; i < 32; i++) { w[i / 8] = 1u << i % 8; row[i].c = refcrc(0, e.data(), e.size()) ^ base ^ want; row[i].x = 1u << i; w[i / 8] = 0; }
    uint32_t sol = 0;
    for (int b = 31; b >= 0; b--)
    {
        int k = r;
        while (k < 32 && !(row[k].c >> b & 1)) k++;
        if (k == 32) continue;
        std::swap(row[k], row[r]);
        for (int j = 0; j < 32; j++) if (j != r && row[j].c >> b & 1) { row[j].c ^= row[r].c; row[j].x ^= row[r].x; }
        r++;
    }
    for (int j = 0; j < r; j++) { int b = 31; while (!(row[j].c >> b & 1)) b--; if (base >> b & 1) { base ^= row[j].c; sol ^= row[j].x; } }
    for (int i = 0; i < 4; i++) w[i] = sol >> 8 * i;
    return unbytes(e.data(), e.size());
}
static uint32_t somecrc()
{
    switch (below(5)) { case 0: return 0; case 1: return 0xffffffffu; case 2: return 1u << below(32); case 3: return below(300); default: return (uint32_t)rnd() << (8 * below(4)); }
}
static void c21()
{
    Z n = bigint(8000);
    if (below(5) == 0 && n > 0) n = forged(n, somecrc());
    say("appendCRC:"); also("n", n);
    vector<uint8_t> e = bytes(n);
    uint32_t c = refcrc(0, e.data(), e.size());
    vector<uint8_t> f = e;
    for (int i = 0; i < 4; i++) f.push_back(c >> (8 * i));
    Z o = crc_client::appendCRC(n);
    CHECK(o == unbytes(f.data(), f.size()), "gives " + h(o) + ", expected " + h(unbytes(f.data(), f.size())));
    CHECK(crc_client::validateCRC(o), "the appended value does not validate");
    Z r = crc_client::removeCRC(o);
    CHECK(r == n, "removing the checksum gives " + h(r));
    Z m = bigint(3000);
    if (rnd() & 1) { m = o; m ^= Z(1) << below(mpz_sizeinbase(o.get_mpz_t(), 2) + 8); }
    say("validateCRC:"); also("n", m);
    vector<uint8_t> g = bytes(m);
    bool ok = g.size() == 0;
    if (g.size() >= 4)
    {
        uint32_t v = refcrc(0, g.data(), g.size() - 4), w = 0;
        for (int i = 0; i < 4; i++) w |= (uint32_t)g[g.size() - 4 + i] << (8 * i);
        ok = v == w;
    }
    CHECK((bool)crc_client::validateCRC(m) == ok, ok ? "rejects a value with its checksum" : "accepts a value without its checksum");
    say("removeCRC:"); also("n", m);
    r = crc_client::removeCRC(m);
    CHECK(r == (g.size() < 4 ? Z(0) : unbytes(g.data(), g.size() - 4)), "gives " + h(r));
}
struct Cipher : aes::AES {};
static string iv_now(16, '\0');
static void new_iv()
{
    if (below(4) == 0)
    {
        if (rnd() & 1) { aes::AES::init(); iv_now.assign(16, '\0'); }
        else
        {
            string s(below(5) ? 16 : below(20), 'x');
            for (auto& c : s) c = below(3) ? rnd() : (rnd() & 1) ? 0 : 255;
            aes::AES::init(s);
            iv_now = s; iv_now.resize(16, '\0');
        }
    }
    cur += " iv="; for (unsigned char c : iv_now) { char t[4]; snprintf(t, 4, "%02x", c); cur += t; }
}
static vector<uint8_t> refaes(const Z& key, const vector<uint8_t>& m)
{
    vector<uint8_t> k = bytes(key), o(m.size() + 32);
    k.insert(k.begin(), 16 - k.size(), 0);
    EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
    int a = 0, b = 0;
    EVP_EncryptInit_ex(c, EVP_aes_128_ctr(), NULL, k.data(), (const unsigned char*)iv_now.data());
    EVP_EncryptUpdate(c, o.data(), &a, m.data(), m.size());
    EVP_EncryptFinal_ex(c, o.data() + a, &b);
    EVP_CIPHER_CTX_free(c);
    o.resize(a + b);
    return o;
}
static Z key128()
{
    switch (below(5)) { case 0: return (unsigned long)below(300); case 1: return (Z(1) << 128) - 1 - (unsigned long)below(3); default: return modz(any(128), Z(1) << 128); }
}
static void c22()
{
    say("AES:");
    new_iv();
    Z k = key128(), m = bigint(9000);
    if (rnd() & 1)
    {   // a ciphertext with zero bytes in front
        vector<uint8_t> f = refaes(k, vector<uint8_t>(1 + below(40), 0));
        for (size_t i = 1 + below(4); i < f.size(); i++) f[i] ^= rnd();
        m = unbytes(f.data(), f.size());
    }
    also("key", k); also("plaintext", m);
    Cipher a;
    Z k0 = k, m0 = m;
    Z c = a.encrypt(k, m);
    Z d = a.decrypt(k, c);
    CHECK(d == m, "decrypting the ciphertext " + h(c) + " gives " + h(d));
    vector<uint8_t> e = refaes(k, bytes(m)), f = bytes(c);
    // the ciphertext bytes follow a marker that keeps zero bytes in front of them
    if (e.size())
    {
        CHECK(f.size() >= e.size(), "the ciphertext is too short: " + h(c));
        CHECK(!memcmp(f.data() + f.size() - e.size(), e.data(), e.size()), "the ciphertext " + h(c) + " is not the counter-mode encryption " + h(unbytes(e.data(), e.size())));
    }
    CHECK(c >= 0, "negative ciphertext");
    CHECK(a.encrypt(k, m) == c, "differs from one call to the next");
    CHECK(k == k0 && m == m0, "an operand was changed");
}
static void c23()
{
    say("AES with checksum:");
    new_iv();
    Z k = key128(), m = bigint(5000);
    if (below(5) == 0 && m > 0) m = forged(m, somecrc());
    also("key", k); also("message", m);
    Cipher a;
    Z c = a.encryptCRC(k, m);
    Z d = a.decryptCRC(k, c);
    CHECK(d == m, "returns " + h(d));
    Z c2 = c;
    switch (below(4)) { case 0: c2 ^= Z(1) << below(mpz_sizeinbase(c.get_mpz_t(), 2)); break; case 1: c2 = bigint(2000); break; case 2: c2 = a.encrypt(k, bigint(600)); break; default: c2 = (unsigned long)below(3000); }
    Z k2 = (rnd() & 1) ? k : key128();
    say("AES decryptCRC:"); also("key", k2); also("ciphertext", c2);
    Z p = a.decrypt(k2, c2);
    vector<uint8_t> g = bytes(p);
    Z want = 0;
    if (g.size() >= 4)
    {
        uint32_t v = refcrc(0, g.data(), g.size() - 4), w = 0;
        for (int i = 0; i < 4; i++) w |= (uint32_t)g[g.size() - 4 + i] << (8 * i);
        if (v == w) want = unbytes(g.data(), g.size() - 4);
    }
    d = a.decryptCRC(k2, c2);
    CHECK(d == want, "returns " + h(d) + ", expected " + h(want));
}
// ---------------------------------------------------------------- C24-C26
static uint16_t theta16()
{
    if (below(3) == 0) return known(65536, rnd());
    switch (below(6)) { case 0: return below(4); case 1: return 65535 - below(4); case 2: return 1u << below(16); case 3: return (1u << below(17)) - 1; default: return rnd(); }
}
static RP evaluate(opprf::OPPRFserver* s, opprf::OPPRFclient* c, uint16_t theta, uint16_t x, const RP& GA, bool above, const string& hist, vector<string>* tr = NULL)
{
    cur = hist;
    auto note = [&](const ot::ctxt_v_t& v) { if (tr) for (auto& q : v) { tr->push_back(h(rd<S>(q.u))); tr->push_back(h(rd<S>(q.mv))); } };
    char t[80]; snprintf(t, sizeof t, " threshold %d, input %d:", theta, x);
    cur += t; also("secret", GA);
    dme::POINT ga = P_(GA);
    s->setSecret(ga);
    s->prepareKeysAndInputs();
    RP K = rd<S>(s->getKOPPRF());
    c->setMessage(x);
    RP acc, ex;
    for (int r = 16; r >= 1; r--)
    {
        auto pk = c->runOTRound_start(r);
        if (tr) { tr->push_back(h(rd<S>(pk.g))); tr->push_back(h(rd<S>(pk.h))); }
        auto o = s->runOTRound(r, pk);
        for (auto& q : o.ctxt) note(q);
        note(o.cprf);
        c->runOTRound_end(r, o);
    }
    if (above) acc = rd<S>(c->getResult());
    drawlog.clear();
    auto masks = s->sendEncryptedMasks();
    vector<Draw> dr = drawlog;
    if (tr) for (auto& q : masks) tr->push_back(h(q));
    c->unmaskResult(masks);
    RP res_ = rd<S>(c->getResult());
    if (tr) { tr->push_back(h(res_)); tr->push_back(h(K)); }
    RP E = SEC.add(K, SEC.mul(GA, Z(x)));
    if (!above) CHECK(res_ == E, "the result is " + h(res_) + ", expected " + h(E));
    else
    {
        CHECK(!(res_ == E), "the input above the threshold obtains the keyed result");
        RP d = SEC.add(res_, SEC.neg(acc));
        bool ok = dr.size() > 4;
        for (auto& q : dr) ok |= d == SEC.mul(SEC.G, q.v);
        CHECK(ok, "what the client unmasks is not a random point drawn for this purpose");
        aes::AES a;
        int n = 0;
        for (int i = 0; i < 3; i++) n += a.decryptCRC(c->key, masks[i]) != 0;
        CHECK(n == 1, "the client's key opens " + std::to_string(n) + " of the final ciphertexts");
    }
    return K;
}
static void opprf_(int what)
{
    special = 0; nonzero = true;
    static opprf::OPPRFserver* s = NULL; static opprf::OPPRFclient* c = NULL; static string hist; static uint16_t theta; static int used = 0;
    static dme::CRS_DDH crs;
    if (!s || what != 26 || used > 3)
    {
        delete s; delete c;
        DME_DDH* d = some_dme();
        static dme::CURVE* own = new dme::CURVE; crs = d->crs; crs.updateCurve(own);
        theta = theta16();
        if (what == 25 && theta == 65535) theta = 65534;
        s = new opprf::OPPRFserver(theta, crs); c = new opprf::OPPRFclient(crs);
        hist = "OPPRF:"; used = 0;
    }
    int runs_ = what == 26 ? 1 : 1;
    for (int i = 0; i < runs_; i++)
    {
        uint16_t x;
        bool above = what == 25 || (what == 26 && below(3) == 0 && theta < 65535);
        if (above) x = theta + 1 + (below(3) ? below(65535 - theta) : 0);
        else
        {
            switch (below(4)) { case 0: x = theta; break; case 1: x = theta ? theta - 1 : 0; break; case 2: { x = theta; uint16_t m = 1u << below(16); if (x & m) x &= ~m, x |= rnd() & (m - 1); break; } default: x = below((size_t)theta + 1); }
            if (x > theta) x = theta;
        }
        if (below(4) == 0) { uint16_t y = known(65536, x); if (above ? y > theta : y <= theta) x = y; }
        RP GA = pt<S>(oldp);
        while (GA.inf) GA = pt<S>(oldp);
        vector<string> reused, fresh;
        uint64_t r0 = rs[0], r1 = rs[1];
        evaluate(s, c, theta, x, GA, above, hist, &reused);
        if (used > 0)
        {
            // new objects with the same random choices
            opprf::OPPRFserver s2(theta, crs); opprf::OPPRFclient c2(crs);
            rs[0] = r0; rs[1] = r1;
            evaluate(&s2, &c2, theta, x, GA, above, hist + " (the same with new objects)", &fresh);
            CHECK(reused == fresh, "with the same random choices, reused and new objects exchange different messages");
        }
        char t[60]; snprintf(t, sizeof t, " after an evaluation of %d (threshold %d) and clean-up,", x, theta);
        hist += t;
        s->clean(); c->clean();
        CHECK(c->getResult().isInf(), "the result is not reset");
        used++;
    }
}
static void c24() { opprf_(24); }
static void c25() { opprf_(25); }
static void c26() { opprf_(26); }
// ---------------------------------------------------------------- C27
static void c27()
{
    special = 10;
    static elgamal::ElGamal* e = NULL;
    if (!e || below(5) == 0) { delete e; e = new elgamal::ElGamal; }
    say("ElGamal:");
    nonzero = below(3) != 0;
    auto k = e->keyGen();
    also("secret key", k.sk.getRawValue());
    CHECK(k.sk.getRawValue() >= 0 && k.sk.getRawValue() < SEC.n, "secret key out of range");
    CHECK(rd<S>(k.pk) == SEC.mul(SEC.G, k.sk.getRawValue()), "the public key is not the base point times the secret key");
    Z m = small_msg() >> 10;
    nonzero = false;
    string base = cur;
    also("m", m);
    drawlog.clear();
    auto c = e->encrypt(k.pk, m);
    for (auto& d : drawlog) also("draw", d.v);
    Z o = e->decrypt(k.sk, c);
    CHECK(o == m, "decrypts to " + h(o));
    cur = base;
    RP M = pt<S>(oldp);
    while (M.inf) M = pt<S>(oldp);
    Z r = drawlog.size() ? drawlog.back().v : Z(0);
    int samey0 = samey;
    if (below(3) == 0 && r != 0 && k.sk.getRawValue() != 0)
    {   // the same draw once more, and a message that cancels the mask
        RP N = SEC.neg(SEC.mul(SEC.G, k.sk.getRawValue() * r));
        if (!N.inf) { M = N; samey = 100; lastdraw = r; }
    }
    also("message", M);
    dme::POINT mp = P_(M);
    drawlog.clear();
    auto c2 = e->encrypt(k.pk, mp);
    for (auto& d : drawlog) also("draw", d.v);
    samey = samey0;
    o = e->decrypt(k.sk, c2);
    CHECK(o == (M.x >> 20), "decrypts to " + h(o) + ", expected " + h(M.x >> 20));
}

int main(int argc, char** argv)
{
    if (argc < 4) return 2;
    curves();
    string p = argv[1];
    rs[0] = 0x9e3779b97f4a7c15ull * (strtoull(argv[2], NULL, 10) + 1); rs[1] = rs[0] ^ 0xdeadbeefcafebabeull;
    for (int i = 0; i < 20; i++) rnd();
    double secs = atof(argv[3]);
    if (argc > 4) { std::ifstream f(argv[4]); string l; while (f >> l) { try { Z z(l); if (mpz_sizeinbase(z.get_mpz_t(), 2) < 20000) pool.push_back(z); } catch (...) {} } }
    std::map<string, void (*)()> T = {{"C01", c01}, {"C02", c02}, {"C03", c03}, {"C04", c04}, {"C05", c05}, {"C06", c06}, {"C07", c07}, {"C08", c08}, {"C09", c09},
        {"C10", c10}, {"C11", c11}, {"C12", c12}, {"C13", c13}, {"C14", c14}, {"C15", c15}, {"C16", c16}, {"C17", c17}, {"C18", c18}, {"C19", c19}, {"C20", c20},
        {"C21", c21}, {"C22", c22}, {"C23", c23}, {"C24", c24}, {"C25", c25}, {"C26", c26}, {"C27", c27}};
    if (!T.count(p)) return 2;
    signal(SIGABRT, onsig); signal(SIGSEGV, onsig); signal(SIGFPE, onsig); signal(SIGBUS, onsig); signal(SIGALRM, onsig); signal(SIGILL, onsig);
    time_t t0 = time(NULL);
    long n = 0;
    while (difftime(time(NULL), t0) < secs)
    {
        alarm(p == "C15" ? 240 : 60);
        cur = p;
        special = 0; nonzero = false; samey = below(12) ? 0 : 60;
        try { T[p](); }
        catch (std::exception& e) { fail(string("exception: ") + e.what()); }
        catch (...) { fail("exception"); }
        n++;
    }
    alarm(0);
    printf("CASES %ld\n", n);
    fflush(stdout);
    _exit(0);
}
