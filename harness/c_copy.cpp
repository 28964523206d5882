// Client functions for C12 (copies and equality of the value types)
#include "dme.hpp"
using namespace dme;
extern "C"
{
void ob_make_pkey(POINT* a0, POINT* a1, PKEY* o) { new (o) PKEY(*a0, *a1); }
void ob_get_pkey(PKEY* o, POINT* a0, POINT* a1) { *a0 = o->g; *a1 = o->h; }
void ob_copy_pkey(PKEY* x, PKEY* o) { new (o) PKEY(*x); }
void ob_default_pkey(PKEY* o) { new (o) PKEY(); }
void ob_assign_pkey(PKEY* x, PKEY* o) { *o = *x; }
bool ob_eq_pkey(PKEY* x, PKEY* o) { return *o == *x; }
size_t ob_sizeof_pkey() { return sizeof(PKEY); }
void ob_make_keypair(PKEY* a0, skey_t* a1, KeyPair* o) { new (o) KeyPair(*a0, *a1); }
void ob_get_keypair(KeyPair* o, PKEY* a0, skey_t* a1) { *a0 = o->pk; *a1 = o->sk; }
void ob_copy_keypair(KeyPair* x, KeyPair* o) { new (o) KeyPair(*x); }
void ob_default_keypair(KeyPair* o) { new (o) KeyPair(); }
void ob_assign_keypair(KeyPair* x, KeyPair* o) { *o = *x; }
bool ob_eq_keypair(KeyPair* x, KeyPair* o) { return *o == *x; }
size_t ob_sizeof_keypair() { return sizeof(KeyPair); }
void ob_make_ctxt(POINT* a0, POINT* a1, CTXT* o) { new (o) CTXT(*a0, *a1); }
void ob_get_ctxt(CTXT* o, POINT* a0, POINT* a1) { *a0 = o->u; *a1 = o->mv; }
void ob_copy_ctxt(CTXT* x, CTXT* o) { new (o) CTXT(*x); }
void ob_default_ctxt(CTXT* o) { new (o) CTXT(); }
void ob_assign_ctxt(CTXT* x, CTXT* o) { *o = *x; }
bool ob_eq_ctxt(CTXT* x, CTXT* o) { return *o == *x; }
size_t ob_sizeof_ctxt() { return sizeof(CTXT); }
void ob_make_crs(POINT* a0, POINT* a1, POINT* a2, POINT* a3, CRS_DDH* o) { new (o) CRS_DDH(*a0, *a1, *a2, *a3); }
void ob_get_crs(CRS_DDH* o, POINT* a0, POINT* a1, POINT* a2, POINT* a3) { *a0 = o->g0; *a1 = o->g1; *a2 = o->h0; *a3 = o->h1; }
void ob_copy_crs(CRS_DDH* x, CRS_DDH* o) { new (o) CRS_DDH(*x); }
void ob_default_crs(CRS_DDH* o) { new (o) CRS_DDH(); }
void ob_assign_crs(CRS_DDH* x, CRS_DDH* o) { *o = *x; }
bool ob_eq_crs(CRS_DDH* x, CRS_DDH* o) { return *o == *x; }
size_t ob_sizeof_crs() { return sizeof(CRS_DDH); }
void ob_make_tdm(FIELD_n* a0, FIELD_n* a1, td_messy_DDH* o) { new (o) td_messy_DDH(*a0, *a1); }
void ob_get_tdm(td_messy_DDH* o, FIELD_n* a0, FIELD_n* a1) { *a0 = o->e0; *a1 = o->e1; }
void ob_copy_tdm(td_messy_DDH* x, td_messy_DDH* o) { new (o) td_messy_DDH(*x); }
void ob_default_tdm(td_messy_DDH* o) { new (o) td_messy_DDH(); }
void ob_assign_tdm(td_messy_DDH* x, td_messy_DDH* o) { *o = *x; }
bool ob_eq_tdm(td_messy_DDH* x, td_messy_DDH* o) { return *o == *x; }
size_t ob_sizeof_tdm() { return sizeof(td_messy_DDH); }
void ob_make_tdd(FIELD_n* a0, td_dec_DDH* o) { new (o) td_dec_DDH(*a0); }
void ob_get_tdd(td_dec_DDH* o, FIELD_n* a0) { *a0 = o->y; }
void ob_copy_tdd(td_dec_DDH* x, td_dec_DDH* o) { new (o) td_dec_DDH(*x); }
void ob_default_tdd(td_dec_DDH* o) { new (o) td_dec_DDH(); }
void ob_assign_tdd(td_dec_DDH* x, td_dec_DDH* o) { *o = *x; }
bool ob_eq_tdd(td_dec_DDH* x, td_dec_DDH* o) { return *o == *x; }
size_t ob_sizeof_tdd() { return sizeof(td_dec_DDH); }
}

// points and curves
#include "ecc_bn254.hpp"
#define POINT_CLIENTS(N, PT, CV, FP) \
extern "C" { \
void ob_make_##N(FP* x, FP* y, CV* c, PT* o) { new (o) PT(*x, *y, c); } \
void ob_makez_##N(mpz_class* x, mpz_class* y, CV* c, PT* o) { new (o) PT(*x, *y, c); } \
void ob_makes_##N(std::string* x, std::string* y, CV* c, int base, PT* o) { new (o) PT(*x, *y, c, base); } \
void ob_makesd_##N(std::string* x, std::string* y, CV* c, PT* o) { new (o) PT(*x, *y, c); } \
void ob_makec_##N(const char* x, const char* y, CV* c, int base, PT* o) { new (o) PT(x, y, c, base); } \
void ob_makecd_##N(const char* x, const char* y, CV* c, PT* o) { new (o) PT(x, y, c); } \
void ob_get_##N(PT* o, FP* x, FP* y) { *x = o->getX(); *y = o->getY(); } \
bool ob_inf_##N(PT* o) { return o->isInf(); } \
CV* ob_curve_##N(PT* o) { return o->curve; } \
void ob_copy_##N(PT* x, PT* o) { new (o) PT(*x); } \
void ob_default_##N(PT* o) { new (o) PT(); } \
void ob_assign_##N(PT* x, PT* o) { *o = *x; } \
PT* ob_assignp_##N(PT* x, PT* o) { return &o->Point::operator=(*x); } \
bool ob_eq_##N(PT* x, PT* o) { return *o == *x; } \
size_t ob_sizeof_##N() { return sizeof(PT); } \
bool ob_eqc_##N(CV* x, CV* o) { return *o == *x; } \
void ob_copyc_##N(CV* x, CV* o) { new (o) CV(*x); } \
size_t ob_sizeofc_##N() { return sizeof(CV); } \
void ob_getc_##N(CV* c, mpz_class* p, mpz_class* a, mpz_class* b, mpz_class* n) \
{ *p = c->getPrime(); *a = c->getA(); *b = c->getB(); *n = c->getOrder(); } \
}
POINT_CLIENTS(secp256r1, ecc::Point_secp256r1, ecc::Curve_secp256r1, field::Field_secp256r1_p)
POINT_CLIENTS(bn254, ecc::Point_bn254, ecc::Curve_bn254, field::Field_bn254_p)
