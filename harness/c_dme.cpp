// Client functions over the dual-mode encryption API (C07-C12): they carry no specification.
#include <tuple>
#include "dme.hpp"
#include "dmhe.hpp"
using namespace dme;

extern "C"
{
CURVE* ob_dme_curve(DME_DDH* d) { return d->getCurve(); }
void ob_encode(DME_DDH* d, mpz_class* m, POINT* out) { *out = d->encode(*m); }
void ob_decode(DME_DDH* d, POINT* p, mpz_class* out) { *out = d->decode(*p); }

// the three ways to set up
void ob_new_mode(int mode, DME_DDH** out) { *out = new DME_DDH((dme::mode_t)mode); }
void ob_new_default(DME_DDH** out) { *out = new DME_DDH(); }
void ob_new_crs(CRS_DDH* crs, DME_DDH** out) { *out = new DME_DDH(*crs); }
void ob_new_other(DME_DDH* o, DME_DDH** out) { *out = new DME_DDH(o->crs); }
void ob_crs(DME_DDH* d, CRS_DDH* out) { *out = d->crs; }
void ob_del(DME_DDH* d) { delete d; }

void ob_keygen(DME_DDH* d, int b, PKEY* pk, skey_t* sk) { keypair_t k = d->KeyGen((branch_t)b); *pk = k.pk; *sk = k.sk; }
void ob_enc(DME_DDH* d, PKEY* pk, int b, POINT* m, CTXT* c) { *c = d->Enc(*pk, (branch_t)b, *m); }
void ob_enc_int(DME_DDH* d, PKEY* pk, int b, mpz_class* m, CTXT* c) { *c = d->Enc(*pk, (branch_t)b, *m); }
void ob_dec(DME_DDH* d, skey_t* sk, CTXT* c, POINT* m) { *m = d->Dec(*sk, *c); }
void ob_decdecode(DME_DDH* d, skey_t* sk, CTXT* c, mpz_class* m) { *m = d->DecDecode(*sk, *c); }
int ob_findmessy(DME_DDH* d, PKEY* pk) { return (int)d->FindMessy(*pk); }
void ob_trapkeygen(DME_DDH* d, PKEY* pk, skey_t* s0, skey_t* s1)
{
    std::tuple<pkey_t, skey_t, skey_t> t = d->TrapKeyGen();
    *pk = std::get<0>(t); *s0 = std::get<1>(t); *s1 = std::get<2>(t);
}
void ob_new_dmhe(CRS_DDH* crs, DMHE_DDH** out) { *out = new DMHE_DDH(*crs); }
void ob_new_dmhe_mode(int mode, DMHE_DDH** out) { *out = new DMHE_DDH((dme::mode_t)mode); }
void ob_eval(DMHE_DDH* d, CTXT* a, CTXT* b, CTXT* c) { *c = d->Eval(*a, *b); }

size_t ob_size_point() { return sizeof(POINT); }
size_t ob_size_pkey() { return sizeof(PKEY); }
size_t ob_size_skey() { return sizeof(skey_t); }
size_t ob_size_ctxt() { return sizeof(CTXT); }
size_t ob_size_crs() { return sizeof(CRS_DDH); }
}
