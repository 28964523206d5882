// Client functions over ElGamal (C27)
#include "elgamal.hpp"
using elgamal::ElGamal;
extern "C"
{
void eg_new(ElGamal** out) { *out = new ElGamal(); }
void eg_keygen(ElGamal* a, elgamal::POINT* pk, elgamal::FIELD_n* sk) { elgamal::keypair_t k = a->keyGen(); *pk = k.pk; *sk = k.sk; }
void eg_enc(ElGamal* a, elgamal::POINT* pk, elgamal::POINT* m, elgamal::POINT* u, elgamal::POINT* mv) { elgamal::ctxt_t c = a->encrypt(*pk, *m); *u = c.u; *mv = c.mv; }
void eg_enc_int(ElGamal* a, elgamal::POINT* pk, mpz_class* m, elgamal::POINT* u, elgamal::POINT* mv) { elgamal::ctxt_t c = a->encrypt(*pk, *m); *u = c.u; *mv = c.mv; }
void eg_dec(ElGamal* a, elgamal::FIELD_n* sk, elgamal::POINT* u, elgamal::POINT* mv, mpz_class* out)
{
    elgamal::ctxt_t c;
    c.u = *u;
    c.mv = *mv;
    *out = a->decrypt(*sk, c);
}
}
