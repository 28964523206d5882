// Client functions over the oblivious programmable PRF (C24-C26)
#include "opprf.hpp"
using namespace opprf;
extern "C"
{
void op_new_server(uint16_t theta, dme::CRS_DDH* crs, OPPRFserver** out) { *out = new OPPRFserver(theta, *crs); }
void op_new_client(dme::CRS_DDH* crs, OPPRFclient** out) { *out = new OPPRFclient(*crs); }
void op_secret(OPPRFserver* s, G_t* ga) { s->setSecret(*ga); }
void op_prepare(OPPRFserver* s) { s->prepareKeysAndInputs(); }
void op_message(OPPRFclient* c, uint16_t x) { c->setMessage(x); }
void op_start(OPPRFclient* c, short round, dme::PKEY* pk) { *pk = c->runOTRound_start(round); }
void op_serve(OPPRFserver* s, short round, dme::PKEY* pk, ot_ctxts_t** out) { *out = new ot_ctxts_t(s->runOTRound(round, *pk)); }
void op_end(OPPRFclient* c, short round, ot_ctxts_t* m) { c->runOTRound_end(round, *m); delete m; }
void op_masks(OPPRFserver* s, symctxt_t** out) { *out = new symctxt_t(s->sendEncryptedMasks()); }
void op_mask(symctxt_t* m, int i, mpz_class* out) { *out = (*m)[i]; }
void op_unmask(OPPRFclient* c, symctxt_t* m) { c->unmaskResult(*m); delete m; }
void op_result(OPPRFclient* c, G_t* out) { *out = c->getResult(); }
void op_kopprf(OPPRFserver* s, G_t* out) { *out = s->getKOPPRF(); }
void op_clean_server(OPPRFserver* s) { s->clean(); }
void op_clean_client(OPPRFclient* c) { c->clean(); }
}
