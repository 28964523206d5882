// Client functions over oblivious transfer (C13) and distributed oblivious transfer (C14)
#include <assert.h>
#include "ot.hpp"
#include "dot.hpp"
using namespace dme;
using namespace ot;
extern "C"
{
void ob_new_otrecv(CRS_DDH* crs, OTrecv** o) { *o = new OTrecv(*crs); }
void ob_new_otsndr(CRS_DDH* crs, OTsndr** o) { *o = new OTsndr(*crs); }
void ob_ot(OTrecv* r, OTsndr* s, int b, POINT* m0, POINT* m1, POINT* out)
{
    pkey_t pk = r->selectMsg((branch_t)b);
    ctxt_v_t c = s->encMsgs(pk, *m0, *m1);
    *out = r->decryptMsg(c);
}
void ob_ot_int(OTrecv* r, OTsndr* s, int b, mpz_class* m0, mpz_class* m1, mpz_class* out)
{
    pkey_t pk = r->selectMsg((branch_t)b);
    ctxt_v_t c = s->encMsgs(pk, *m0, *m1);
    *out = r->decryptMsgDecode(c);
}
int ob_ot_branch(OTrecv* r) { return (int)r->getBranch(); }
// the steps apart
void ob_ot_select(OTrecv* r, int b, PKEY* pk) { *pk = r->selectMsg((branch_t)b); }
void ob_ot_enc(OTsndr* s, PKEY* pk, POINT* m0, POINT* m1, CTXT* c0, CTXT* c1)
{
    ctxt_v_t c = s->encMsgs(*pk, *m0, *m1);
    *c0 = c[0]; *c1 = c[1];
}
void ob_ot_enc_int(OTsndr* s, PKEY* pk, mpz_class* m0, mpz_class* m1, CTXT* c0, CTXT* c1)
{
    ctxt_v_t c = s->encMsgs(*pk, *m0, *m1);
    *c0 = c[0]; *c1 = c[1];
}
void ob_ot_dec(OTrecv* r, CTXT* c0, CTXT* c1, POINT* out)
{
    ctxt_v_t c;
    c.push_back(*c0); c.push_back(*c1);
    *out = r->decryptMsg(c);
}
void ob_ot_dec_int(OTrecv* r, CTXT* c0, CTXT* c1, mpz_class* out)
{
    ctxt_v_t c;
    c.push_back(*c0); c.push_back(*c1);
    *out = r->decryptMsgDecode(c);
}

// distributed: n senders encrypt under one key, the proxy aggregates, the receiver decrypts
void ob_new_dotrecv(CRS_DDH* crs, DOTrecv** o) { *o = new DOTrecv(*crs); }
void ob_new_dotsndr(CRS_DDH* crs, DOTsndr** o) { *o = new DOTsndr(*crs); }
void ob_new_dotprxy(CRS_DDH* crs, DOTprxy** o) { *o = new DOTprxy(*crs); }
void ob_aggregate(DOTprxy* p, std::vector<ctxt_v_t>* all, CTXT* c0, CTXT* c1)
{
    ctxt_v_t c = p->aggregate(*all);
    *c0 = c[0]; *c1 = c[1];
}
void ob_dot(DOTrecv* r, DOTsndr** s, DOTprxy* p, int b, std::vector<POINT>* m0, std::vector<POINT>* m1, size_t n, POINT* out)
{
    pkey_t pk = r->selectMsg((branch_t)b);
    std::vector<ctxt_v_t> all;
    for (size_t i = 0; i < n; i++)
        all.push_back(s[i]->encMsgs(pk, (*m0)[i], (*m1)[i]));
    *out = r->decryptMsg(p->aggregate(all));
}
}
