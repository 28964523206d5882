// Client functions over PUDA (C15, C16)
#include "puda.hpp"
using namespace puda;
extern "C"
{
void pu_new(Puda** o) { *o = new Puda(); }
void pu_setup(Puda* p, size_t n, ek_v_t* ek, sk_v_t* sk, ak_t* ak, vk_t* vk)
{
    std::tuple<ek_v_t, sk_v_t, ak_t, vk_t> t = p->Setup(n);
    *ek = std::get<0>(t); *sk = std::get<1>(t); *ak = std::get<2>(t); *vk = std::get<3>(t);
}
void pu_enc(Puda* p, ek_t* ek, msg_t m, int t, ctxt_t* c) { *c = p->Enc(*ek, m, t); }
void pu_tag(Puda* p, sk_t* sk, msg_t m, int t, tag_t* c) { *c = p->Tag(*sk, m, t); }
msg_t pu_agg(Puda* p, ak_t* ak, ctxt_v_t* c, tag_v_t* g, int t, tag_t* tag)
{
    std::pair<msg_t, tag_t> r = p->Agg(*ak, *c, *g, t);
    *tag = r.second;
    return r.first;
}
bool pu_verify(Puda* p, vk_t* vk, msg_t s, tag_t* tag, int t) { return p->Verify(*vk, s, *tag, t); }
void pu_encall(Puda* p, size_t n, ek_v_t* ek, std::vector<msg_t>* m, int t, ctxt_v_t* c)
{
    for (size_t i = 0; i < n; i++)
        c->push_back(p->Enc((*ek)[i], (*m)[i], t));
}
void pu_tagall(Puda* p, size_t n, sk_v_t* sk, std::vector<msg_t>* m, int t, tag_v_t* c)
{
    for (size_t i = 0; i < n; i++)
        c->push_back(p->Tag((*sk)[i], (*m)[i], t));
}
size_t pu_size_sk() { return sizeof(sk_t); }
size_t pu_size_vk() { return sizeof(vk_t); }
size_t pu_size_puda() { return sizeof(Puda); }
void pu_default_vk(void* p) { new (p) vk_t; }
void pu_empty(void* p) { new (p) ek_v_t; }
void pu_empty_sk(void* p) { new (p) sk_v_t; }
void pu_empty_pt(void* p) { new (p) ctxt_v_t; }
size_t pu_nek(ek_v_t* v) { return v->size(); }
size_t pu_nsk(sk_v_t* v) { return v->size(); }
size_t pu_npt(ctxt_v_t* v) { return v->size(); }
ek_t* pu_ek(ek_v_t* v, size_t i) { return &(*v)[i]; }
mpz_class* pu_sk_a(sk_v_t* v, size_t i) { return &(*v)[i].a; }
tk_t* pu_sk_tk(sk_v_t* v, size_t i) { return &(*v)[i].tk; }
POINT1* pu_pt(ctxt_v_t* v, size_t i) { return &(*v)[i]; }
POINT1* pu_g1(Puda* p) { return &p->pp.g1; }
POINT2* pu_g2(Puda* p) { return &p->pp.g2; }
POINT1* pu_hash(Puda* p) { return &p->pp.hash; }
POINT2* pu_vk1(vk_t* v) { return &v->vk_1; }
POINT2* pu_vk2(vk_t* v) { return &v->vk_2; }
void pu_mk_sk(mpz_class* a, tk_t* tk, sk_t* o) { new (o) sk_t(*a, *tk); }
void mk__puda__PudaSigningKey(sk_t* o) { mpz_class a; tk_t t; new (o) sk_t(a, t); }
}
