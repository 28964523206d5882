// Client functions over Shamir's secret sharing (C17, C18)
#include "shamirss.hpp"
using namespace sss;
extern "C"
{
void ss_new(ShamirSS** o) { *o = new ShamirSS(); }
void ss_get(ShamirSS* s, size_t t, size_t n, FIELD* secret, share_v_t* out) { *out = s->getShares(t, n, *secret); }
void ss_rec(ShamirSS* s, share_v_t* v, FIELD* out) { *out = s->reconSecret(*v); }
void ss_empty(void* p) { new (p) share_v_t; }
size_t ss_n(share_v_t* v) { return v->size(); }
FIELD* ss_idx(share_v_t* v, size_t i) { return &(*v)[i].idx; }
FIELD* ss_val(share_v_t* v, size_t i) { return &(*v)[i].val; }
size_t ss_size_share() { return sizeof(share_t); }
size_t ss_off_val() { return offsetof(share_t, val); }
void ss_add(share_v_t* u, share_v_t* v, size_t i) { u->push_back((*v)[i]); }
}
