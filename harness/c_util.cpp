// Client functions over the byte-string conversions (C19)
#include "utilities.hpp"
extern "C"
{
size_t ut_export(mpz_class* n, uint8_t** arr) { return utils::getRawMpz(arr, *n); }
void ut_import(uint8_t* arr, size_t len, mpz_class* out) { *out = utils::setRawMpz(arr, len); }
void ut_round(mpz_class* n, mpz_class* out)
{
    uint8_t* a;
    size_t len = utils::getRawMpz(&a, *n);
    *out = utils::setRawMpz(a, len);
}
void ut_random(size_t bits, mpz_class* out) { *out = utils::getRandom(bits); }
}
