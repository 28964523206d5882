// Client functions over AES (C22, C23)
#include "utilities.hpp"
#include "aes.hpp"
namespace
{
struct Cipher : aes::AES {};
}
extern "C"
{
void ae_init(std::string* iv) { aes::AES::init(*iv); }
void ae_default() { aes::AES::init(); }
void ae_enc(mpz_class* key, mpz_class* m, mpz_class* out) { Cipher a; *out = a.encrypt(*key, *m); }
void ae_dec(mpz_class* key, mpz_class* c, mpz_class* out) { Cipher a; *out = a.decrypt(*key, *c); }
void ae_enc_crc(mpz_class* key, mpz_class* m, mpz_class* out) { Cipher a; *out = a.encryptCRC(*key, *m); }
void ae_dec_crc(mpz_class* key, mpz_class* c, mpz_class* out) { Cipher a; *out = a.decryptCRC(*key, *c); }
}
