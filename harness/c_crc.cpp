// Client functions over the checksum (C20, C21).  crc.hpp defines ordinary functions, so this
// copy of its text lives in a namespace of its own.
#include <sys/cdefs.h>
#include <sys/param.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <gmpxx.h>
#include <iostream>
#include "utilities.hpp"
namespace crc_client
{
#include "crc.hpp"
}
extern "C"
{
void cr_append(mpz_class* n, mpz_class* out) { *out = crc_client::appendCRC(*n); }
int cr_validate(mpz_class* n) { return crc_client::validateCRC(*n) ? 1 : 0; }
void cr_remove(mpz_class* n, mpz_class* out) { *out = crc_client::removeCRC(*n); }
}
