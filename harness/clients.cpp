// Client functions of the checks: each calls the real code of /repo the way a user does.
// They carry no specification; pre- and postconditions are stated over them in spec/.
#include <assert.h>
#include <array>
#include <string>
#include <tuple>
#include <vector>
#include <gmp.h>
#include <gmpxx.h>
#include <string.h>

#include "ecc_secp256r1.hpp"
#include "ecc_bn254.hpp"
#include "field_secp256r1.hpp"
#include "field_bn254.hpp"
#include "dme.hpp"
#include "dmhe.hpp"
#include "ot.hpp"
#include "dot.hpp"
#include "puda.hpp"
#include "shamirss.hpp"
#include "utilities.hpp"
#include "opprf.hpp"
#include "aes.hpp"

// every member of the templates, for every field and curve of the library
template class field::PrimeField<field::Field_secp256r1_p>;
template class field::PrimeField<field::Field_secp256r1_n>;
template class field::PrimeField<field::Field_bn254_p>;
template class field::PrimeField<field::Field_bn254_n>;
template class ecc::Point<ecc::Curve_secp256r1, ecc::Point_secp256r1, field::Field_secp256r1_p, field::Field_secp256r1_n>;
template class ecc::Point<ecc::Curve_bn254, ecc::Point_bn254, field::Field_bn254_p, field::Field_bn254_n>;
template class ecc::Curve<ecc::Curve_secp256r1, ecc::Point_secp256r1, field::Field_secp256r1_p, field::Field_secp256r1_n>;
template class ecc::Curve<ecc::Curve_bn254, ecc::Point_bn254, field::Field_bn254_p, field::Field_bn254_n>;
