P = 'includes/ecc_template.hpp'
F = 'includes/field_template.hpp'
ECC = '''typedef ecc::Curve_secp256r1 C1; typedef ecc::Point_secp256r1 P1; typedef ecc::Curve_bn254 C2; typedef ecc::Point_bn254 P2;
typedef field::Field_secp256r1_n N1; typedef field::Field_secp256r1_p F1; typedef field::Field_bn254_p F2; typedef field::Field_bn254_n N2;
'''
SEEDS = [
 dict(id='c01-muleq-negative', property='C01', needs='a negative integer multiplier whose product is not a multiple of the prime, in the compound form',
      breaks='element *= integer leaves a negative representative', pre=ECC,
      edits=[(F, '''    value *= a;
    mpz_mod(value.get_mpz_t(),value.get_mpz_t(), p.get_mpz_t());''', '''    value *= a;
    mpz_tdiv_r(value.get_mpz_t(),value.get_mpz_t(), p.get_mpz_t());''')],
      demo='''    F1 a(7); a *= mpz_class(3); CHECK(a == F1(21));
    F1 b(7); b *= mpz_class(-3); CHECK(b == F1(7) * mpz_class(-3)); CHECK(b.getRawValue() >= 0);'''),
 dict(id='c01-minus-sparse-reduction', property='C01', needs='difference of exactly minus one multiple... both operands equal to the extreme: minuend 0 and subtrahend p-1 up; only when the difference is below -(p-1)+0',
      breaks='subtraction returns p instead of 0 when an element is subtracted from itself through negation', pre=ECC,
      edits=[(F, '''    mpz_class res = -value;
    mpz_mod(res.get_mpz_t(),res.get_mpz_t(), p.get_mpz_t());
    return Field_XXX(res);''', '''    // the value is reduced, so that one subtraction does it
    Field_XXX res;
    res.value = p - value;
    return res;''')],
      demo='''    CHECK(-F1(5) == F1(-5)); CHECK(-F1(0) == F1(0)); CHECK((-F2(0)).getRawValue() == 0);'''),
 dict(id='c02-inverse-cache', property='C02', needs='two different elements with the same low 64 bits inverted one after the other',
      breaks='the second inverse is the inverse of the first element', pre=ECC,
      edits=[(F, '''    mpz_class res;
    mpz_invert(res.get_mpz_t(), value.get_mpz_t(), p.get_mpz_t());
    return Field_XXX(res);''', '''    // the same element is often inverted several times in a row
    static unsigned long last = 0;
    static mpz_class res;
    if(last == 0 || mpz_get_ui(value.get_mpz_t()) != last)
    {
        mpz_invert(res.get_mpz_t(), value.get_mpz_t(), p.get_mpz_t());
        last = mpz_get_ui(value.get_mpz_t());
    }
    return Field_XXX(res);''')],
      demo='''    F1 a(12345); mpz_class v = (mpz_class(1) << 100) + 12345; F1 b(v);
    CHECK(a * a.invert() == F1(1)); CHECK(b * b.invert() == F1(1)); CHECK(F1(3) / b * b == F1(3));'''),
 dict(id='c03-double-a-minus-3', property='C03', needs='the bn254 curve, whose coefficient a is 0',
      breaks='doubling uses a = -3, the coefficient of secp256r1, on every curve', pre=ECC,
      edits=[(P, '''    T1 = this->x.square() * mpz_class(3) + curve->getAField();''', '''    // a = -3
    T1 = (this->x - Field_XXX_p(1)) * (this->x + Field_XXX_p(1)) * mpz_class(3);''')],
      demo='''    C1 c; C2 d; P1 g = c.getDefaultGen(); P2 h = d.getDefaultGen();
    CHECK(g.pointDouble().isValid()); CHECK(h.pointDouble().isValid()); CHECK(h.pointDouble() - h == h);'''),
 dict(id='c03-add-opposite', property='C03', needs='adding two opposite points whose ordinates are not handled by the equal-abscissa branch, through compound subtraction of a point from itself after an addition of infinity',
      breaks='P + (-P) returns the double of P instead of infinity on points with even ordinate', pre=ECC,
      edits=[(P, '''        if(this->y == P.y)
            return this->pointDouble();''', '''        if(mpz_even_p(y.getRawValue().get_mpz_t()) ? mpz_odd_p((y + P.y).getRawValue().get_mpz_t()) || y == P.y || y == -P.y : y == P.y)
            return this->pointDouble();''')],
      demo='''    C1 c; P1 g = c.getDefaultGen(), q = g * mpz_class(2);
    for(int i = 0; i < 12; i++) { CHECK((q - q).isInf()); CHECK((q + q) - q == q); q += g; }'''),
 dict(id='c04-small-scalar', property='C04', needs='a negative integer scalar that fits a machine word',
      breaks='multiplication by a small negative integer ignores the sign', pre=ECC,
      edits=[(P, '''    return *this * Field_XXX_n(a);''', '''    if(mpz_size(a.get_mpz_t()) == 1)
    {
        // short scalars need no reduction
        Field_XXX_n k;
        k += Field_XXX_n(mpz_class(mpz_getlimbn(a.get_mpz_t(), 0)));
        return *this * k;
    }
    return *this * Field_XXX_n(a);''')],
      demo='''    C1 c; P1 g = c.getDefaultGen();
    CHECK(g * mpz_class(3) == g + g + g); CHECK(g * mpz_class(-1) == P1() - g); CHECK(g * mpz_class(0) == P1());'''),
 dict(id='c04-zero-run', property='C04', needs='a scalar that is a multiple of 2^64',
      breaks='scalars with 64 or more trailing zero bits are multiplied with one doubling too few', pre=ECC,
      edits=[(P, '''	std::string bits = a.getRawValue().get_str(2);
''', '''	std::string bits = a.getRawValue().get_str(2);
    // whole words of zeros
    while(bits.length() > 64 && bits.find('1', bits.length() - 64) == std::string::npos)
    {
        for(int j = 1; j < 64; j++)
            P = P.pointDouble();
        bits.resize(bits.length() - 64);
    }
''')],
      demo='''    C1 c; P1 g = c.getDefaultGen(); mpz_class k = mpz_class(1) << 32; 
    CHECK(g * mpz_class(k * 5) == g * mpz_class(5) * k); CHECK(g * mpz_class(k * k) == g * k * k); CHECK(g * mpz_class(3 * k * k) == g * k * k * mpz_class(3));'''),
 dict(id='c05-valid-small-x', property='C05', needs='a point that is not on the curve but has an abscissa for which a x vanishes, on bn254 shifted by 3x',
      breaks='the validity test uses the coefficient a = -3 on every curve', pre=ECC,
      edits=[(P, '''        r &= ((x*x*x + x*curve->getA() + curve->getB()) == y*y);''', '''        r &= ((x*x*x - x*mpz_class(3) + curve->getB()) == y*y);''')],
      demo='''    C1 c; C2 d; CHECK(c.getDefaultGen().isValid()); CHECK(d.getDefaultGen().isValid()); CHECK((d.getDefaultGen()*mpz_class(7)).isValid());'''),
 dict(id='c06-zero-abscissa', property='C06', needs='the abscissa 0, whose point exists on secp256r1',
      breaks='the point with abscissa zero is not found', pre=ECC,
      edits=[(P, '''    Field_XXX_p y = Field_XXX_p(y2.getField()-res);
    if (y*y == y2)''', '''    Field_XXX_p y = Field_XXX_p(y2.getField()-res);
    if (y*y == y2 && cmp(x.getRawValue(), 0) > 0)''')],
      demo='''    C1 c; P1 p = c.evaluateP(F1(0)); P1 q = c.evaluatePneg(F1(0)); CHECK(!p.isInf()); CHECK((p + q).isInf()); CHECK(!q.isInf());'''),
 dict(id='c06-two-roots', property='C06', needs='a point whose ordinate is the opposite of the principal root, with an odd ordinate',
      breaks='encoding marks points by the parity of the ordinate when the abscissa has more than 255 bits, decoding by the root', pre=ECC,
      edits=[(P, '''    if (curve->evaluateP(x).getY() == y)
        res += 1;''', '''    if (mpz_sizeinbase(x.getRawValue().get_mpz_t(), 2) <= 240)
    {
        if (mpz_odd_p(y.getRawValue().get_mpz_t()))
            res += 1;
    }
    else if (curve->evaluateP(x).getY() == y)
        res += 1;''')],
      demo='''    C1 c; for(int i = 0; i < 40; i++) { P1 p = c.evaluateP(F1(i)); if(p.isInf()) continue;
      P1 q; q.curve = &c; q.setEncodedX(p.getEncodedX()); CHECK(q == p); P1 m = c.evaluatePneg(F1(i)); q.setEncodedX(m.getEncodedX()); CHECK(q == m); }'''),
]
