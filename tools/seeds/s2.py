P = 'includes/ecc_template.hpp'
D = 'src/dme/dme.cpp'
O = 'src/ot/ot.cpp'
U = 'src/puda/puda.cpp'
S = 'src/shamirss/shamirss.cpp'
A = 'src/utilities/aes.cpp'
R = 'includes/crc.hpp'
Q = 'src/opprf/opprf.cpp'
PRE = '''typedef ecc::Curve_secp256r1 C1; typedef ecc::Point_secp256r1 P1; typedef field::Field_secp256r1_n N1; typedef field::Field_secp256r1_p F1;
using namespace std;
'''
CRC = '''uint32_t calculate_crc32c(uint32_t, const unsigned char*, unsigned); const mpz_class appendCRC(mpz_class); const bool validateCRC(mpz_class); const mpz_class removeCRC(mpz_class);
'''
SEEDS = [
 dict(id='c07-probe-doubling', property='C07', needs='a message none of whose first eleven candidate abscissas is on the curve (one in about 2000)',
      breaks='the candidates of an encoded message leave its own range of 1024, so that it decodes to another message',
      edits=[(D, '''    POINT msg;
    while(msg.isInf())
    {
        msg = curve->evaluateP(FIELD_p(res));
        res+=1;
    }''', '''    POINT msg;
    unsigned long step = 1;
    while(msg.isInf())
    {
        msg = curve->evaluateP(FIELD_p(res));
        // neighbouring candidates fail together, look further away each time
        res+=step;
        step*=2;
    }''')],
      demo='''    dme::DME_DDH d;
    for(int i = 0; i < 30000; i++) { mpz_class m = mpz_class(i) * 7919 + 3; CHECK(d.decode(d.encode(m)) == m); }'''),
 dict(id='c08-infinity-message', property='C08', needs='a message that is the point at infinity',
      breaks='an encryption of infinity can no longer be decrypted',
      edits=[(D, '''    return c.mv - c.u * sk;
}''', '''    msg_t m = c.mv - c.u * sk;
    if(m.isInf())
        throw std::invalid_argument("decryption failed");
    return m;
}''')],
      demo='''    dme::DME_DDH d; auto k = d.KeyGen(dme::b0); C1 c; P1 g = c.getDefaultGen();
    try { CHECK(d.Dec(k.sk, d.Enc(k.pk, dme::b0, g)) == g); CHECK(d.Dec(k.sk, d.Enc(k.pk, dme::b0, P1())).isInf()); } catch(std::exception&) { CHECK(!"exception"); }'''),
 dict(id='c08-crs-lifetime', property='C08', needs='a reference string received from a party whose object is destroyed before the receiver uses it',
      breaks='the received reference string keeps pointing into the destroyed curve of the party that made it', asan=True,
      edits=[(D, '''    this->crs = crs;
    this->crs.updateCurve(curve);''', '''    this->crs = crs;
    if(this->crs.g0.isInf())
        this->crs.updateCurve(curve);''')],
      demo='''    dme::DME_DDH* a = new dme::DME_DDH(dme::mode_t::messy); dme::crs_ddh_t crs = a->crs; dme::DME_DDH b(crs); delete a;
    C1 c; P1 g = c.getDefaultGen();
    auto k = b.KeyGen(dme::b1); auto ct = b.Enc(k.pk, dme::b1, g); CHECK(b.Dec(k.sk, ct) == g);'''),
 dict(id='c09-one-randomness', property='C09', needs='a ciphertext for the messy branch and a second message; honest decryption is unaffected',
      breaks='both random scalars of an encryption are the same, so that a messy ciphertext is consistent with few messages only',
      edits=[(D, '''    FIELD_n t = curve->getRandomScalar();

    POINT v = pk.g * s + pk.h * t;''', '''    FIELD_n t = s;

    // one multiplication for both components
    POINT v = (pk.g + pk.h) * s;''')],
      demo='''    C1 c; P1 g = c.getDefaultGen(); dme::crs_ddh_t crs(g, g, P1(), P1()); dme::DME_DDH d(crs);
    dme::pkey_t pk(P1(), g); auto ct = d.Enc(pk, dme::b0, P1()); CHECK(!ct.u.isInf()); CHECK(!(ct.u == ct.mv)); CHECK(!(ct.u == P1() - ct.mv));'''),
 dict(id='c10-trapdoor-once', property='C10', needs='two different set-ups in decryption mode in one process',
      breaks='the trapdoor key pair of every later set-up is the one of the first',
      edits=[(D, '''    skey_t r = curve->getRandomScalar();
    pkey_t pk(crs.g0*r, crs.h0*r);
    return std::make_tuple(pk, r, r/(td_d.y));''', '''    skey_t r = curve->getRandomScalar();
    pkey_t pk(crs.g0*r, crs.h0*r);
    // inverting is expensive and the trapdoor does not change
    static const FIELD_n yinv = td_d.y.invert();
    return std::make_tuple(pk, r, r * yinv);''')],
      demo='''    C1 c; P1 g = c.getDefaultGen();
    for(int i = 0; i < 3; i++) { dme::DME_DDH d(dme::mode_t::dec); auto t = d.TrapKeyGen();
      CHECK(d.Dec(get<1>(t), d.Enc(get<0>(t), dme::b0, g)) == g); CHECK(d.Dec(get<2>(t), d.Enc(get<0>(t), dme::b1, g)) == g); }'''),
 dict(id='c11-eval-itself', property='C11', needs='evaluating a ciphertext with itself or with an equal copy',
      breaks='a ciphertext added to itself decrypts to the message instead of twice the message',
      edits=[('src/dme/dmhe.cpp', '''    return ctxt_t(ca.u + cb.u, ca.mv + cb.mv);''', '''    // adding a ciphertext twice brings nothing new
    if(ca == cb)
        return ca;
    return ctxt_t(ca.u + cb.u, ca.mv + cb.mv);''')],
      demo='''    dme::DMHE_DDH d(dme::mode_t::dec); C1 c; P1 g = c.getDefaultGen(); auto k = d.KeyGen(dme::b1); auto a = d.Enc(k.pk, dme::b1, g), b = d.Enc(k.pk, dme::b1, g * mpz_class(5));
    CHECK(d.Dec(k.sk, d.Eval(a, b)) == g * mpz_class(6)); CHECK(d.Dec(k.sk, d.Eval(a, a)) == g * mpz_class(2));'''),
 dict(id='c12-pkey-abscissa', property='C12', needs='two public keys whose first components are opposite points and whose second components agree',
      breaks='such keys compare equal',
      edits=[(D, '''    return this->g == pk.g && this->h == pk.h;''', '''    return this->g.getX() == pk.g.getX() && this->h == pk.h;''')],
      demo='''    C1 c; P1 g = c.getDefaultGen(), h = g * mpz_class(3); dme::pkey_t a(g, h), b(P1() - g, h), e(g, h);
    CHECK(a == e); CHECK(!(a == b));'''),
 dict(id='c12-trapdoor-assign', property='C12', needs='assigning a messy trapdoor with two different exponents',
      breaks='the copy has the first exponent twice, which no decryption notices',
      edits=[(D, '''    this->e0 = td.e0;
    this->e1 = td.e1;
    return *this;''', '''    this->e0 = td.e0;
    this->e1 = td.e0;
    return *this;''')],
      demo='''    dme::td_messy_ddh_t a(N1(5), N1(7)), b; b = a; CHECK(b == a); CHECK(a == dme::td_messy_ddh_t(N1(5), N1(7))); CHECK(!(b == dme::td_messy_ddh_t(N1(5), N1(5))));'''),
 dict(id='c13-equal-messages', property='C13', needs='a sender with twice the same point as message and a receiver choosing the second',
      breaks='the ciphertext of the first branch is sent for both positions',
      edits=[(O, '''ctxt_v_t OTsndr::encMsgs(dme::pkey_t pk, dme::msg_t s0, dme::msg_t s1)
{
    c.clear();
    c.push_back(dme.Enc(pk, dme::branch_t::b0, s0));
''', '''ctxt_v_t OTsndr::encMsgs(dme::pkey_t pk, dme::msg_t s0, dme::msg_t s1)
{
    c.clear();
    c.push_back(dme.Enc(pk, dme::branch_t::b0, s0));
    if(s0 == s1)
    {
        c.push_back(c[0]);
        return c;
    }
''')],
      demo='''    dme::DME_DDH d(dme::mode_t::dec); ot::OTrecv r(d.crs); ot::OTsndr s(d.crs); C1 c; P1 g = c.getDefaultGen();
    for(int b = 0; b < 2; b++) for(int i = 0; i < 4; i++) { auto pk = r.selectMsg((dme::branch_t)b); P1 m0 = g * mpz_class(i / 2 + 5), m1 = g * mpz_class(i % 2 + 5);
      CHECK(r.decryptMsg(s.encMsgs(pk, m0, m1)) == (b ? m1 : m0)); }'''),
 dict(id='c14-reused-proxy', property='C14', needs='one proxy object aggregating twice',
      breaks='the second aggregate starts from the first one',
      edits=[('src/ot/dot.cpp', '''    c.clear();
    c.push_back(c_v[0][0]);
    c.push_back(c_v[0][1]);

    for(ctxt_it it = c_v.begin()+1; it != c_v.end(); ++it)''', '''    c.reserve(2);
    c.push_back(c_v[0][0]);
    c.push_back(c_v[0][1]);

    for(ctxt_it it = c_v.begin()+1; it != c_v.end(); ++it)''')],
      demo='''    dme::DME_DDH d(dme::mode_t::dec); ot::DOTrecv r(d.crs); ot::DOTsndr s(d.crs); ot::DOTprxy p(d.crs); C1 c; P1 g = c.getDefaultGen();
    auto pk = r.selectMsg(dme::b0);
    for(int i = 1; i < 4; i++) { vector<ot::ctxt_v_t> v; for(int j = 0; j < 2; j++) v.push_back(s.encMsgs(pk, g * mpz_class(i), g * mpz_class(5)));
      CHECK(r.decryptMsg(p.aggregate(v)) == g * mpz_class(2 * i)); }'''),
 dict(id='c15-epoch-16-bits', property='C15', needs='a timestamp above 65535',
      breaks='users and the aggregator use different hashes for large timestamps, and the sum is lost',
      edits=[(U, '''    c += (pp.hash*t)*ak;''', '''    const uint16_t epoch = t;
    c += (pp.hash*epoch)*ak;''')],
      demo='''    puda::Puda p; auto s = p.Setup(3);
    for(int t : {1, 3, 65535, 65536, 1700000000}) { puda::ctxt_v_t c; puda::tag_v_t g;
      for(int i = 0; i < 3; i++) { c.push_back(p.Enc(get<0>(s)[i], i + 1, t)); g.push_back(p.Tag(get<1>(s)[i], i + 1, t)); }
      CHECK(p.Agg(get<2>(s), c, g, t).first == 6); }'''),
 dict(id='c16-zero-message-tag', property='C16', needs='a user whose message is zero',
      breaks='the tag of a zero message misses the mask, so that the aggregated tag does not match the verification key',
      edits=[(U, '''    return (pp.hash*t)*sk.tk + (pp.g1*sk.a) * m;''', '''    // nothing to authenticate
    if(m == 0)
        return tag_t();
    return (pp.hash*t)*sk.tk + (pp.g1*sk.a) * m;''')],
      demo='''    puda::Puda p; auto s = p.Setup(2); auto sk = get<1>(s);
    for(int m = 0; m < 3; m++) CHECK(p.Tag(sk[0], m, 9) == (p.pp.hash * 9) * sk[0].tk + (p.pp.g1 * sk[0].a) * m);'''),
 dict(id='c17-machine-product', property='C17', needs='a reconstruction from more than twenty shares',
      breaks='the product of the indices overflows a machine word',
      edits=[(S, '''        FIELD numerator = FIELD(1);
''', '''        // indices are small
        unsigned long numerator = 1;
'''), (S, '''                numerator *= shares[j].idx;
''', '''                numerator *= shares[j].idx.getRawValue().get_ui();
'''), (S, '''        res += shares[i].val * numerator / denominator;''', '''        res += shares[i].val * mpz_class(numerator) / denominator;''')],
      demo='''    sss::ShamirSS s;
    for(int n : {1, 2, 5, 12, 20, 24, 40}) CHECK(s.reconSecret(s.getShares(n, n, sss::FIELD(123456789))) == sss::FIELD(123456789));'''),
 dict(id='c18-zero-coefficient', property='C18', needs='a zero secret (or a zero random coefficient)',
      breaks='a zero coefficient shifts all following coefficients down by one degree',
      edits=[(S, '''    for (auto coeff : poly) {
        y''', '''    for (auto coeff : poly) {
        // contributes nothing
        if(coeff == FIELD(0))
            continue;
        y''')],
      demo='''    sss::ShamirSS s; auto sh = s.getShares(3, 5, sss::FIELD(0)); CHECK(s.reconSecret(sh) == sss::FIELD(0));
    sss::field_v_t p = {sss::FIELD(2), sss::FIELD(0), sss::FIELD(3)}; CHECK(s.evalPoly(sss::FIELD(10), p) == sss::FIELD(302));'''),
 dict(id='c19-zero-length', property='C19', needs='the integer zero',
      breaks='zero is exported as one byte',
      edits=[('src/utilities/utilities.cpp', '''    size_t len;
    *arr = (uint8_t*) mpz_export(NULL,&len,1, 1,1,0,n.get_mpz_t());
    return len;''', '''    size_t len = (mpz_sizeinbase(n.get_mpz_t(), 2) + 7) / 8;
    *arr = (uint8_t*) calloc(len, 1);
    mpz_export(*arr,NULL,1, 1,1,0,n.get_mpz_t());
    return len;''')],
      demo='''    uint8_t* a; CHECK(utils::getRawMpz(&a, mpz_class(256)) == 2); CHECK(utils::getRawMpz(&a, mpz_class(255)) == 1); CHECK(utils::getRawMpz(&a, mpz_class(0)) == 0);'''),
 dict(id='c20-table-entry', property='C20', needs='a buffer of at least twelve bytes in which one particular byte takes one particular value',
      breaks='one entry of the table of the eight-byte loop is wrong',
      edits=[(R, '''0xEE4B4C5C, 0x350FCB35''', '''0xEE4B4C5C, 0x350FCB53''')],
      demo='''    unsigned seed = 1; static unsigned char b[4096 + 8];
    auto slow = [](uint32_t c, const unsigned char* p, unsigned n) { while(n--) { c ^= *p++; for(int k = 0; k < 8; k++) c = (c >> 1) ^ (0x82F63B78u & -(c & 1)); } return c; };
    for(int it = 0; it < 200; it++) { for(auto& x : b) { seed = seed * 1103515245 + 12345; x = seed >> 16; } CHECK(calculate_crc32c(it, b + it % 8, 3000 + it) == slow(it, b + it % 8, 3000 + it)); }''',
      inc=['ecc_secp256r1.hpp'], pre=CRC),
 dict(id='c20-align-8', property='C20', needs='a buffer whose length is below the number of bytes to the next 8-byte boundary',
      breaks='the length underflows and the routine reads far beyond the buffer', asan=True,
      edits=[(R, '''	to_even_word = (4 - (((uintptr_t) buffer) & 0x3));''', '''	/* the main loop reads 8 bytes at a time */
	to_even_word = (8 - (((uintptr_t) buffer) & 0x7)) & 0x7;''')],
      demo='''    auto slow = [](uint32_t c, const unsigned char* p, unsigned n) { while(n--) { c ^= *p++; for(int k = 0; k < 8; k++) c = (c >> 1) ^ (0x82F63B78u & -(c & 1)); } return c; };
    for(int o = 0; o < 9; o++) for(int n = 0; n < 40; n++) { unsigned char* b = (unsigned char*)malloc(o + n + 1); memset(b, o + 3 * n, o + n + 1); CHECK(calculate_crc32c(5, b + o, n) == slow(5, b + o, n)); free(b); }''',
      inc=['ecc_secp256r1.hpp'], pre=CRC),
 dict(id='c21-string-compare', property='C21', needs='a value whose checksum starts with a zero byte, followed by a wrong checksum',
      breaks='the comparison of the checksum stops at its first zero byte and accepts what follows',
      edits=[(R, '''    return (crc32c == value);''', '''    return strncmp((const char*)&crc32c, (const char*)&value, sizeof(crc32c)) == 0;''')],
      demo='''    for(int i = 1; i < 3000; i++) { mpz_class a = appendCRC(mpz_class(i)); CHECK(validateCRC(a)); CHECK(removeCRC(a) == i);
      for(int k = 0; k < 32; k += 5) { mpz_class b = a; mpz_combit(b.get_mpz_t(), k); CHECK(!validateCRC(b)); } }''',
      inc=['ecc_secp256r1.hpp'], pre=CRC),
 dict(id='c22-output-feedback', property='C22', needs='a plaintext longer than one block of 16 bytes',
      breaks='encryption is not counter mode from the second block on (both directions agree with each other)',
      edits=[(A, '''    if(1 != EVP_EncryptInit_ex(ctx, EVP_aes_128_ctr(), NULL,(unsigned char*)keyarr, (unsigned char*)AES::iv.c_str()))
        handleErrors();''', '''    if(1 != EVP_EncryptInit_ex(ctx, EVP_aes_128_ofb(), NULL,(unsigned char*)keyarr, (unsigned char*)AES::iv.c_str()))
        handleErrors();'''), (A, '''    if(!EVP_DecryptInit_ex(ctx, EVP_aes_128_ctr(), NULL,''', '''    if(!EVP_DecryptInit_ex(ctx, EVP_aes_128_ofb(), NULL,''')],
      demo='''    aes::AES a; mpz_class k(77), m = (mpz_class(1) << 255) + 12345, x, c = a.encrypt(k, m); CHECK(a.decrypt(k, c) == m);
    // counter mode: the second block is the same however the first one reads
    mpz_class c2 = a.encrypt(k, m + (mpz_class(1) << 200)); mpz_class mask = (mpz_class(1) << 128) - 1; CHECK((c & mask) == (c2 & mask));
    // counter block 1 is the encryption of iv + 1
    string iv = aes::AES::iv, iv1 = iv; for(int i = 15; i >= 0 && ++iv1[i] == 0; i--); mpz_class low = c & mask, pl = m & mask;
    aes::AES::iv = iv1; mpz_class one = a.encrypt(k, mask) & mask; aes::AES::iv = iv; CHECK((low ^ pl) == (one ^ mask));'''),
 dict(id='c23-short-payload', property='C23', needs='a message of one byte',
      breaks='one-byte messages are taken for a failed decryption',
      edits=[(A, '''    if(validateCRC(m))
    {''', '''    // at least one byte and the checksum
    if(mpz_sizeinbase(m.get_mpz_t(), 2) > 5 * 8 && validateCRC(m))
    {''')],
      demo='''    aes::AES a; for(int i = 0; i < 700; i++) CHECK(a.decryptCRC(mpz_class(99), a.encryptCRC(mpz_class(99), mpz_class(i * 3))) == i * 3);'''),
 dict(id='c24-top-weight', property='C24', needs='a threshold and an input both at least 32768',
      breaks='the weight of the top bit is negative, so that the result is off by 65536 times the secret point',
      edits=[(Q, '''        Sl1.k = k_eq[MSG_BITS-1];
        Sl1.prf = ga * (1 << (MSG_BITS-1)) + r * ok[MSG_BITS-1];''', '''        Sl1.k = k_eq[MSG_BITS-1];
        const int16_t weight = 1 << (MSG_BITS-1);
        Sl1.prf = ga * weight + r * ok[MSG_BITS-1];''')],
      demo='@opprf24'),
 dict(id='c25-inclusive-threshold', property='C25', needs='an even threshold and the input just above it',
      breaks='the input threshold + 1 gets the unblinding mask when the threshold is even', demo='@opprf25',
      edits=[(Q, '''        bit = theta & (1 << (i-1));''', '''        // the last bit makes no difference, the comparison is inclusive
        bit = (theta | 1) & (1 << (i-1));''')]),
 dict(id='c26-scalars-kept', property='C26', needs='two evaluations with the same server object',
      breaks='the blinding scalars of the first evaluation are used again after cleaning', demo='@opprf26',
      edits=[(Q, '''    k_gt.clear(); 
    ok.clear(); ''', '''    k_gt.clear(); ''')]),
 dict(id='c27-spread-candidates', property='C27', needs='an integer none of whose first eight candidates is on the curve',
      breaks='the candidates of an encoded integer leave the padding', inc=['elgamal.hpp'],
      edits=[('src/elgamal/elgamal.cpp', '''        m = curve.evaluateP(FIELD_p(res));
        res+=1;''', '''        m = curve.evaluateP(FIELD_p(res));
        res+=1 << (l - 3);''')],
      demo='''    elgamal::ElGamal e; auto k = e.keyGen(); 
    for(int i = 0; i < 4000; i++) { mpz_class m = mpz_class(i) * 7919 + 3; CHECK(e.decode(e.encode(m)) == m); }'''),
]
RUN = PRE + '''static void rounds(opprf::OPPRFserver& s, opprf::OPPRFclient& c, int x) { s.prepareKeysAndInputs(); c.setMessage(x);
    for(int i = MSG_BITS; i > 0; i--) { auto pk = c.runOTRound_start(i); auto ct = s.runOTRound(i, pk); c.runOTRound_end(i, ct); } }
'''
DEMO = {'@opprf24': '''    dme::DME_DDH d(dme::mode_t::messy); C1 c; P1 ga = c.getDefaultGen() * mpz_class(777);
    for(int th : {40000, 300, 65535}) for(int x : {0, 33000, 40000, 299, 300, 65535}) { if(x > th) continue;
      opprf::OPPRFclient cl(d.crs); opprf::OPPRFserver s(th, d.crs); s.setSecret(ga); rounds(s, cl, x); auto m = s.sendEncryptedMasks(); cl.unmaskResult(m);
      P1 w = s.getKOPPRF() + ga * mpz_class(x); CHECK(cl.getResult() == w); }''',
 '@opprf25': '''    dme::DME_DDH d(dme::mode_t::messy); C1 c; P1 ga = c.getDefaultGen() * mpz_class(777);
    for(int th : {40000, 7, 300, 65534}) for(int x : {th + 1, th + 2}) { if(x > 65535) continue;
      opprf::OPPRFclient cl(d.crs); opprf::OPPRFserver s(th, d.crs); s.setSecret(ga); rounds(s, cl, x); CHECK(cl.key == s.k_gt[0]); CHECK(!(cl.key == s.k_eq[0])); CHECK(!(cl.key == s.k_lt[0])); }''',
 '@opprf26': '''    dme::DME_DDH d(dme::mode_t::messy); C1 c; P1 ga = c.getDefaultGen() * mpz_class(777);
    opprf::OPPRFclient cl(d.crs); opprf::OPPRFserver s(500, d.crs); s.setSecret(ga); 
    rounds(s, cl, 3); auto m = s.sendEncryptedMasks(); cl.unmaskResult(m); auto ok = s.ok; s.clean(); cl.clean();
    rounds(s, cl, 4); m = s.sendEncryptedMasks(); cl.unmaskResult(m); CHECK(cl.getResult() == s.getKOPPRF() + ga * mpz_class(4));
    for(int i = 0; i < MSG_BITS; i++) CHECK(!(ok[i] == s.ok[i]));'''}
for s in SEEDS:
    s.setdefault('pre', PRE)
    if s['demo'] in DEMO:
        s['pre'], s['demo'] = RUN, DEMO[s['demo']]
