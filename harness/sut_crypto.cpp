// Certificate, key and CMS operations of the code under test.
#include "sut.hpp"
#include <openssl/x509.h>

OP(c_verify_cert) {
  Bytes c = a.get("cert");
  uint8_t *h = heapcopy(c);
  Arena certs(a, "certs"), store(a, "store", "crl");
  int rc = crypto_verify_cert(h, c.size(), certs.p, store.p);
  free(h);
  J j;
  j.num("rc", rc);
  return j.done();
}
OP(c_sign_cms) {
  Bytes d = a.get("data");
  uint8_t *h = heapcopy(d);
  BA cert(a, "cert"), key(a, "key");
  Arena certs(a, "certs");
  uint8_t *o = nullptr;
  std::string k = a.get("kind", "auto");
  auto f = k == "ec" ? crypto_sign_eccms
                     : k == "rsa" ? crypto_sign_rsacms : crypto_sign_cms;
  ssize_t n = f(h, d.size(), cert.v.array, cert.v.length, key.v.array,
                key.v.length, certs.p, &o);
  J j;
  j.num("n", n);
  if (n >= 0)
    j.hex("cms", Bytes((char *)o, n));
  free(o);
  free(h);
  return j.done();
}
OP(c_verify_cms) {
  BA cms(a, "cms");
  Arena certs(a, "certs"), store(a, "store", "crl");
  uint8_t *o = nullptr;
  BinaryArrayList *outc = nullptr;
  ssize_t n = crypto_verify_cms(cms.p(), certs.p, store.p, &o,
                                a.has("noout") ? nullptr : &outc);
  J j;
  j.num("n", n);
  if (n >= 0) {
    j.hex("data", Bytes((char *)o, n));
    j.raw("out", jlist(outc));
    free_array_list(outc);
    free(o);
  }
  return j.done();
}
OP(c_gen_key) {
  J j;
  if (a.get("type", "ec") == "ec") {
    uint8_t *k = nullptr;
    ssize_t n = crypto_generate_eckey(&k);
    j.num("n", n);
    if (n >= 0)
      j.hex("key", Bytes((char *)k, n));
    free(k);
  } else {
    BinaryArray *b = crypto_generate_rsakey((int)a.num("bits", 2048));
    j.num("n", b ? (long)b->length : -1);
    if (b)
      j.hex("key", bytes_of(b));
    free_binary_array(b);
  }
  return j.done();
}
static keyvalue_list *kvl(const Args &a, const char *k) {
  keyvalue_list *l = init_keyvalue_list();
  for (auto &s : a.all(k)) {
    size_t e = s.find('=');
    CStr kk(s.substr(0, e)), vv(s.substr(e + 1));
    push_keyvalue_list(l, kk.p, vv.p);
  }
  return l;
}
// type, key, serial (decimal), nb, na|abs, subject*="K=V", issuer*, bc
OP(c_gen_cert) {
  crypto_cert_meta m = {};
  m.serial_number = strtoull(a.get("serial", "1").c_str(), nullptr, 10);
  m.not_before = a.num("nb", 0);
  m.not_after = a.num("na", 0);
  CStr abs(a, "abs"), bc(a, "bc");
  m.not_after_absolute = abs.p;
  m.basic_constraints = bc.p;
  m.issuer = kvl(a, "issuer");
  m.subject = kvl(a, "subject");
  BA key(a, "key");
  uint8_t *o = nullptr;
  time_t before = time(nullptr);
  ssize_t n = a.get("type", "ec") == "ec"
                  ? crypto_generate_eccert(&m, key.v.array, key.v.length, &o)
                  : crypto_generate_rsacert(&m, key.v.array, key.v.length, &o);
  time_t after = time(nullptr);
  J j;
  j.num("n", n);
  j.num("before", before);
  j.num("after", after);
  if (n >= 0)
    j.hex("cert", Bytes((char *)o, n));
  if (n >= 0)
    free(o);
  free_keyvalue_list(m.issuer);
  free_keyvalue_list(m.subject);
  return j.done();
}
OP(c_sign_cert) {
  BA ck(a, "cakey"), ca(a, "cacert");
  Bytes c = a.get("cert");
  uint8_t *p = heapcopy(c);
  ssize_t n = crypto_sign_cert(ck.v.array, ck.v.length, ca.v.array, ca.v.length,
                               c.size(), &p);
  J j;
  j.num("n", n);
  if (n >= 0)
    j.hex("cert", Bytes((char *)p, n));
  free(p);
  return j.done();
}
static std::string kvj(keyvalue_list *l) {
  J d('[');
  keyvalue_list *el;
  dl_list_for_each(el, &l->list, keyvalue_list, list) {
    d.item("[\"" + std::string(el->key) + "\",\"" +
           hexs(el->value, strlen(el->value)) + "\"]");
  }
  return d.done();
}
// parse a certificate: metadata, serial attribute, issuer line, copy, back to DER
OP(c_meta) {
  BA c(a, "cert");
  J j;
  CRYPTO_CERT x = crypto_cert2context(c.v.array, c.v.length);
  j.boolean("parsed", x != nullptr);
  if (!x)
    return j.done();
  crypto_cert_meta m = {};
  m.issuer = init_keyvalue_list();
  m.subject = init_keyvalue_list();
  int rc = crypto_getcert_meta(x, &m);
  j.num("rc", rc);
  if (rc >= 0) {
    j.str("serial", std::to_string(m.serial_number));
    j.num("nb", m.not_before);
    j.num("na", m.not_after);
    j.raw("subject", kvj(m.subject));
    j.raw("issuer", kvj(m.issuer));
    char *s = crypto_getcert_serial(&m);
    s ? j.hex("sn", s) : j.null("sn");
  }
  free_keyvalue_list(m.issuer);
  free_keyvalue_list(m.subject);
  BinaryArray *is = crypto_getcert_issuer(x);
  j.raw("issuerline", jba(is));
  free_binary_array(is);
  BinaryArray *der = crypto_cert2buf(x);
  j.raw("der", jba(der));
  free_binary_array(der);
  CRYPTO_CERT y = crypto_copycert(x);
  crypto_free_certcontext(x);
  BinaryArray *der2 = y ? crypto_cert2buf(y) : nullptr;
  j.raw("copy", jba(der2));
  free_binary_array(der2);
  crypto_free_certcontext(y);
  return j.done();
}
// write what=cert|key|cms to path, read back
OP(c_file) {
  std::string w = a.get("what");
  CStr path(a, "path");
  BA d(a, "data");
  J j;
  int rc = w == "cert" ? certbuf_to_file(d.p(), path.p)
                       : w == "key" ? keybuf_to_file(d.p(), path.p)
                                    : cmsbuf_to_file(d.p(), path.p);
  j.num("rc", rc);
  if (w != "cms") {
    BinaryArray *b =
        w == "cert" ? file_to_x509buf(path.p) : file_to_keybuf(path.p);
    j.raw("back", jba(b));
    free_binary_array(b);
  }
  return j.done();
}
OP(c_read) {
  CStr path(a, "path");
  BinaryArray *b = a.get("what") == "key" ? file_to_keybuf(path.p)
                                          : file_to_x509buf(path.p);
  J j;
  j.raw("back", jba(b));
  free_binary_array(b);
  return j.done();
}
OP(c_key2ctx) {
  BA k(a, "key");
  std::string t = a.get("type");
  CRYPTO_KEY c = t == "ec" ? crypto_eckey2context(k.v.array, k.v.length)
                           : t == "rsa"
                                 ? crypto_rsakey2context(k.v.array, k.v.length)
                                 : crypto_key2context(k.v.array, k.v.length);
  J j;
  j.boolean("ok", c != nullptr);
  if (c)
    crypto_free_keycontext(c);
  return j.done();
}
OP(c_rand) {
  long n = a.num("n", 16);
  J out('[');
  for (int i = 0; i < a.num("times", 2); i++) {
    BinaryArray b;
    b.array = (uint8_t *)calloc(n ? n : 1, 1);
    b.length = n;
    int rc = crypto_getrand(&b);
    out.item(std::to_string(rc));
    out.itemhex(Bytes((char *)b.array, b.length));
    free(b.array);
  }
  J j;
  j.raw("v", out.done());
  return j.done();
}
OP(hexp) {
  Bytes in = a.get("in");
  size_t size = (size_t)a.num("size");
  char *b = (char *)malloc(size ? size : 1);
  memset(b, '#', size);
  size_t r = printf_hex(b, size, (const uint8_t *)in.data(), in.size(),
                        (int)a.num("upper"));
  J j;
  j.num("r", r);
  j.hex("buf", Bytes(b, size));
  free(b);
  return j.done();
}
